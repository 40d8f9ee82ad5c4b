----------------------------- MODULE MCAlgebra -----------------------------
(* (1) Laws, for every unit tensor of every small geometry (the operations are linear): the column form and its inverse are
   adjoint, so are the sums over regions and their spreading, exchanging samples and maps twice changes nothing, and
   transposed products agree.  (2) Scenarios for the real code. *)
EXTENDS Algebra, TLC, Json, FiniteSets
CONSTANTS Deep, MaxLen
VARIABLES geo, hist
mvars == <<reg, ok, geo, hist>>
Unit(n, i) == [e \in 1..n |-> IF e = i THEN 4 ELSE 0]
Dot(a, b) == Sum([e \in 1..Len(a) |-> a[e] * b[e]], Len(a))
Big == IF Deep THEN 4 ELSE 3
Geos == {[w |-> w, h |-> h, m |-> m, s |-> s, kx |-> kx, ky |-> ky, sx |-> sx, sy |-> sy, px |-> px, py |-> py] :
          w \in 1..Big, h \in IF Deep THEN {2, 3} ELSE {2}, m \in {2}, s \in {IF Deep THEN 2 ELSE 1}, kx \in 1..3, ky \in {1, 2}, sx \in 1..2, sy \in {2}, px \in 0..2, py \in 0..1}
Usable(g) == 2 * g.px + g.w >= g.kx /\ 2 * g.py + g.h >= g.ky
Tensor(d, i) == [d |-> d, v |-> Unit(Size(d), i)]
MInit == ok = TRUE /\ hist = <<>> /\
  \/ \E g \in {g \in Geos : Usable(g)} : geo = g /\
       \E i \in 1..(g.s * g.w * g.h * g.m) : \E j \in 1..ColSize(g) : (i + 3 * j) % (IF Deep THEN 3 ELSE 41) = 0 /\
         reg = [r \in Regs |-> IF r = 1 THEN Tensor(<<g.s, g.w, g.h, g.m>>, i) ELSE IF r = 2 THEN Tensor(<<g.kx * g.ky * g.m, OutW(g), OutH(g), g.s>>, j) ELSE Empty]
  \/ \E w \in 1..2, h \in 1..2, rw \in 1..3, rh \in 1..2, m \in 1..2 : geo = [w |-> 0, rw |-> rw, rh |-> rh] /\
       \E i \in 1..(2 * w * rw * h * rh * m), j \in 1..(2 * w * h * m) :
         reg = [r \in Regs |-> IF r = 1 THEN Tensor(<<2, w * rw, h * rh, m>>, i) ELSE IF r = 2 THEN Tensor(<<2, w, h, m>>, j)
                               ELSE IF r = 3 THEN Tensor(<<m, w, h, 2>>, 1) ELSE Empty]
MSpec == MInit /\ [][UNCHANGED mvars]_mvars
AdjointCol == geo.w > 0 => Dot(Im2colOf(1, geo, 2), reg[2].v) = Dot(reg[1].v, Col2imOf(1, geo, 2))
AdjointSum == geo.w = 0 => Dot(DownOf(1, 2, geo.rw, geo.rh, 4), reg[2].v) = Dot(reg[1].v, UpOf(2, 1, geo.rw, geo.rh, 4))
Involution == geo.w = 0 => LET t == SmsOf(2, 3) IN
  \A e \in DOMAIN reg[2].v : LET d == reg[2].d IN reg[2].v[e] = At([d |-> reg[3].d, v |-> t], X(e - 1, d), Y(e - 1, d), S(e - 1, d), M(e - 1, d))
(* the rows of register 1 taken as a matrix, times those of register 2, all four ways of transposing *)
Products == geo.w = 0 /\ Len(reg[1].v) <= 12 => LET m == Len(reg[1].v) \div 2  n == Len(reg[2].v) \div 2
                             p(rm, ta, tb, x, y, a, la, b, lb) == [q \in 1..(x * y) |-> Sum([h \in 1..2 |-> Entry(rm, ta, a, 0, la, (q - 1) \div y, h - 1) * Entry(rm, tb, b, 0, lb, h - 1, (q - 1) % y)], 2)] IN
  \A ta, tb \in BOOLEAN : LET f == p(TRUE, ta, tb, m, n, 1, IF ta THEN m ELSE 2, 2, IF tb THEN 2 ELSE n)  g == p(TRUE, ~tb, ~ta, n, m, 2, IF tb THEN 2 ELSE n, 1, IF ta THEN m ELSE 2) IN
     \A i \in 1..m, j \in 1..n : f[(i - 1) * n + j] = g[(j - 1) * m + i]

(* ---- scenarios *)
R(a, b) == RandomElement(a..b)
Rec(op) == hist' = Append(hist, op)
B(z) == IF z THEN 1 ELSE 0
Contents(n, k) == [e \in 1..n |-> CASE k = 0 -> NaN [] k = 1 -> R(-5, 5) [] k = 2 -> 4 * R(-5, 5) [] k = 3 -> R(0, 1) [] OTHER -> ((e * k + (e \div 17)) % 11) - 5]
Small(r, z) == reg[r].v # <<>> /\ \A e \in DOMAIN reg[r].v : reg[r].v[e] \in (-z)..z
Bounded == \A r \in Regs : \A e \in DOMAIN reg'[r].v : reg'[r].v[e] \in (-1000000)..1000000 \cup {NaN}
RDim(q) == CASE R(1, 12) = 1 -> R(8, 40) [] R(1, 3) = 1 -> R(3, 8) [] OTHER -> R(1, 4)
One(q) == {R(1, NR)}
(* operations come with the registers they need, so that any geometry can occur *)
Mat(i, n, s, k) == [d |-> <<s, n, 1, 1>>, v |-> TLCEval(Contents(n * s, k))]
Load(i, t) == <<"Set", i>> \o t.d \o t.v
SNext == UNCHANGED geo /\
  \/ \E m \in {RDim(hist)}, n \in {RDim(hist)}, k \in {RDim(hist)}, ta \in {R(0, 1) = 1}, tb \in {R(0, 1) = 1}, rm \in {R(0, 5) > 0}, ea \in {R(0, 2)}, eb \in {R(0, 2)}, ec \in {R(0, 2)},
        al \in {RandomElement({1, 1, 2, -1, 0})}, be \in {RandomElement({0, 0, 1, 2, -1})}, sa \in {R(0, 2) \div 2}, sb \in {R(0, 2) \div 2}, sc \in {R(0, 2) \div 2} :
       LET ra == IF ta = rm THEN k ELSE m  ca == IF ta = rm THEN m ELSE k  rb == IF tb = rm THEN n ELSE k  cb == IF tb = rm THEN k ELSE n
           rc == IF rm THEN m ELSE n  cc == IF rm THEN n ELSE m IN
       \E a \in {Mat(1, ra * (ca + ea), sa + 1, 1)}, b \in {Mat(2, rb * (cb + eb), sb + 1, 3 + R(0, 8))}, c \in {Mat(3, rc * (cc + ec), sc + 1, IF be = 0 THEN R(0, 1) ELSE 1)} :
         /\ reg' = [reg EXCEPT ![1] = a, ![2] = b, ![3] = c] /\ ok' = TRUE
         /\ hist' = hist \o <<Load(1, a), Load(2, b), Load(3, c), <<"Gemm", B(rm), B(ta), B(tb), m, n, k, al, 1, sa, ca + ea, 2, sb, cb + eb, be, 3, sc, cc + ec>>>>
  \/ \E m \in {RDim(hist)}, n \in {RDim(hist)}, t \in {R(0, 1) = 1}, rm \in {R(0, 5) > 0}, ea \in {R(0, 2)}, ix \in {R(1, 2)}, iy \in {R(1, 2)},
        al \in {RandomElement({1, 1, 2, -1, 0})}, be \in {RandomElement({0, 0, 1, 2, -1})}, sa \in {R(0, 2) \div 2}, sx \in {R(0, 2) \div 2}, sy \in {R(0, 2) \div 2} :
       LET rows == IF t THEN n ELSE m  cols == IF t THEN m ELSE n  ld == (IF rm THEN n ELSE m) + ea IN
       \E a \in {Mat(1, (IF rm THEN m ELSE n) * ld, sa + 1, 1)}, x \in {Mat(2, cols * ix, sx + 1, 3 + R(0, 8))}, y \in {Mat(3, rows * iy, sy + 1, IF be = 0 THEN R(0, 1) ELSE 1)} :
         /\ reg' = [reg EXCEPT ![1] = a, ![2] = x, ![3] = y] /\ ok' = TRUE
         /\ hist' = hist \o <<Load(1, a), Load(2, x), Load(3, y), <<"Gemv", B(rm), B(t), m, n, al, 1, sa, ld, 2, sx, ix, be, 3, sy, iy>>>>
  \/ \E g \in {[w |-> RDim(hist), h |-> R(1, 6), m |-> R(1, 3), s |-> R(1, 3), kx |-> R(1, 4), ky |-> R(1, 3), sx |-> R(1, 3), sy |-> R(1, 3), px |-> R(0, 3), py |-> R(0, 2)]}, wrong \in {R(1, 8) = 1}, back \in {R(0, 1) = 1} :
       /\ Usable(g)
       /\ \E a \in {[d |-> <<g.s, g.w, g.h, g.m>>, v |-> TLCEval(Contents(g.s * g.w * g.h * g.m, IF back THEN R(0, 1) ELSE 1))]},
             c \in {[d |-> <<g.kx * g.ky * g.m, OutW(g), OutH(g), g.s + B(wrong)>>, v |-> TLCEval(Contents(g.kx * g.ky * g.m * OutW(g) * OutH(g) * (g.s + B(wrong)), IF back THEN 1 ELSE R(0, 1)))]} :
            /\ reg' = [reg EXCEPT ![1] = a, ![2] = c] /\ ok' = TRUE
            /\ hist' = hist \o <<Load(1, a), Load(2, c), <<IF back THEN "Col2im" ELSE "Im2col", 1, g.w, g.h, g.m, g.s, g.kx, g.ky, g.sx, g.sy, g.px, g.py, 2>>>>
  \/ \E a \in One(hist), s \in {R(-1, 2)}, z \in {R(-3, 3)} : reg[a].v # <<>> /\ s < reg[a].d[1] /\ UNCHANGED <<reg, ok>> /\ Rec(<<"SetSample", a, s, z>>)
  \/ \E d \in {<<R(1, 4), RDim(hist), R(1, 4), R(1, 4)>>} : \E a \in {[d |-> d, v |-> TLCEval(Contents(Size(d), 1))]}, c \in {[d |-> <<d[4], d[2], d[3], d[1]>>, v |-> TLCEval(Contents(Size(d), 0))]} :
       reg' = [reg EXCEPT ![1] = a, ![2] = c] /\ ok' = TRUE /\ hist' = hist \o <<Load(1, a), Load(2, c), <<"Sms", 1, 2>>>>
  \/ \E d \in {<<R(1, 3), RDim(hist), R(1, 4), R(1, 3)>>}, rw \in {R(1, 4)}, rh \in {R(1, 4)}, f \in {RandomElement({1, 2, 4, 8})}, ew \in {R(0, 2) \div 2}, eh \in {R(0, 2) \div 2}, up \in {R(0, 1) = 1} :
       LET b == <<d[1], d[2] * rw + ew, d[3] * rh + eh, d[4]>> IN
       \E lo \in {[d |-> d, v |-> TLCEval(Contents(Size(d), IF up THEN 2 ELSE R(0, 1)))]}, hi \in {[d |-> b, v |-> TLCEval(Contents(Size(b), IF up THEN R(0, 1) ELSE 2))]} :
         reg' = [reg EXCEPT ![1] = lo, ![2] = hi] /\ ok' = TRUE /\ hist' = hist \o <<Load(1, lo), Load(2, hi), IF up THEN <<"Up", 1, 2, rw, rh, f>> ELSE <<"Down", 2, 1, rw, rh, f>>>>
  \/ \E d \in {<<R(1, 3), RDim(hist), R(1, 5), R(1, 3)>>}, wrong \in {R(1, 6)}, al \in {R(1, 4)} :
       \E a \in {[d |-> d, v |-> TLCEval(Contents(Size(d), 1))]},
          b \in {LET q == IF wrong = 1 THEN <<d[1] + 1, d[2], d[3], d[4]>> ELSE IF wrong = 2 THEN <<d[1], d[2], d[3] + 1, d[4]>> ELSE d IN [d |-> q, v |-> TLCEval(Contents(Size(q), 1))]},
          c \in {LET q == IF wrong = 3 THEN <<d[1], d[2] + 1, d[3], d[4]>> ELSE <<d[1], d[3], d[2], d[4]>> IN [d |-> q, v |-> TLCEval(Contents(Size(q), 0))]} :
         reg' = [reg EXCEPT ![1] = a, ![2] = b, ![3] = c] /\ ok' = TRUE
         /\ hist' = hist \o <<Load(1, a), Load(2, b), Load(3, c), <<"Add", 1, IF al = 1 THEN 1 ELSE 2, IF al = 2 THEN 1 ELSE 3>>>>
SSpec == Init /\ geo = [w |-> 0, rw |-> 1, rh |-> 1] /\ hist = <<>> /\ [][SNext]_mvars
SimExport == (TLCGet("level") = MaxLen) => PrintT("@@" \o ToJson(hist))
=============================================================================

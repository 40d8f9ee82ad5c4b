------------------------------ MODULE Algebra ------------------------------
(* The tensor operations every layer is built from, as operations on a few registers.  A register is a tensor
   [d |-> <<samples, width, height, maps>>, v |-> elements in storage order (sample, map, row, column)]. Values are integers,
   NaN stands for "not a number". *)
EXTENDS Integers, Sequences
CONSTANT NR
VARIABLES reg, ok          \* registers; whether the last operation was carried out
avars == <<reg, ok>>
Regs == 1..NR
NaN == 2000000001
Size(d) == d[1] * d[2] * d[3] * d[4]
Per(d) == d[2] * d[3] * d[4]                       \* elements of one sample
Empty == [d |-> <<0, 0, 0, 0>>, v |-> <<>>]
Init == reg = [i \in Regs |-> Empty] /\ ok = TRUE
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
(* element of tensor t at column x, row y, map m of sample s *)
At(t, x, y, m, s) == t.v[((s * t.d[4] + m) * t.d[3] + y) * t.d[2] + x + 1]
Put(i, f) == reg' = [reg EXCEPT ![i].v = f] /\ ok' = TRUE
Refuse == ok' = FALSE /\ UNCHANGED reg
(* coordinates of element e (from 0) of a tensor of dimensions d *)
X(e, d) == e % d[2]
Y(e, d) == (e \div d[2]) % d[3]
M(e, d) == (e \div (d[2] * d[3])) % d[4]
S(e, d) == e \div Per(d)

Set(i, d, v) == Len(v) = Size(d) /\ reg' = [reg EXCEPT ![i] = [d |-> d, v |-> v]] /\ ok' = TRUE

(* matrices inside of registers: r = register, s = first sample, ld = elements from one row (column, if not row major) to the next *)
Entry(rm, t, a, s, ld, i, j) ==                     \* entry (i, j) of op(A)
  LET p == IF t THEN <<j, i>> ELSE <<i, j>> IN
  reg[a].v[s * Per(reg[a].d) + (IF rm THEN p[1] * ld + p[2] ELSE p[2] * ld + p[1]) + 1]
(* C := alpha op(A) op(B) + beta C, what C held does not matter if beta is 0 *)
GemmOf(rm, ta, tb, m, n, k, al, a, sa, lda, b, sb, ldb, be, c, sc, ldc) ==
  LET off == sc * Per(reg[c].d) IN
  [e \in DOMAIN reg[c].v |->
    LET q == e - 1 - off  i == IF rm THEN q \div ldc ELSE q % ldc  j == IF rm THEN q % ldc ELSE q \div ldc IN
    IF q < 0 \/ i >= m \/ j >= n THEN reg[c].v[e]
    ELSE al * Sum([h \in 1..k |-> Entry(rm, ta, a, sa, lda, i, h - 1) * Entry(rm, tb, b, sb, ldb, h - 1, j)], k)
         + (IF be = 0 THEN 0 ELSE be * reg[c].v[e])]
(* y := alpha op(A) x + beta y for a matrix A of m rows and n columns *)
GemvOf(rm, t, m, n, al, a, sa, lda, x, sx, ix, be, y, sy, iy) ==
  LET off == sy * Per(reg[y].d)  rows == IF t THEN n ELSE m  cols == IF t THEN m ELSE n IN
  [e \in DOMAIN reg[y].v |->
    LET q == e - 1 - off IN
    IF q < 0 \/ q % iy # 0 \/ q \div iy >= rows THEN reg[y].v[e]
    ELSE al * Sum([h \in 1..cols |-> Entry(rm, t, a, sa, lda, q \div iy, h - 1) * reg[x].v[sx * Per(reg[x].d) + (h - 1) * ix + 1]], cols)
         + (IF be = 0 THEN 0 ELSE be * reg[y].v[e])]

Gemm(rm, ta, tb, m, n, k, al, a, sa, lda, b, sb, ldb, be, c, sc, ldc) == Put(c, GemmOf(rm, ta, tb, m, n, k, al, a, sa, lda, b, sb, ldb, be, c, sc, ldc))
Gemv(rm, t, m, n, al, a, sa, lda, x, sx, ix, be, y, sy, iy) == Put(y, GemvOf(rm, t, m, n, al, a, sa, lda, x, sx, ix, be, y, sy, iy))

(* windows of an image as columns: row r = (map, window row, window column), column = (sample, position) *)
OutW(g) == (2 * g.px + g.w - g.kx) \div g.sx + 1
OutH(g) == (2 * g.py + g.h - g.ky) \div g.sy + 1
ColSize(g) == g.s * OutW(g) * OutH(g) * g.kx * g.ky * g.m
Im2colOf(a, g, c) ==
  LET n == g.s * OutW(g) * OutH(g) IN
    [e \in DOMAIN reg[c].v |->
      LET r == (e - 1) \div n  q == (e - 1) % n  s == q \div (OutW(g) * OutH(g))
          y == ((q \div OutW(g)) % OutH(g)) * g.sy - g.py + ((r \div g.kx) % g.ky)
          x == (q % OutW(g)) * g.sx - g.px + (r % g.kx) IN
      IF x \in 0..(g.w - 1) /\ y \in 0..(g.h - 1) THEN At(reg[a], x, y, r \div (g.kx * g.ky), s) ELSE 0]
Im2col(a, g, c) == IF Size(reg[c].d) # ColSize(g) THEN Refuse ELSE Put(c, Im2colOf(a, g, c))
(* the adjoint: every element of the image collects what its copies hold *)
Hits(g, z, k, st, pd, out) == {<<o, q>> \in (0..(out - 1)) \X (0..(k - 1)) : o * st - pd + q = z}
RECURSIVE SumSet(_, _)
SumSet(f, D) == IF D = {} THEN 0 ELSE LET z == CHOOSE z \in D : TRUE IN f[z] + SumSet(f, D \ {z})
Col2imOf(a, g, c) ==
  LET n == g.s * OutW(g) * OutH(g) IN
    [e \in DOMAIN reg[a].v |->
      LET d == reg[a].d  hx == Hits(g, X(e - 1, d), g.kx, g.sx, g.px, OutW(g))  hy == Hits(g, Y(e - 1, d), g.ky, g.sy, g.py, OutH(g)) IN
      SumSet([z \in hx \X hy |-> reg[c].v[((M(e - 1, d) * g.ky + z[2][2]) * g.kx + z[1][2]) * n
                                         + (S(e - 1, d) * OutH(g) + z[2][1]) * OutW(g) + z[1][1] + 1]], hx \X hy)]
(* a refused one may have cleared the image already *)
Col2im(a, g, c) ==
  IF Size(reg[c].d) # ColSize(g) THEN ok' = FALSE /\ (UNCHANGED reg \/ reg' = [reg EXCEPT ![a].v = [e \in DOMAIN reg[a].v |-> 0]])
  ELSE Put(a, Col2imOf(a, g, c))

SetSample(a, s, z) == Put(a, [e \in DOMAIN reg[a].v |-> IF s = -1 \/ S(e - 1, reg[a].d) = s THEN z ELSE reg[a].v[e]])
(* samples and maps exchanged *)
SmsOf(a, c) == [e \in DOMAIN reg[c].v |-> LET d == reg[c].d IN At(reg[a], X(e - 1, d), Y(e - 1, d), S(e - 1, d), M(e - 1, d))]
Sms(a, c) == Put(c, SmsOf(a, c))
(* sum over regions, and its adjoint; factor f in quarters, the values of the argument are multiples of 4 *)
DownOf(a, c, rw, rh, f) == [e \in DOMAIN reg[c].v |-> LET d == reg[c].d IN
  (f * Sum([z \in 1..(rw * rh) |-> At(reg[a], X(e - 1, d) * rw + ((z - 1) % rw), Y(e - 1, d) * rh + ((z - 1) \div rw), M(e - 1, d), S(e - 1, d))], rw * rh)) \div 4]
UpOf(a, c, rw, rh, f) == [e \in DOMAIN reg[c].v |-> LET d == reg[c].d  b == reg[a].d  x == X(e - 1, d) \div rw  y == Y(e - 1, d) \div rh IN
  IF x < b[2] /\ y < b[3] THEN (f * At(reg[a], x, y, M(e - 1, d), S(e - 1, d))) \div 4 ELSE reg[c].v[e]]
Down(a, c, rw, rh, f) == Put(c, DownOf(a, c, rw, rh, f))
Up(a, c, rw, rh, f) == Put(c, UpOf(a, c, rw, rh, f))
Add(a, b, c) ==
  IF \/ reg[a].d[1] # reg[b].d[1] \/ reg[b].d[1] # reg[c].d[1] \/ Size(reg[a].d) # Size(reg[b].d) \/ Size(reg[b].d) # Size(reg[c].d) THEN Refuse
  ELSE Put(c, [e \in DOMAIN reg[c].v |-> reg[a].v[e] + reg[b].v[e]])
=============================================================================

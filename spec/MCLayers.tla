------------------------------ MODULE MCLayers ------------------------------
EXTENDS Layers, TLC, Json
CONSTANTS SIM, GROUP, MaxLen, Deep
VARIABLES hist, val
mvars == <<lay, run, hist, val>>
R(a, z) == RandomElement(a..z)
Rec(op) == hist' = Append(hist, op)
None == [in |-> <<>>, par |-> <<>>, dl |-> <<>>]
MInit == Init /\ hist = <<>> /\ val = None
(* ---- exhaustive: small shapes; the backward pass is the derivative of the forward pass *)
L == IF Deep THEN 4 ELSE 3
Dims(S, M) == {Sh(s, w, h, m) : s \in S, w \in 1..L, h \in 1..L, m \in M}
Configs ==
  CASE GROUP = "conv" -> {[k |-> "conv", p |-> <<kw, kh, sw, sh, pw, ph, g, g * q, 0>>, ins |-> <<Sh(2, w, h, g * q)>>] :
          kw \in 1..2, kh \in {1, 3}, sw \in 1..2, sh \in 1..2, pw \in 0..1, ph \in 0..1, g \in 1..2, q \in IF Deep THEN 1..2 ELSE {1}, w \in {2, L}, h \in {1, 3}}
    [] GROUP = "pool" -> {[k |-> "amax", p |-> <<kw, kh, sw, sh>>, ins |-> <<d>>] : kw \in 1..3, kh \in 1..2, sw \in 1..3, sh \in 1..2, d \in Dims({1}, {2})}
                    \cup {[k |-> "max", p |-> <<kw, kh>>, ins |-> <<d>>] : kw \in 1..3, kh \in 1..2, d \in Dims({2}, {1})}
    [] GROUP = "geo" -> {[k |-> k, p |-> <<a, b>>, ins |-> <<d>>] : k \in {"resize", "up"}, a \in 1..3, b \in 1..2, d \in Dims({2}, {2})}
                   \cup {[k |-> k, p |-> <<>>, ins |-> <<c, d>>] : k \in {"cat", "sum"}, c \in Dims({2}, {1, 2}), d \in Dims({2}, {1})}
                   \cup {[k |-> "ga", p |-> <<3>>, ins |-> <<d>>] : d \in Dims({1}, {2})}
    [] OTHER -> {[k |-> "err", p |-> <<2>>, ins |-> <<c, d, Sh(2, c.w, c.h, 1)>>] : c \in Dims({1, 2}, {1, 2}), d \in Dims({2}, {1, 2})}
           \cup {[k |-> "relu", p |-> <<>>, ins |-> <<d>>] : d \in Dims({1}, {2})}
Pat(n, a, z) == [e \in 1..n |-> ((e * a + z) % 7) - 3]
Distinct(n) == [e \in 1..n |-> 2 * ((e * 5) % 97)]
MNext == UNCHANGED hist /\
  \/ lay = NoLayer /\ \E c \in Configs : Make(c.k, c.p, c.ins, Fits(c.k, c.p, c.ins)) /\ UNCHANGED val
  \/ lay # NoLayer /\ ~run.on /\ LET n == [i \in DOMAIN lay.ins |-> Els(lay.ins[i])]
                                     in == IF lay.k \in {"max", "amax"} THEN <<Distinct(n[1])>> ELSE [i \in DOMAIN n |-> Pat(n[i], 2 + i, i)]
                                     par == [i \in DOMAIN lay.pars |-> Pat(Els(lay.pars[i]), 3, i)] IN
       /\ run' = [on |-> TRUE, in |-> in, par |-> par] /\ UNCHANGED lay
       /\ val' = [in |-> in, par |-> par, dl |-> [i \in DOMAIN lay.outs |-> Pat(Els(lay.outs[i]), 2, i)]]
MSpec == MInit /\ [][MNext]_mvars
(* the forward function as a value *)
Eval(in, par) == CASE lay.k = "conv" -> ConvOut(in[1], par[1], par[2])
                   [] lay.k \in {"max", "amax"} -> PoolOut(in[1])
                   [] lay.k \in Geo -> GeoOut(in)
                   [] lay.k = "relu" -> [e \in DOMAIN in[1] |-> Max2(in[1][e], 0)]
                   [] OTHER -> <<ErrTwice(in)>>
Bump(q, i, e, by) == [q EXCEPT ![i][e] = @ + by]
Dot(a, z) == Total([e \in DOMAIN a |-> a[e] * z[e]])
Diff(a, z) == [e \in DOMAIN a |-> a[e] - z[e]]
(* the sum of the gradients of all copies when one tensor is handed out several times *)
Dl == IF lay.k = "ga" THEN [e \in 1..Els(lay.outs[1]) |-> Total([b \in 1..Len(val.dl) |-> val.dl[b][e]])] ELSE val.dl[1]
Derivative == run.on =>
  LET F0 == Eval(val.in, val.par) IN
  IF lay.k = "err" THEN   \* twice the loss is quadratic: its central difference is exact
    \A e \in DOMAIN val.in[1] : ErrTwice(Bump(val.in, 1, e, 1)) - ErrTwice(Bump(val.in, 1, e, -1)) = 4 * ErrDelta(val.in)[e]
  ELSE LET G(i, e) == Dot(Dl, Diff(Eval(Bump(val.in, i, e, 1), val.par), F0))
           H(i, e) == Dot(Dl, Diff(Eval(val.in, Bump(val.par, i, e, 1)), F0)) IN
   CASE lay.k = "conv" -> /\ \A e \in DOMAIN val.in[1] : ConvIn(val.par[1], val.dl[1])[e] = G(1, e)
                          /\ \A e \in DOMAIN val.par[1] : ConvW(val.in[1], val.dl[1])[e] = H(1, e)
                          /\ \A e \in DOMAIN val.par[2] : ConvB(val.dl[1])[e] = H(2, e)
     [] lay.k \in {"max", "amax"} -> PoolBack(val.in[1], val.dl[1], [e \in DOMAIN val.in[1] |-> G(1, e)])
     [] lay.k \in Geo -> \A i \in DOMAIN val.in : \A e \in DOMAIN val.in[i] : GeoBack(val.dl, i)[e] = G(i, e)
     [] OTHER -> \A e \in DOMAIN val.in[1] : val.in[1][e] # 0 => (IF val.in[1][e] > 0 THEN val.dl[1][e] ELSE 0) = G(1, e)
(* refusal is decided by shapes alone and every accepted layer has nonempty outputs *)
Sound == lay # NoLayer => \A i \in DOMAIN lay.outs : Pix(lay.outs[i])

(* ---- scenarios *)
D(smax, wmax, mmax) == <<R(1, smax), R(1, wmax), R(1, wmax), R(1, mmax)>>
Kinds == CASE GROUP = "conv" -> {"conv"} [] GROUP = "pool" -> {"amax", "max"} [] GROUP = "geo" -> {"resize", "up", "down", "cat", "sum", "prior", "ga"}
           [] OTHER -> {"relu", "sigm", "tanh", "lrn", "hmax", "err"}
Alter(d) == IF R(1, 3) > 1 THEN d ELSE LET i == R(1, 4) IN [d EXCEPT ![i] = R(1, 4)]
One(k) ==
  CASE k = "conv" -> LET g == R(1, 3) c == R(1, 2) f == R(1, 2) IN
          <<k, 9, R(1, 4), R(1, 4), R(1, 3), R(1, 3), IF R(1, 2) = 1 THEN 0 ELSE R(0, 2), IF R(1, 2) = 1 THEN 0 ELSE R(0, 2), g, g * f, IF R(1, 6) = 1 THEN R(1, 3) ELSE 0, 1, R(1, 3), R(1, 7), R(1, 7), g * c>>
    [] k = "amax" -> <<k, 4, R(1, 4), R(1, 4), R(1, 3), R(1, 3), 1, R(1, 2), R(1, 6), R(1, 6), R(1, 3)>>
    [] k \in {"max", "down"} -> LET a == R(1, 3) b == R(1, 3) IN <<k, 2, a, b, 1, R(1, 3), IF R(1, 5) = 1 THEN R(1, 8) ELSE a * R(1, 3), IF R(1, 5) = 1 THEN R(1, 8) ELSE b * R(1, 3), R(1, 3)>>
    [] k = "resize" -> <<k, 2, R(0, 5), R(0, 5), 1>> \o D(3, 5, 3)
    [] k = "up" -> <<k, 2, R(1, 3), R(1, 3), 1>> \o D(3, 4, 3)
    [] k \in {"cat", "sum"} -> LET d == D(3, 4, 3) IN <<k, 0, 2>> \o d \o (IF k = "cat" /\ R(1, 3) > 1 THEN [d EXCEPT ![4] = R(1, 4)] ELSE Alter(d))
    [] k = "prior" -> <<k, 0, 1>> \o D(3, 7, 3)
    [] k = "ga" -> <<k, 1, R(1, 4), 1>> \o D(3, 4, 3)
    [] k \in {"relu", "sigm", "tanh", "hmax"} -> <<k, 0, 1>> \o D(3, 5, 3)
    [] k = "lrn" -> LET x == R(0, 1) IN <<k, 4, IF x = 1 THEN R(1, 4) ELSE R(1, 3), x, 36, R(1, 2), 1>> \o D(2, 5, 4)
    [] OTHER -> LET d == D(3, 4, 3) IN <<k, 1, R(1, 3), 3>> \o d \o (IF R(1, 6) = 1 THEN Alter(d) ELSE d) \o <<IF R(1, 8) = 1 THEN R(1, 3) ELSE d[1], d[2], d[3], 1>>
(* shapes with one large dimension, or a large image *)
Wide == LET i == R(1, 5)  d == <<R(1, 2), R(1, 9), R(1, 9), R(1, 3)>>  b == R(240, 300) IN
  CASE i = 1 -> [d EXCEPT ![1] = b] [] i = 2 -> [d EXCEPT ![2] = 20 * b] [] i = 3 -> [d EXCEPT ![3] = 20 * b] [] i = 4 -> [d EXCEPT ![4] = b] [] OTHER -> [d EXCEPT ![2] = b, ![3] = R(220, 280), ![4] = 1]
Huge(k) ==
  CASE k = "conv" -> LET g == R(1, 2) c == R(1, 2) f == R(1, 2)  d == Wide IN
          <<k, 9, R(1, 4), R(1, 4), R(1, 3), R(1, 3), R(0, 2), R(0, 2), g, IF R(1, 4) = 1 THEN g * R(120, 140) ELSE g * f, 0, 1, d[1], d[2] + 3, d[3] + 3, g * (IF d[4] > 200 THEN 130 ELSE c)>>
    [] k = "amax" -> <<k, 4, R(1, 4), R(1, 4), R(1, 3), R(1, 3), 1>> \o [Wide EXCEPT ![2] = @ + 3, ![3] = @ + 3]
    [] k \in {"max", "down"} -> LET a == R(1, 4) b == R(1, 4) IN <<k, 2, a, b, 1>> \o [Wide EXCEPT ![2] = @ * a, ![3] = @ * b]
    [] k = "resize" -> <<k, 2, IF R(1, 3) = 1 THEN R(250, 300) ELSE R(0, 5), IF R(1, 3) = 1 THEN R(250, 300) ELSE R(0, 5), 1>> \o Wide
    [] k = "up" -> <<k, 2, R(1, 4), R(1, 4), 1>> \o Wide
    [] k \in {"cat", "sum"} -> LET d == Wide IN <<k, 0, 2>> \o d \o (IF k = "cat" THEN [d EXCEPT ![4] = R(1, 4)] ELSE d)
    [] k = "ga" -> <<k, 1, R(1, 4), 1>> \o Wide
    [] k = "lrn" -> LET x == R(0, 1) IN <<k, 4, IF x = 1 THEN R(1, 4) ELSE R(1, 3), x, 36, R(1, 2), 1>> \o Wide
    [] k = "err" -> LET d == Wide IN <<k, 1, R(1, 3), 3>> \o d \o d \o [d EXCEPT ![4] = 1]
    [] OTHER -> <<k, 0, 1>> \o Wide
BNext == UNCHANGED <<lay, run, val>> /\
  \/ hist = <<>> /\ \E k \in {RandomElement(Kinds \ {"hmax"})} : Rec(<<"Make">> \o Huge(k))
  \/ Len(hist) = 1 /\ Rec(<<"Large", R(1, 100000)>>)
BSpec == MInit /\ [][BNext]_mvars
SNext == UNCHANGED <<lay, run, val>> /\
  \/ hist = <<>> /\ \E k \in {RandomElement(Kinds)} : Rec(<<"Make">> \o One(k))
  \/ hist # <<>> /\ Rec(<<"FF", R(1, 100000)>>)
  \/ Len(hist) > 1 /\ \E z \in 1..2 : Rec(<<"BP", IF R(1, 6) = 1 THEN 0 ELSE 1, R(1, 100000)>>)
SSpec == MInit /\ [][SNext]_mvars
SimExport == (Len(hist) = MaxLen) => PrintT("@@" \o ToJson(hist))
=============================================================================

------------------------------- MODULE Layers -------------------------------
(* What each layer computes and what it passes back.  A layer is created for inputs of given shapes (or refuses them), then
   alternates forward passes (reading its inputs and parameters) and backward passes (reading the output's gradient as well).
   Shapes are [s, w, h, m] (samples, width, height, maps); a tensor is the sequence of its elements, x fastest, then y, map, sample. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLES lay, run
lvars == <<lay, run>>
(* lay = [k, p, ins, outs, pars]; run = [on, in, par] the last forward pass *)
Off == [on |-> FALSE, in |-> <<>>, par |-> <<>>]
NoLayer == [k |-> "none", p |-> <<>>, ins |-> <<>>, outs |-> <<>>, pars |-> <<>>]
Init == lay = NoLayer /\ run = Off
Sh(s, w, h, m) == [s |-> s, w |-> w, h |-> h, m |-> m]
Els(d) == d.s * d.w * d.h * d.m
At(d, s, x, y, m) == ((s * d.m + m) * d.h + y) * d.w + x + 1
(* coordinates of element e *)
XC(d, e) == (e - 1) % d.w
YC(d, e) == ((e - 1) \div d.w) % d.h
MP(d, e) == ((e - 1) \div (d.w * d.h)) % d.m
SP(d, e) == (e - 1) \div (d.w * d.h * d.m)
RECURSIVE AddUp(_, _)
AddUp(f, k) == IF k = 0 THEN 0 ELSE f[k] + AddUp(f, k - 1)
Total(q) == AddUp(q, Len(q))
RECURSIVE Gather(_, _, _)   \* sum of f over a finite set of integers in a..z
Gather(f(_), a, z) == IF a > z THEN 0 ELSE f(a) + Gather(f, a + 1, z)
Abs(n) == IF n < 0 THEN -n ELSE n
Max2(a, z) == IF a > z THEN a ELSE z
Min2(a, z) == IF a < z THEN a ELSE z
Near(a, z, tol) == Abs(a - z) <= tol
Zero(n) == [e \in 1..n |-> 0]
-----------------------------------------------------------------------------
(* parameters p of the kinds:  conv <<kw, kh, sw, sh, pw, ph, groups, kernels, quarters>>   amax <<kw, kh, sw, sh>>   max <<kw, kh>>
   resize <<bx, by>>   up, down <<rx, ry>>   lrn <<size, across, alpha, beta>>   err <<weight>>   ga <<outputs>>; others none *)
Pix(d) == d.w > 0 /\ d.h > 0 /\ d.m > 0 /\ d.s > 0
Windows(len, k, st) == IF len < k THEN 0 ELSE (len - k) \div st + 1
OutShape(k, p, ins) == LET d == ins[1] IN
  CASE k = "conv" -> Sh(d.s, Windows(d.w + 2 * p[5], p[1], p[3]), Windows(d.h + 2 * p[6], p[2], p[4]), p[8])
    [] k = "amax" -> Sh(d.s, Windows(d.w, p[1], p[3]), Windows(d.h, p[2], p[4]), d.m)
    [] k = "max" \/ k = "down" -> Sh(d.s, d.w \div p[1], d.h \div p[2], d.m)
    [] k = "resize" -> Sh(d.s, d.w + p[1], d.h + p[2], d.m)
    [] k = "up" -> Sh(d.s, d.w * p[1], d.h * p[2], d.m)
    [] k = "cat" -> Sh(d.s, d.w, d.h, d.m + ins[2].m)
    [] k = "prior" -> Sh(d.s, d.w, d.h, d.m + 2)
    [] OTHER -> d
Outs(k, p, ins) == CASE k = "err" -> <<>> [] k = "ga" -> [i \in 1..p[1] |-> ins[1]] [] OTHER -> <<OutShape(k, p, ins)>>
Same(a, z) == a.s = z.s /\ a.w = z.w /\ a.h = z.h
NeedIns(k) == CASE k \in {"cat", "sum"} -> 2 [] k = "err" -> 3 [] OTHER -> 1
Fits(k, p, ins) == /\ Len(ins) = NeedIns(k)
  /\ CASE k \in {"conv", "amax"} -> LET o == OutShape(k, p, ins) IN o.w > 0 /\ o.h > 0
       [] k \in {"max", "down"} -> ins[1].w % p[1] = 0 /\ ins[1].h % p[2] = 0
       [] k = "cat" -> Same(ins[1], ins[2])
       [] k = "sum" -> ins[1] = ins[2]
       [] k = "err" -> ins[1] = ins[2] /\ ins[1].s = ins[3].s
       [] OTHER -> TRUE
Pars(k, p, ins) == IF k = "conv" THEN <<Sh(p[8], p[1], p[2], ins[1].m \div p[7]), Sh(1, p[8], 1, 1)>>
                   ELSE IF k = "hmax" THEN <<Sh(1, 2, 1, 1)>> ELSE <<>>
Make(k, p, ins, ok) ==
  /\ ok = Fits(k, p, ins) /\ run' = Off
  /\ lay' = IF ok THEN [k |-> k, p |-> p, ins |-> ins, outs |-> Outs(k, p, ins), pars |-> Pars(k, p, ins)] ELSE NoLayer
-----------------------------------------------------------------------------
(* convolution of a zero padded image by groups *)
ConvOut(in, w, b) == LET p == lay.p  d == lay.ins[1]  o == lay.outs[1]  wd == lay.pars[1] IN
  [e \in 1..Els(o) |->
     LET s == SP(o, e)  m == MP(o, e)  g == m \div (p[8] \div p[7])  y0 == YC(o, e) * p[4] - p[6]  x0 == XC(o, e) * p[3] - p[5]
         T(c) == LET R(ky) == LET Q(kx) == in[At(d, s, x0 + kx, y0 + ky, g * wd.m + c)] * w[At(wd, m, kx, ky, c)] IN
                              Gather(Q, Max2(0, -x0), Min2(p[1] - 1, d.w - 1 - x0)) IN
                 Gather(R, Max2(0, -y0), Min2(p[2] - 1, d.h - 1 - y0)) IN
     b[m + 1] + Gather(T, 0, wd.m - 1)]
(* gradient at input element e: over every output of its group and kernel offset that reads it *)
ConvIn(w, dl) == LET p == lay.p  d == lay.ins[1]  o == lay.outs[1]  wd == lay.pars[1]  k == p[8] \div p[7] IN
  [e \in 1..Els(d) |->
     LET s == SP(d, e)  c == MP(d, e)  g == c \div wd.m
         Hits(m) == LET R(ky) == LET a == YC(d, e) + p[6] - ky IN
                          IF a % p[4] # 0 \/ a < 0 \/ a \div p[4] >= o.h THEN 0 ELSE
                          LET Q(kx) == LET z == XC(d, e) + p[5] - kx IN
                                IF z % p[3] # 0 \/ z < 0 \/ z \div p[3] >= o.w THEN 0
                                ELSE dl[At(o, s, z \div p[3], a \div p[4], m)] * w[At(wd, m, kx, ky, c - g * wd.m)] IN
                          Gather(Q, 0, p[1] - 1) IN
                    Gather(R, 0, p[2] - 1) IN
     Gather(Hits, g * k, g * k + k - 1)]
ConvW(in, dl) == LET p == lay.p  d == lay.ins[1]  o == lay.outs[1]  wd == lay.pars[1] IN
  [e \in 1..Els(wd) |->
     LET m == SP(wd, e)  c == (m \div (p[8] \div p[7])) * wd.m + MP(wd, e)  kx == XC(wd, e)  ky == YC(wd, e)
         S(s) == LET R(oy) == LET y == oy * p[4] - p[6] + ky IN
                       IF y < 0 \/ y >= d.h THEN 0 ELSE
                       LET Q(ox) == LET x == ox * p[3] - p[5] + kx IN
                             IF x < 0 \/ x >= d.w THEN 0 ELSE in[At(d, s, x, y, c)] * dl[At(o, s, ox, oy, m)] IN
                       Gather(Q, 0, o.w - 1) IN
                 Gather(R, 0, o.h - 1) IN
     Gather(S, 0, d.s - 1)]
ConvB(dl) == LET o == lay.outs[1] IN
  [m \in 1..o.m |-> LET S(s) == LET R(q) == dl[(s * o.m + m - 1) * o.w * o.h + q] IN Gather(R, 1, o.w * o.h) IN Gather(S, 0, o.s - 1)]
-----------------------------------------------------------------------------
(* pooling: the window of output element e, as input elements *)
Stride(i) == IF lay.k = "amax" THEN lay.p[2 + i] ELSE lay.p[i]
Window(e) == LET d == lay.ins[1]  o == lay.outs[1]  x0 == XC(o, e) * Stride(1)  y0 == YC(o, e) * Stride(2) IN
  {At(d, SP(o, e), x0 + kx, y0 + ky, MP(o, e)) : kx \in 0..(lay.p[1] - 1), ky \in 0..(lay.p[2] - 1)}
Top(in, Q) == in[CHOOSE e \in Q : \A f \in Q : in[f] <= in[e]]
Best(in, e) == LET Q == Window(e)  t == Top(in, Q) IN {f \in Q : in[f] = t}
PoolOut(in) == [e \in 1..Els(lay.outs[1]) |-> Top(in, Window(e))]
(* one maximal element of each window receives the whole gradient.  Where windows have several, the gradients of a plane are
   distinct powers of two, so that the receivers can be read off the result. *)
Bit(n, k) == (n \div k) % 2
PoolBack(in, dl, din) ==
  LET d == lay.ins[1]  o == lay.outs[1]  OS == 1..Els(o)  B == [e \in OS |-> Best(in, e)]
      single == \A e \in OS : Cardinality(B[e]) = 1
      plane(e) == (e - 1) \div (o.w * o.h)
      inplane(f) == (f - 1) \div (d.w * d.h) IN
  IF single THEN din = [f \in 1..Els(d) |-> LET S(e) == IF f \in B[e] THEN dl[e] ELSE 0 IN
                          Gather(S, inplane(f) * o.w * o.h + 1, (inplane(f) + 1) * o.w * o.h)]
  ELSE /\ \A e \in OS : dl[e] = 2 ^ ((e - 1) % (o.w * o.h))
       /\ \A e \in OS : Cardinality({f \in B[e] : din[f] >= 0 /\ Bit(din[f], dl[e]) = 1}) = 1
       /\ \A f \in 1..Els(d) : LET S(e) == IF f \in B[e] /\ Bit(din[f], dl[e]) = 1 THEN dl[e] ELSE 0 IN
             din[f] >= 0 /\ din[f] = Gather(S, inplane(f) * o.w * o.h + 1, (inplane(f) + 1) * o.w * o.h)
-----------------------------------------------------------------------------
(* geometry *)
GeoOut(in) == LET k == lay.k  p == lay.p  d == lay.ins[1]  o == lay.outs[1] IN
  [e \in 1..Els(o) |-> LET s == SP(o, e)  x == XC(o, e)  y == YC(o, e)  m == MP(o, e) IN
    CASE k = "resize" -> LET u == x - p[1] \div 2  v == y - p[2] \div 2 IN IF u \in 0..(d.w - 1) /\ v \in 0..(d.h - 1) THEN in[1][At(d, s, u, v, m)] ELSE 0
      [] k = "up" -> in[1][At(d, s, x \div p[1], y \div p[2], m)]
      [] k = "cat" -> IF m < d.m THEN in[1][At(d, s, x, y, m)] ELSE in[2][At(lay.ins[2], s, x, y, m - d.m)]
      [] k = "sum" -> in[1][e] + in[2][e]
      [] k = "prior" -> IF m = 0 THEN (1000000 * x) \div d.w ELSE IF m = 1 THEN (1000000 * y) \div d.h ELSE in[1][At(d, s, x, y, m - 2)]
      [] k = "ga" -> in[1][e]
      \* the sum of the region; the layer's output times the region's size
      [] OTHER -> LET R(ky) == LET Q(kx) == in[1][At(d, s, x * p[1] + kx, y * p[2] + ky, m)] IN Gather(Q, 0, p[1] - 1) IN Gather(R, 0, p[2] - 1)]
GeoOk(in, out) == LET v == GeoOut(in)  o == lay.outs[1] IN
  IF lay.k = "prior" THEN \A e \in 1..Els(o) : IF MP(o, e) < 2 THEN Near(out[1][e], v[e], 1) ELSE out[1][e] = 1000000 * v[e]
  ELSE IF lay.k = "down" THEN \A e \in 1..Els(o) : Near(out[1][e], 1000 * v[e], 1)
  ELSE \A b \in DOMAIN out : out[b] = v
GeoBack(dl, i) == LET k == lay.k  p == lay.p  d == lay.ins[i]  o == lay.outs[1] IN
  [e \in 1..Els(d) |-> LET s == SP(d, e)  x == XC(d, e)  y == YC(d, e)  m == MP(d, e) IN
    CASE k = "resize" -> dl[1][At(o, s, x + p[1] \div 2, y + p[2] \div 2, m)]
      [] k = "up" -> LET R(ky) == LET Q(kx) == dl[1][At(o, s, x * p[1] + kx, y * p[2] + ky, m)] IN Gather(Q, 0, p[1] - 1) IN Gather(R, 0, p[2] - 1)
      [] k = "cat" -> dl[1][At(o, s, x, y, IF i = 1 THEN m ELSE lay.ins[1].m + m)]
      [] k = "sum" -> dl[1][e]
      [] k = "prior" -> dl[1][At(o, s, x, y, m + 2)]
      [] k = "ga" -> Total([b \in 1..p[1] |-> dl[b][e]])]
-----------------------------------------------------------------------------
(* activations.  Inputs of the exponential kinds are given as fractions a/z standing for ln(a/z) (0/1: minus, 1/0: plus a large
   number); results are in millionths *)
Mil == 1000000
Sigm(f) == (f[1] * Mil) \div (f[1] + f[2])
Sigm2(f) == ((f[1] * f[2] * 10000) \div (f[1] + f[2])) \div (f[1] + f[2])      \* derivative, in ten-thousandths
Tanh(f) == ((f[1] * f[1] - f[2] * f[2]) * Mil) \div (f[1] * f[1] + f[2] * f[2])
Tanh2(f) == LET u == 2 * f[1] * f[2]  v == f[1] * f[1] + f[2] * f[2] IN ((u * u * 10000) \div v) \div v
(* normalization: [denominator base, neighbours] of element e *)
Hood(e) == LET d == lay.ins[1]  n == lay.p[1]  lo == (n - 1) \div 2  hi == n \div 2 IN
  IF lay.p[2] = 1 THEN {At(d, SP(d, e), XC(d, e), YC(d, e), m) : m \in Max2(0, MP(d, e) - lo)..Min2(d.m - 1, MP(d, e) + hi)}
  ELSE {At(d, SP(d, e), x, y, MP(d, e)) : x \in Max2(0, XC(d, e) - lo)..Min2(d.w - 1, XC(d, e) + hi), y \in Max2(0, YC(d, e) - lo)..Min2(d.h - 1, YC(d, e) + hi)}
Base(in, e) == LET Q == Hood(e)  q == SetToSeq(Q) IN 1 + (lay.p[3] \div Cardinality(Q)) * Total([k \in 1..Len(q) |-> in[q[k]] * in[q[k]]])
Pow(b, n) == IF n = 1 THEN b ELSE IF n = 2 THEN b * b ELSE b * b * b
LrnBack(in, dl) == LET d == lay.ins[1]  b == lay.p[4]
    D == [e \in 1..Els(d) |-> Base(in, e)]
    H == [e \in 1..Els(d) |-> Hood(e)] IN
  [j \in 1..Els(d) |-> LET q == SetToSeq({e \in 1..Els(d) : j \in H[e]}) IN
     (dl[j] * 10000) \div Pow(D[j], b)
     - Total([k \in 1..Len(q) |-> LET i == q[k] IN (dl[i] * in[i] * in[j] * 2 * b * (lay.p[3] \div Cardinality(H[i])) * 10000) \div Pow(D[i], b + 1)])]
ErrDelta(in) == LET d == lay.ins[1]  w == lay.ins[3] IN [e \in 1..Els(d) |-> (in[1][e] - in[2][e]) * in[3][At(w, SP(d, e), XC(d, e), YC(d, e), 0)] * lay.p[1]]
ErrTwice(in) == LET d == lay.ins[1]  dd == ErrDelta(in) IN Total([e \in 1..Els(d) |-> dd[e] * (in[1][e] - in[2][e])])
(* the adaptive sigmoid sigm(a x + b): x = u ln 2 for integers u, parameters a (integer) and b (times ln 2); 2^n with n in -20..20 *)
HM(par, u) == LET n == par[1] * u + par[2] IN IF n >= 0 THEN <<2 ^ Min2(n, 20), 1>> ELSE <<1, 2 ^ Min2(-n, 20)>>
HMix(f) == LET m == Max2(f[1], f[2]) IN IF m > 256 THEN 10000 \div (m + 2) ELSE (m * 10000) \div ((m + 1) * (m + 1))
HSig(f) == IF f[1] > 1000 THEN 10000 - 10000 \div (f[1] + 1) ELSE (f[1] * 10000) \div (f[1] + f[2])
-----------------------------------------------------------------------------
Act == {"relu", "sigm", "tanh", "lrn", "hmax"}
Geo == {"resize", "up", "down", "cat", "sum", "prior", "ga"}
Forward(in, par, out) ==
  CASE lay.k = "conv" -> LET v == ConvOut(in[1], par[1], par[2]) IN out[1] = [e \in 1..Len(v) |-> (4 - lay.p[9]) * v[e]]
    [] lay.k \in {"max", "amax"} -> out[1] = PoolOut(in[1])
    [] lay.k \in Geo -> GeoOk(in, out)
    [] lay.k = "relu" -> out[1] = [e \in 1..Len(in[1]) |-> Max2(in[1][e], 0)]
    [] lay.k = "sigm" -> \A e \in DOMAIN in[1] : Near(out[1][e], Sigm(in[1][e]), 3)
    [] lay.k = "tanh" -> \A e \in DOMAIN in[1] : Near(out[1][e], Tanh(in[1][e]), 3)
    [] lay.k = "hmax" -> \A e \in DOMAIN in[1] : Near(out[1][e], HSig(HM(par[1], in[1][e])), 2)
    [] lay.k = "lrn" -> \A e \in DOMAIN in[1] : Near(out[1][e], (in[1][e] * Mil) \div Pow(Base(in[1], e), lay.p[4]), 2)
    [] OTHER -> out = <<ErrDelta(in), <<ErrTwice(in)>>>>
Backward(dl, wanted, din, dpar) == LET in == run.in  par == run.par IN
  CASE lay.k = "conv" -> /\ wanted => din[1] = ConvIn(par[1], dl[1])
                         /\ dpar = <<ConvW(in[1], dl[1]), ConvB(dl[1])>>
    [] lay.k \in {"max", "amax"} -> wanted => PoolBack(in[1], dl[1], din[1])
    [] lay.k = "down" -> ~wanted
    [] lay.k \in Geo -> wanted => \A i \in DOMAIN din : din[i] = GeoBack(dl, i)
    [] lay.k = "relu" -> wanted => din[1] = [e \in DOMAIN in[1] |-> IF in[1][e] > 0 THEN dl[1][e] ELSE 0]
    [] lay.k = "sigm" -> wanted => \A e \in DOMAIN in[1] : Near(din[1][e], dl[1][e] * Sigm2(in[1][e]), 2 + Abs(dl[1][e]))
    [] lay.k = "tanh" -> wanted => \A e \in DOMAIN in[1] : Near(din[1][e], dl[1][e] * Tanh2(in[1][e]), 2 + Abs(dl[1][e]))
    [] lay.k = "lrn" -> wanted => LET v == LrnBack(in[1], dl[1]) IN \A e \in DOMAIN in[1] : Near(din[1][e], v[e], 2 * Cardinality(Hood(e)) + 30)
    [] lay.k = "hmax" -> LET f == [e \in DOMAIN in[1] |-> HMix(HM(par[1], in[1][e]))]  n == Len(in[1]) IN
         /\ wanted => \A e \in DOMAIN in[1] : Near(din[1][e], dl[1][e] * par[1][1] * f[e], 2 + 2 * Abs(dl[1][e] * par[1][1]))
         \* gradient of a is divided by ln 2 like the inputs
         /\ Near(dpar[1][1], Total([e \in DOMAIN in[1] |-> dl[1][e] * f[e] * in[1][e]]), 2 + 2 * Total([e \in DOMAIN in[1] |-> Abs(dl[1][e] * in[1][e])]))
         /\ Near(dpar[1][2], Total([e \in DOMAIN in[1] |-> dl[1][e] * f[e]]), 2 + 2 * Total([e \in DOMAIN in[1] |-> Abs(dl[1][e])]))
    [] OTHER -> wanted => din[1] = ErrDelta(in)
FF(in, par, out) == lay # NoLayer /\ Forward(in, par, out) /\ run' = [on |-> TRUE, in |-> in, par |-> par] /\ UNCHANGED lay
BP(dl, wanted, din, dpar) == run.on /\ Backward(dl, wanted, din, dpar) /\ UNCHANGED lvars
-----------------------------------------------------------------------------
(* large tensors: the elements are given by a formula and only a sample [tensor, element, value] of the results is looked at *)
Hash(i, e) == (((e - 1) % 65521) * 7919 + 1000 * i) % 65521
Val(i, e, n) == IF n = 0 THEN Hash(i, e) ELSE (Hash(i, e) % (2 * n + 1)) - n
Frac(e) == <<1 + (Hash(1, e) % 12), 1 + ((Hash(1, e) \div 12) % 12)>>
Span(k, i) == CASE k \in {"max", "amax"} -> 0 [] k = "lrn" -> 2 [] OTHER -> 3
LIn(i) == [e \in 1..Els(lay.ins[i]) |-> IF lay.k \in {"sigm", "tanh"} THEN Frac(e) ELSE IF lay.k = "err" /\ i = 3 THEN Hash(i, e) % 4 ELSE Val(i, e, Span(lay.k, i))]
LPar(i) == [e \in 1..Els(lay.pars[i]) |-> Val(10 + i, e, 2)]
LDl(i) == [e \in 1..Els(lay.outs[i]) |-> Val(20 + i, e, 2)]
(* the windows that contain input element f *)
Around(f) == LET d == lay.ins[1]  o == lay.outs[1]
                 P(x, i, n) == {q \in Max2(0, (x - lay.p[i]) \div Stride(i))..Min2(n - 1, x \div Stride(i)) : q * Stride(i) <= x /\ x < q * Stride(i) + lay.p[i]} IN
  {At(o, SP(d, f), x, y, MP(d, f)) : x \in P(XC(d, f), 1, o.w), y \in P(YC(d, f), 2, o.h)}
PoolAt(in, dl, f) == LET q == SetToSeq({e \in Around(f) : Best(in, e) = {f}}) IN Total([j \in 1..Len(q) |-> dl[q[j]]])
(* the elements whose neighbourhood contains element j are within the same distance of it *)
Reach(j) == LET d == lay.ins[1]  n == lay.p[1] IN
  {e \in (IF lay.p[2] = 1 THEN {At(d, SP(d, j), XC(d, j), YC(d, j), m) : m \in Max2(0, MP(d, j) - n)..Min2(d.m - 1, MP(d, j) + n)}
          ELSE {At(d, SP(d, j), x, y, MP(d, j)) : x \in Max2(0, XC(d, j) - n)..Min2(d.w - 1, XC(d, j) + n), y \in Max2(0, YC(d, j) - n)..Min2(d.h - 1, YC(d, j) + n)}) : j \in Hood(e)}
LrnAt(in, dl, j) == LET b == lay.p[4]  q == SetToSeq(Reach(j)) IN
  (dl[j] * 10000) \div Pow(Base(in, j), b)
   - Total([k \in 1..Len(q) |-> LET i == q[k] IN (dl[i] * in[i] * in[j] * 2 * b * (lay.p[3] \div Cardinality(Hood(i))) * 10000) \div Pow(Base(in, i), b + 1)])
ErrAt(in, e) == LET d == lay.ins[1] IN (in[1][e] - in[2][e]) * in[3][At(lay.ins[3], SP(d, e), XC(d, e), YC(d, e), 0)] * lay.p[1]
LargeOut(b, e, v) == LET in == [i \in DOMAIN lay.ins |-> LIn(i)]  o == lay.outs[1] IN
  CASE lay.k = "conv" -> v = 4 * ConvOut(in[1], LPar(1), LPar(2))[e]
    [] lay.k \in {"max", "amax"} -> v = PoolOut(in[1])[e]
    [] lay.k = "prior" -> IF MP(o, e) < 2 THEN Near(v, GeoOut(in)[e], 1) ELSE v = 1000000 * GeoOut(in)[e]
    [] lay.k = "down" -> Near(v, 1000 * GeoOut(in)[e], 1)
    [] lay.k \in Geo -> v = GeoOut(in)[e]
    [] lay.k = "relu" -> v = Max2(in[1][e], 0)
    [] lay.k = "sigm" -> Near(v, Sigm(in[1][e]), 3)
    [] lay.k = "tanh" -> Near(v, Tanh(in[1][e]), 3)
    [] OTHER -> Near(v, (in[1][e] * Mil) \div Pow(Base(in[1], e), lay.p[4]), 2)
LargeBack(i, e, v) == LET in == [j \in DOMAIN lay.ins |-> LIn(j)]  dl == [j \in DOMAIN lay.outs |-> LDl(j)] IN
  CASE lay.k = "conv" -> v = ConvIn(LPar(1), dl[1])[e]
    [] lay.k \in {"max", "amax"} -> v = PoolAt(in[1], dl[1], e)
    [] lay.k \in Geo -> v = GeoBack(dl, i)[e]
    [] lay.k = "relu" -> v = IF in[1][e] > 0 THEN dl[1][e] ELSE 0
    [] lay.k = "sigm" -> Near(v, dl[1][e] * Sigm2(in[1][e]), 2 + Abs(dl[1][e]))
    [] lay.k = "tanh" -> Near(v, dl[1][e] * Tanh2(in[1][e]), 2 + Abs(dl[1][e]))
    [] lay.k = "err" -> v = ErrAt(in, e)
    [] OTHER -> Near(v, LrnAt(in[1], dl[1], e), 2 * Cardinality(Hood(e)) + 30)
LargePar(i, e, v) == LET in == LIn(1)  dl == LDl(1) IN v = IF i = 1 THEN ConvW(in, dl)[e] ELSE ConvB(dl)[e]
Large(out, din, dpar) ==
  /\ lay # NoLayer
  /\ \A t \in ToSet(out) : LargeOut(t[1], t[2], t[3])
  /\ \A t \in ToSet(din) : LargeBack(t[1], t[2], t[3])
  /\ \A t \in ToSet(dpar) : LargePar(t[1], t[2], t[3])
  /\ run' = Off /\ UNCHANGED lay
=============================================================================

----------------------------- MODULE MCPatches -----------------------------
EXTENDS Patches, TLC, Json
CONSTANTS MaxW, MaxH, MaxP, MaxLen
VARIABLES t, s, pw, ph, hist
vars == <<t, s, pw, ph, hist>>
R(a, b) == RandomElement(a..b)
(* ---- exhaustive: all shapes; the elements of the tensor are all different *)
MInit == /\ hist = <<>> /\ pw \in 1..MaxP /\ ph \in 1..MaxP
         /\ \E w \in 1..MaxW, h \in 1..MaxH, m \in 1..2, n \in 1..2 : t = [d |-> <<n, w, h, m>>, v |-> [e \in 1..(n * w * h * m) |-> e * e]] /\ s = n - 1
MSpec == MInit /\ [][UNCHANGED vars]_vars
Val(x, y, m) == t.v[At(t.d, x, y, m, s)]
Range == \A i \in -12..12, n \in 1..5 : Mirror(i, n) \in 0..(n - 1)
Inside(P) == Range /\ P.d = <<t.d[2] * t.d[3], pw, ph, t.d[4]>>
(* pixels inside of the image are taken as they are *)
Window(P) == \A px \in 0..(t.d[2] - 1), py \in 0..(t.d[3] - 1), x \in 0..(pw - 1), y \in 0..(ph - 1), m \in 0..(t.d[4] - 1) :
  LET ix == px + x - pw \div 2  iy == py + y - ph \div 2 IN
  (ix \in 0..(t.d[2] - 1) /\ iy \in 0..(t.d[3] - 1)) => P.v[At(P.d, x, y, m, py * t.d[2] + px)] = Val(ix, iy, m)
(* neighbouring pixels have patches moved by one *)
Moved(P) == \A e \in 0..(P.d[1] - 2) : (e % t.d[2] < t.d[2] - 1) =>
  \A x \in 0..(pw - 2), y \in 0..(ph - 1) : P.v[At(P.d, x + 1, y, 0, e)] = P.v[At(P.d, x, y, 0, e + 1)]
SumsToZero(P) == LET C == Centred(P)  E == pw * ph * t.d[4] IN
  /\ \A e \in 0..(P.d[1] - 1) : Sum(C.v, e * E + 1, e * E + E) = 0
  /\ \A k \in DOMAIN C.v : k % E # 0 => C.v[k + 1] - C.v[k] = E * (P.v[k + 1] - P.v[k])
Extracted == \A P \in {Patches(t, s, pw, ph)} : Inside(P) /\ Window(P) /\ Moved(P) /\ SumsToZero(P)
Placed == LET q == Positions(t, pw, ph) IN \A k \in DOMAIN q : q[k] >= 0 /\ q[k] < (IF k % 2 = 1 THEN t.d[3] ELSE t.d[2]) + 1
Labelled == \A k \in 0..1 : LET L == Labels(t, s, k) IN Len(L) = t.d[2] * t.d[3] /\ (k = 0 => L = [i \in DOMAIN L |-> t.v[s * t.d[4] * Len(L) + i]]) /\ Weights(L, L[1])[1] = 0
(* ---- scenarios *)
RECURSIVE RSeq(_, _, _)
RSeq(n, a, b) == IF n = 0 THEN <<>> ELSE <<R(a, b)>> \o RSeq(n - 1, a, b)
SInit == hist = <<>> /\ t = [d |-> <<>>, v |-> <<>>] /\ s = 0 /\ pw = 0 /\ ph = 0
Size(z) == IF R(1, 3) = 1 THEN R(1, 2) ELSE R(1, 9)
Edge(z) == IF R(1, 5) = 1 THEN R(9, 18) ELSE R(1, 9)
Dims(z) == <<R(1, 3), Size(z), Size(z), R(1, 3)>>
SNext == UNCHANGED <<t, s, pw, ph>> /\ Len(hist) < MaxLen /\ \E k \in {R(1, 3)}, d \in {Dims(Len(hist))} : \E v \in {TLCEval(RSeq(d[1] * d[2] * d[3] * d[4], IF k = 3 THEN -1 ELSE 0, IF k = 3 THEN 3 ELSE 20))} :
  hist' = Append(hist, <<IF k = 3 THEN "Labels" ELSE "Patches", Edge(Len(hist)), Edge(Len(hist) + 1), R(0, d[1] - 1), IF k = 3 THEN R(-1, 4) ELSE k - 1>> \o d \o v)
SSpec == SInit /\ [][SNext]_vars
SimExport == (Len(hist) = MaxLen) => PrintT("@@" \o ToJson(hist))
=============================================================================

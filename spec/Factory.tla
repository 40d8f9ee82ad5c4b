------------------------------- MODULE Factory -------------------------------
(* What a network description means: the graph assembled from its lines, for fully convolutional and for patch-wise use.
   Lines (tuples starting with the kind of line):
     1 convolutional kx ky kernels sx sy px py group llr dropout     (llr, dropout in thousandths; kernels 0: number of classes)
     2 fullyconnected neurons         3 lrn across size alpha beta    4 maxpooling kx ky       5 downsampling kx ky
     6 amaxpooling kx ky sx sy        7 sigm  8 tanh  9 relu  10 hmax mu weight
     11 push s  12 pop s  13 concat s  14 sum s      (s = 1 stack a, 2 stack b)
     15 spatialprior                  16 upscale fx fy is_output      17 output weight (-1: not given)
     18 manual rfx rfy fx fy          19 no layer (comments, settings, blank lines)      20 method=patch
   cf = [c classes, loss, tr training factory, w, h, m] size of the images (fully convolutional use)                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Max2(a, b) == IF a > b THEN a ELSE b
(* ---- geometry: receptive field and total factor *)
RF0 == [x |-> 0, y |-> 0, fx |-> 1, fy |-> 1, man |-> FALSE]
RFStep(r, ln) ==
  IF ln[1] = 18 THEN [x |-> ln[2], y |-> ln[3], fx |-> ln[4], fy |-> ln[5], man |-> TRUE]
  ELSE IF r.man THEN r
  ELSE CASE ln[1] = 1 -> [r EXCEPT !.x = @ + r.fx * (ln[2] - 1 - 2 * ln[7]), !.y = @ + r.fy * (ln[3] - 1 - 2 * ln[8]), !.fx = @ * ln[5], !.fy = @ * ln[6]]
         [] ln[1] \in {4, 5} -> [r EXCEPT !.fx = @ * ln[2], !.fy = @ * ln[3]]
         [] ln[1] = 6 -> [r EXCEPT !.x = @ + r.fx * (ln[2] - 1), !.y = @ + r.fy * (ln[3] - 1), !.fx = @ * ln[4], !.fy = @ * ln[5]]
         [] OTHER -> r
RF(lines) == FoldLeft(RFStep, RF0, lines)
Wants(lines) == \E i \in DOMAIN lines : lines[i][1] = 20
Patchwise(cf, lines) == cf.tr /\ Wants(lines)
PatchSize(lines) == LET r == RF(lines) IN <<r.x + r.fx, r.y + r.fy>>
Field(cf, lines) == IF Patchwise(cf, lines) THEN PatchSize(lines) ELSE LET r == RF(lines) IN <<r.x, r.y>>

(* ---- assembly. Kinds of nodes: 0 data, those of the lines, 21 resize, 22 loss. par: parameters upstream or in it *)
Node(k, line, ins, outs, io, par) == [k |-> k, line |-> line, in |-> ins, out |-> outs, io |-> io, par |-> par]
Dim(b, q) == b.nodes[q[1]].out[q[2] + 1]
Put(b, k, line, ins, dim, io, par) ==
  [b EXCEPT !.nodes = Append(@, Node(k, line, ins, <<dim>>, io, par)), !.last = <<Len(b.nodes) + 1, 0>>]
Bad(b) == [b EXCEPT !.ok = FALSE]
Upstream(b, q) == b.nodes[q[1]].par
DataDims(cf, lines) == IF Patchwise(cf, lines) THEN PatchSize(lines) ELSE <<cf.w, cf.h>>
LabelDims(cf, lines) == IF Patchwise(cf, lines) THEN <<1, 1>> ELSE <<cf.w, cf.h>>
Start_(cf, lines) ==
  LET d == DataDims(cf, lines) e == LabelDims(cf, lines) r == RF(lines)
      b0 == [nodes |-> <<Node(0, 0, <<>>, <<d \o <<cf.m>>, e \o <<cf.c>>, e \o <<2>>, e \o <<1>>>>, FALSE, FALSE)>>,
             last |-> <<1, 0>>, sa |-> <<>>, sb |-> <<>>, up |-> r.fx = 1 /\ r.fy = 1, ok |-> d[1] > 0 /\ d[2] > 0]
      rx == Max2(0, r.x) ry == Max2(0, r.y)
  IN  IF ~Patchwise(cf, lines) /\ (rx > 0 \/ ry > 0) THEN Put(b0, 21, 0, <<<<1, 0>>>>, <<d[1] + rx, d[2] + ry, cf.m>>, FALSE, FALSE) ELSE b0
ConvLine(ln, c) == IF ln[1] = 2 THEN <<1, 1, 1, ln[2], 1, 1, 0, 0, 1, 1000, 0>> ELSE ln
Loss(b, cf) == LET d == Dim(b, b.last) e == b.nodes[1].out[2] IN
  IF ~cf.loss THEN b ELSE IF d # e THEN Bad(b)
  ELSE [b EXCEPT !.nodes = Append(@, Node(22, 0, <<b.last, <<1, 1>>, <<1, 3>>>>, <<>>, FALSE, TRUE))]
LossOf(b, cf, line) == LET r == Loss(b, cf) IN IF Len(r.nodes) = Len(b.nodes) THEN r ELSE [r EXCEPT !.nodes[Len(r.nodes)].line = line]
Step(cf, lines, b, i) ==
  LET ln == lines[i] q == b.last d == Dim(b, q) pw == Patchwise(cf, lines) r == RF(lines) p == Upstream(b, q)
      stack(s) == IF s = 1 THEN b.sa ELSE b.sb
  IN
  IF ~b.ok THEN b ELSE
  CASE ln[1] \in {1, 2} ->
         LET v == ConvLine(ln, cf.c) k == IF v[4] = 0 THEN cf.c ELSE v[4]
             w == d[1] + 2 * v[7] - v[2] h == d[2] + 2 * v[8] - v[3]
         IN  IF w < 0 \/ h < 0 \/ d[3] % v[9] # 0 \/ k % v[9] # 0 THEN Bad(b)
             ELSE Put(b, 1, i, <<q>>, <<w \div v[5] + 1, h \div v[6] + 1, k>>, FALSE, TRUE)
    [] ln[1] = 3 -> Put(b, 3, i, <<q>>, d, FALSE, p)
    [] ln[1] \in {4, 5} -> IF d[1] % ln[2] # 0 \/ d[2] % ln[3] # 0 \/ (ln[1] = 5 /\ b.nodes[q[1]].k \notin {0, 5, 21}) THEN Bad(b) ELSE Put(b, ln[1], i, <<q>>, <<d[1] \div ln[2], d[2] \div ln[3], d[3]>>, FALSE, p)
    [] ln[1] = 6 -> IF d[1] < ln[2] \/ d[2] < ln[3] THEN Bad(b) ELSE Put(b, 6, i, <<q>>, <<(d[1] - ln[2]) \div ln[4] + 1, (d[2] - ln[3]) \div ln[5] + 1, d[3]>>, FALSE, p)
    [] ln[1] \in 7..9 -> Put(b, ln[1], i, <<q>>, d, FALSE, p)
    [] ln[1] = 10 -> Put(b, 10, i, <<q>>, d, FALSE, TRUE)
    [] ln[1] = 11 -> IF ln[2] = 1 THEN [b EXCEPT !.sa = Append(@, q)] ELSE [b EXCEPT !.sb = Append(@, q)]
    [] ln[1] = 12 -> LET s == stack(ln[2]) IN IF s = <<>> THEN Bad(b)
                     ELSE IF ln[2] = 1 THEN [b EXCEPT !.last = s[Len(s)], !.sa = SubSeq(s, 1, Len(s) - 1)] ELSE [b EXCEPT !.last = s[Len(s)], !.sb = SubSeq(s, 1, Len(s) - 1)]
    [] ln[1] \in {13, 14} ->
         LET s == Reverse(stack(ln[2])) ds == [j \in DOMAIN s |-> Dim(b, s[j])] IN
         IF Len(s) # 2 \/ s[1] = s[2] \/ ds[1][1] # ds[2][1] \/ ds[1][2] # ds[2][2] \/ (ln[1] = 14 /\ ds[1][3] # ds[2][3]) THEN Bad(b)
         ELSE Put(b, ln[1], 0, s, IF ln[1] = 13 THEN <<ds[1][1], ds[1][2], ds[1][3] + ds[2][3]>> ELSE ds[1], FALSE, \E j \in DOMAIN s : Upstream(b, s[j]))
    [] ln[1] = 15 ->
         LET u == IF ~b.up /\ ~pw THEN [Put(b, 16, 0, <<q>>, <<d[1] * r.fx, d[2] * r.fy, d[3]>>, FALSE, p) EXCEPT !.up = TRUE] ELSE b
             e == Dim(u, u.last) t == b.nodes[1].out[3]
         IN  IF e[1] # t[1] \/ e[2] # t[2] THEN Bad(b) ELSE Put(u, 13, 0, <<u.last, <<1, 2>>>>, <<e[1], e[2], e[3] + 2>>, FALSE, p)
    [] ln[1] = 16 -> LET u == [Put(b, 16, 0, <<q>>, <<d[1] * ln[2], d[2] * ln[3], d[3]>>, ln[4] = 1, p) EXCEPT !.up = TRUE] IN IF ln[4] = 1 THEN LossOf(u, cf, 0) ELSE u
    [] ln[1] = 17 ->
         LET n == Put(b, IF cf.c = 1 THEN 8 ELSE 7, i, <<q>>, d, pw \/ b.up, p)
             u == IF ~b.up /\ ~pw THEN Put(n, 16, 0, <<n.last>>, <<d[1] * r.fx, d[2] * r.fy, d[3]>>, TRUE, p) ELSE n
         IN  LossOf(u, cf, i)
    [] OTHER -> b
Build(cf, lines) == FoldLeft(LAMBDA b, i : Step(cf, lines, b, i), Start_(cf, lines), [i \in DOMAIN lines |-> i])
Outputs(b) == SelectSeq([j \in DOMAIN b.nodes |-> j], LAMBDA j : b.nodes[j].io)

(* ---- what follows from the above *)
Layerlike == (1..10) \cup {16, 17}
Straight(lines) == \A i \in DOMAIN lines : lines[i][1] \notin {11, 12, 13, 14, 16, 18}
NonNegative(lines) == LET r == RF(lines) IN r.x >= 0 /\ r.y >= 0
PriorLate(lines) == \A i \in DOMAIN lines : lines[i][1] = 15 => \A j \in (i + 1)..Len(lines) : lines[j][1] \notin {4, 5, 6} /\ (lines[j][1] = 1 => lines[j][2] = 1 /\ lines[j][3] = 1 /\ lines[j][5] = 1 /\ lines[j][6] = 1)
SameSize(cf, lines) ==
  LET r == RF(lines) b == Build(cf, lines) IN
  (~Patchwise(cf, lines) /\ Straight(lines) /\ NonNegative(lines) /\ PriorLate(lines) /\ cf.w % r.fx = 0 /\ cf.h % r.fy = 0 /\ b.ok)
    => \A j \in DOMAIN b.nodes : b.nodes[j].io => b.nodes[j].out[1][1] = cf.w /\ b.nodes[j].out[1][2] = cf.h
SinglePosition(cf, lines) ==
  LET b == Build(cf, lines) IN
  (Patchwise(cf, lines) /\ Straight(lines) /\ (\A i \in DOMAIN lines : lines[i][1] = 1 => lines[i][7] = 0 /\ lines[i][8] = 0) /\ PriorLate(lines) /\ b.ok)
    => \A j \in DOMAIN b.nodes : b.nodes[j].io => b.nodes[j].out[1][1] = 1 /\ b.nodes[j].out[1][2] = 1
(* every line that describes a layer is represented exactly once, in the order of the lines; inputs come first *)
InOrder(cf, lines) ==
  LET b == Build(cf, lines) ns == SelectSeq([j \in DOMAIN b.nodes |-> IF b.nodes[j].k = 22 THEN 0 ELSE b.nodes[j].line], LAMBDA x : x # 0)
      ls == SelectSeq([i \in DOMAIN lines |-> i], LAMBDA i : lines[i][1] \in (1..10) \cup {17})
  IN  b.ok => ns = ls /\ \A j \in DOMAIN b.nodes : \A a \in DOMAIN b.nodes[j].in : b.nodes[j].in[a][1] < j
(* the part of the (padded) image seen by position o of the last layer, in one dimension *)
RECURSIVE Seen(_, _, _, _)
Seen(lines, i, lo, hi) ==
  IF i = 0 THEN <<lo, hi>>
  ELSE LET ln == lines[i] IN
       CASE ln[1] = 1 -> Seen(lines, i - 1, lo * ln[5] - ln[7], hi * ln[5] - ln[7] + ln[2] - 1)
         [] ln[1] \in {4, 5} -> Seen(lines, i - 1, lo * ln[2], hi * ln[2] + ln[2] - 1)
         [] ln[1] = 6 -> Seen(lines, i - 1, lo * ln[4], hi * ln[4] + ln[2] - 1)
         [] OTHER -> Seen(lines, i - 1, lo, hi)
(* both uses of a description see the same window: block o of the image and the patch starting at o * factor *)
Window(lines) ==
  LET r == RF(lines) IN
  (Straight(lines) /\ \A i \in DOMAIN lines : lines[i][1] = 1 => lines[i][7] = 0 /\ lines[i][8] = 0)
    => \A o \in 0..2 : LET s == Seen(lines, Len(lines), o, o) t == Seen(lines, Len(lines), 0, 0) IN s[1] - o * r.fx = t[1] /\ s[2] - o * r.fx = t[2] /\ t[1] = 0 /\ t[2] < PatchSize(lines)[1]
=============================================================================

------------------------------- MODULE Decide -------------------------------
(* Labelling images with a trained network: the image is padded to multiples of eight pixels, the fully convolutional network
   assembled from its description is evaluated on it, and every pixel gets the colour of its best class.
   A map stack: w, h, m, v (maps one after the other, rows within them).  All numbers are integers: values are multiplied by S
   times eight for every convolution passed, weights by 8 and biases by 8 * 255. *)
EXTENDS Integers, Sequences, TLC
VARIABLES pal, net, par                      \* class colours; layers of the network and maps of its input; parameters of its convolutions
dvars == <<pal, net, par>>
Idx(t, x, y, m) == m * t.w * t.h + y * t.w + x + 1
V(t, x, y, m) == t.v[Idx(t, x, y, m)]
In(t, x, y) == x >= 0 /\ x < t.w /\ y >= 0 /\ y < t.h
Stack(w, h, m, F(_, _, _)) == [w |-> w, h |-> h, m |-> m, v |-> TLCEval([e \in 1..(w * h * m) |-> F((e - 1) % w, ((e - 1) \div w) % h, (e - 1) \div (w * h))])]
RECURSIVE Sum(_, _, _)
Sum(F(_), a, b) == IF a > b THEN 0 ELSE F(a) + Sum(F, a + 1, b)
Max2(a, b) == IF a < b THEN b ELSE a
RECURSIVE MaxOf(_, _, _)
MaxOf(F(_), a, b) == IF a = b THEN F(a) ELSE Max2(F(a), MaxOf(F, a + 1, b))
Pow8(j) == IF j = 0 THEN 1 ELSE IF j = 1 THEN 8 ELSE IF j = 2 THEN 64 ELSE 512

(* ---- layers: <<"conv", kx, ky, n, sx, sy, px, py, d>> (d: 1 if it was trained with half of its outputs dropped), <<"relu">>, <<"pool", kx, ky>>, <<"apool", kx, ky, sx, sy>>, <<"prior">> *)
Step(la) == CASE la[1] = "conv" -> <<la[5], la[6]>> [] la[1] = "pool" -> <<la[2], la[3]>> [] la[1] = "apool" -> <<la[4], la[5]>> [] OTHER -> <<1, 1>>
Reach(la) == CASE la[1] = "conv" -> <<la[2] - 1 - 2 * la[7], la[3] - 1 - 2 * la[8]>> [] la[1] = "apool" -> <<la[2] - 1, la[3] - 1>> [] OTHER -> <<0, 0>>
RECURSIVE Factor(_, _), Field(_, _)
Factor(ls, d) == IF ls = <<>> THEN 1 ELSE Step(Head(ls))[d] * Factor(Tail(ls), d)
Field(ls, d) == IF ls = <<>> THEN 0 ELSE Reach(Head(ls))[d] + Step(Head(ls))[d] * Field(Tail(ls), d)
Convs(ls) == Len(SelectSeq(ls, LAMBDA la : la[1] = "conv"))
HasPrior(ls) == \E k \in DOMAIN ls : ls[k][1] = "prior"
MapsAfter(ls, m) == IF \E k \in DOMAIN ls : ls[k][1] = "conv" THEN LET k == CHOOSE k \in DOMAIN ls : ls[k][1] = "conv" /\ \A i \in DOMAIN ls : ls[i][1] = "conv" => i <= k IN
                      ls[k][4] + 2 * Len(SelectSeq(SubSeq(ls, k + 1, Len(ls)), LAMBDA la : la[1] = "prior"))
                    ELSE m + 2 * Len(SelectSeq(ls, LAMBDA la : la[1] = "prior"))

Border(t, bx, by) == Stack(t.w + bx, t.h + by, t.m, LAMBDA x, y, m : LET a == x - bx \div 2  b == y - by \div 2 IN IF In(t, a, b) THEN V(t, a, b, m) ELSE 0)
(* p: the weights, for every kernel, map, row and column in turn, and the biases; u: what a bias counts.
   Outputs count half if half of them were dropped in training: such a layer has even parameters only *)
Halved(d, p) == IF d = 1 THEN TLCEval([e \in DOMAIN p |-> p[e] \div 2]) ELSE p
Conv(t, la, q, u) ==
  LET kx == la[2]  ky == la[3]  n == la[4]  p == Halved(la[9], q) IN
  Stack((t.w + 2 * la[7] - kx) \div la[5] + 1, (t.h + 2 * la[8] - ky) \div la[6] + 1, n,
        LAMBDA x, y, o : p[n * t.m * ky * kx + o + 1] * u +
          Sum(LAMBDA e : LET a == x * la[5] - la[7] + (e % kx)  b == y * la[6] - la[8] + ((e \div kx) % ky)  m == e \div (kx * ky) IN
                           IF In(t, a, b) THEN p[o * t.m * ky * kx + e + 1] * V(t, a, b, m) ELSE 0, 0, t.m * ky * kx - 1))
Relu(t) == Stack(t.w, t.h, t.m, LAMBDA x, y, m : Max2(0, V(t, x, y, m)))
Pool(t, kx, ky, sx, sy) == Stack((t.w - kx) \div sx + 1, (t.h - ky) \div sy + 1, t.m, LAMBDA x, y, m : MaxOf(LAMBDA e : V(t, x * sx + (e % kx), y * sy + (e \div kx), m), 0, kx * ky - 1))
Up(t, fx, fy) == Stack(t.w * fx, t.h * fy, t.m, LAMBDA x, y, m : V(t, x \div fx, y \div fy, m))
(* the maps of pos are appended *)
Cat(t, pos, u) == Stack(t.w, t.h, t.m + pos.m, LAMBDA x, y, m : IF m < t.m THEN V(t, x, y, m) ELSE u * V(pos, x, y, m - t.m))

(* evaluates layers ls on t; ps: parameters of the convolutions among them, j: convolutions passed, S: scale of the input,
   pos: positions; up: the stack still needs to be upscaled by this much *)
RECURSIVE Run(_, _, _, _, _, _, _)
Run(t, ls, ps, j, S, pos, up) ==
  IF ls = <<>> THEN Up(t, up[1], up[2])
  ELSE LET la == Head(ls) IN
    CASE la[1] = "conv" -> Run(Conv(t, la, Head(ps), (S \div 255) * Pow8(j)), Tail(ls), Tail(ps), j + 1, S, pos, up)
      [] la[1] = "relu" -> Run(Relu(t), Tail(ls), ps, j, S, pos, up)
      [] la[1] = "pool" -> Run(Pool(t, la[2], la[3], la[2], la[3]), Tail(ls), ps, j, S, pos, up)
      [] la[1] = "apool" -> Run(Pool(t, la[2], la[3], la[4], la[5]), Tail(ls), ps, j, S, pos, up)
      [] la[1] = "prior" -> Run(Cat(Up(t, up[1], up[2]), pos, Pow8(j)), Tail(ls), ps, j, S, pos, <<1, 1>>)
Pad8(n) == ((n + 7) \div 8) * 8
ScaleOf(ls, w, h) == 255 * (IF HasPrior(ls) THEN Max2(w - 1, 1) * Max2(h - 1, 1) ELSE 1)
(* the image with its pixels (bytes, channels of a pixel together), padded to w times h *)
Input(img, w, h, S) == Stack(w, h, img.ch, LAMBDA x, y, m : IF x < img.w /\ y < img.h THEN img.pix[(y * img.w + x) * img.ch + m + 1] * (S \div 255) ELSE 0)
(* positions run from 0 to 1 over the image, in both directions *)
Position(img, w, h, S) == Stack(w, h, 2, LAMBDA x, y, m : IF x < img.w /\ y < img.h THEN (IF m = 0 THEN x * (S \div Max2(img.w - 1, 1)) ELSE y * (S \div Max2(img.h - 1, 1))) ELSE 0)
Scores(ls, ps, img) ==
  LET w == Pad8(img.w)  h == Pad8(img.h)  S == ScaleOf(ls, img.w, img.h) IN
  Run(Border(Input(img, w, h, S), Field(ls, 1), Field(ls, 2)), ls, ps, 0, S, Position(img, w, h, S), <<Factor(ls, 1), Factor(ls, 2)>>)

(* ---- decisions: classes whose score is the best, as far as it can be distinguished in single precision behind a sigmoid *)
ClipTo(v, c) == IF v > c THEN c ELSE IF v < -c THEN -c ELSE v
Decided(r, x, y, unit) == LET s == TLCEval([c \in 1..r.m |-> ClipTo(V(r, x, y, c - 1), 8 * unit)])  best == MaxOf(LAMBDA c : s[c], 1, r.m) IN
                          {c \in 1..r.m : s[c] >= best - unit \div 500 - 1}
Chan(img, x, y, k) == img.pix[(y * img.w + x) * 3 + k]
(* a single class is painted with (1 + tanh) / 2 times its colour *)
ShadeOk(v, unit, c, o) == /\ o >= 0 /\ o <= c
                          /\ (v > 10 * unit => o = c) /\ (v < -10 * unit => o = 0)
                          /\ (v >= 0 => 2 * o >= c - 2) /\ (v <= 0 => 2 * o <= c + 2)
Painted(img, out) ==
  /\ out.w = img.w /\ out.h = img.h
  /\ \E r \in {Scores(net.ls, par, img)} : \E unit \in {ScaleOf(net.ls, img.w, img.h) * Pow8(Convs(net.ls))} :
     /\ r.w >= img.w /\ r.h >= img.h /\ r.m = Len(pal)
     /\ \A x \in 0..(img.w - 1), y \in 0..(img.h - 1) :
          IF Len(pal) = 1 THEN \A k \in 1..3 : ShadeOk(V(r, x, y, 0), unit, pal[1][k], Chan(out, x, y, k))
          ELSE \E c \in Decided(r, x, y, unit) : \A k \in 1..3 : Chan(out, x, y, k) = pal[c][k]

(* ---- transitions *)
DInit == pal = <<>> /\ net = [ls |-> <<>>, m |-> 0] /\ par = <<>>
Describe(p, ls, m) == pal' = p /\ net' = [ls |-> ls, m |-> m] /\ par' = <<>>
(* the number of parameters of every convolution of layers ls on m maps *)
RECURSIVE Needs(_, _)
Needs(ls, m) == IF ls = <<>> THEN <<>> ELSE LET la == Head(ls) IN
  IF la[1] = "conv" THEN <<la[4] * m * la[2] * la[3] + la[4]>> \o Needs(Tail(ls), la[4]) ELSE Needs(Tail(ls), IF la[1] = "prior" THEN m + 2 ELSE m)
Fits(p) == LET n == Needs(net.ls, net.m) IN Len(p) = Len(n) /\ \A k \in DOMAIN n : Len(p[k]) = n[k]
Train(p) == Fits(p) /\ par' = p /\ UNCHANGED <<pal, net>>
Label(img, out) == par # <<>> /\ img.ch = net.m /\ Painted(img, out) = TRUE /\ UNCHANGED dvars
=============================================================================

------------------------------ MODULE Dataset ------------------------------
(* A dataset: a training and a testing sequence of images with their label images, class weights, a position weight, and
   the samples it hands out, either whole padded images (patch = <<0,0>>) or every patch of every image. *)
EXTENDS Integers, Sequences
CONSTANT Off      \* unused index
VARIABLES sets,    \* <<training, testing>>: sequences of [w, h, im, lab]; im and lab are planar
          maps, classes, cw, ef,
          patch,   \* <<px, py>>, <<0,0>> for whole images
          seen     \* <<training, testing>>: what each index has been found to be: index -> <<image, row, column>>
dvars == <<sets, maps, classes, cw, ef, patch, seen>>
Train == 1
Test == 2
Empty == [i \in {} |-> Off]
Init == sets = <<<<>>, <<>>>> /\ maps = 1 /\ classes = 1 /\ cw = <<1>> /\ ef = 0 /\ patch = <<0, 0>> /\ seen = <<Empty, Empty>>

Configure(m, c, w, e, p) == /\ Len(w) = c /\ maps' = m /\ classes' = c /\ cw' = w /\ ef' = e /\ patch' = p
                            /\ sets' = <<<<>>, <<>>>> /\ seen' = <<Empty, Empty>>
AddImage(s, w, h, im, lab) ==
  /\ Len(im) = w * h * maps /\ Len(lab) = w * h * classes
  /\ sets' = [sets EXCEPT ![s] = Append(@, [w |-> w, h |-> h, im |-> im, lab |-> lab])]
  /\ UNCHANGED <<maps, classes, cw, ef, patch, seen>>

(* weight of a position: the default is 1, the custom one depends on all four arguments *)
PosWeight(x, y, w, h) == IF ef = 0 THEN 1 ELSE 1 + x + 3 * y + 5 * w + 7 * h
PixW(i, x, y) == {cw[c] * PosWeight(x, y, i.w, i.h) : c \in {c \in 1..classes : \A k \in 1..classes :
                     i.lab[(k - 1) * i.w * i.h + y * i.w + x + 1] <= i.lab[(c - 1) * i.w * i.h + y * i.w + x + 1]}}
(* thousandths of the way from 0 to 1, within one *)
Along(v, p, n) == IF n <= 1 THEN v = 0 ELSE 1000 * p - n < v * (n - 1) /\ v * (n - 1) < 1000 * p + n

(* ---- whole images *)
Cover(W, H) == /\ \A s \in {Train, Test} : \A i \in DOMAIN sets[s] : sets[s][i].w <= W /\ sets[s][i].h <= H
               /\ W % 8 = 0 /\ H % 8 = 0
WholeRight(i, d, l, hx, hy, w) ==
  /\ d = i.im /\ l = i.lab
  /\ Len(hx) = i.w * i.h /\ Len(hy) = i.w * i.h /\ Len(w) = i.w * i.h
  /\ \A y \in 0..(i.h - 1) : \A x \in 0..(i.w - 1) :
       LET p == y * i.w + x + 1 IN Along(hx[p], x, i.w) /\ Along(hy[p], y, i.h) /\ w[p] \in PixW(i, x, y)
WholeCount(s) == Len(sets[s])

(* ---- patches *)
Inner(n, p) == IF n >= p THEN n - p + 1 ELSE 0
RECURSIVE Sum(_, _)
Sum(q, k) == IF k = 0 THEN 0 ELSE Inner(q[k].w, patch[1]) * Inner(q[k].h, patch[2]) + Sum(q, k - 1)
PatchCount(s) == Sum(sets[s], Len(sets[s]))
Positions(s) == UNION {{<<k, r, c>> : r \in 0..(Inner(sets[s][k].h, patch[2]) - 1), c \in 0..(Inner(sets[s][k].w, patch[1]) - 1)} : k \in DOMAIN sets[s]}
Window(i, r, c) == LET px == patch[1]  py == patch[2] IN
  [e \in 1..(px * py * maps) |-> LET m == (e - 1) \div (px * py)  y == ((e - 1) \div px) % py  x == (e - 1) % px IN
     i.im[m * i.w * i.h + (r + y) * i.w + c + x + 1]]
PatchRight(i, r, c, d, l, hx, hy, w) ==
  LET x == c + patch[1] \div 2  y == r + patch[2] \div 2 IN
  /\ d = Window(i, r, c)
  /\ l = [k \in 1..classes |-> i.lab[(k - 1) * i.w * i.h + y * i.w + x + 1]]
  /\ Along(hx, c, i.w) /\ Along(hy, r, i.h)
  /\ w \in PixW(i, x, y)
Known(s, ix) == ix \in DOMAIN seen[s]
(* index ix of set s turns out to be window (r, c) of image k *)
Learn(s, ix, k, r, c) ==
  /\ ix < PatchCount(s) /\ <<k, r, c>> \in Positions(s)
  /\ IF Known(s, ix) THEN seen[s][ix] = <<k, r, c>> ELSE \A o \in DOMAIN seen[s] : seen[s][o] # <<k, r, c>>
  /\ seen' = [seen EXCEPT ![s] = [o \in (DOMAIN @ \cup {ix}) |-> IF o = ix THEN <<k, r, c>> ELSE @[o]]]
  /\ UNCHANGED <<sets, maps, classes, cw, ef, patch>>
(* every index has been asked for *)
AllSeen(s) == DOMAIN seen[s] = 0..(PatchCount(s) - 1) /\ {seen[s][o] : o \in DOMAIN seen[s]} = Positions(s)
Injective == \A s \in {Train, Test} : \A a, b \in DOMAIN seen[s] : seen[s][a] = seen[s][b] => a = b
=============================================================================

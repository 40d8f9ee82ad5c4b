------------------------------- MODULE Colour -------------------------------
(* Pixels, image files, class colours and the painting of network outputs.  A colour is <<red, green, blue>> in 0..255. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES files, classes       \* files: image files by number; classes: sequence of class colours
covars == <<files, classes>>

RECURSIVE IsqrtF(_, _, _)
IsqrtF(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN IsqrtF(n, m, hi) ELSE IsqrtF(n, lo, m - 1)
Isqrt(n) == IsqrtF(n, 0, 46340)
Abs(z) == IF z < 0 THEN -z ELSE z
Sq(z) == z * z
Dist2(a, b) == Sq(a[1] - b[1]) + Sq(a[2] - b[2]) + Sq(a[3] - b[3])
(* closeness to the foreground colour in thousandths: 1000 at the colour itself, -1000 at distance sqrt(3)*255 *)
Closeness(p, f) == 1000 - (Isqrt(100 * Dist2(p, f)) * 200000) \div 441673

(* what a label image's pixel becomes, in thousandths per class channel *)
LabelOf(p) == IF Len(classes) = 1 THEN <<Closeness(p, classes[1])>>
              ELSE [c \in 1..Len(classes) |-> IF classes[c] = p THEN 1000 ELSE 0]
Tol == IF Len(classes) = 1 THEN 3 ELSE 0
LabelRight(p, v) == LET e == LabelOf(p) IN Len(v) = Len(e) /\ \A c \in DOMAIN e : Abs(e[c] - v[c]) <= Tol

(* classes whose score is highest *)
Best(sc) == {c \in DOMAIN sc : \A d \in DOMAIN sc : sc[c] >= sc[d]}
(* what a score vector (in 1/128) is painted as, in 1/65280 = 1/(255 * 256) *)
PaintRight(sc, v) ==
  IF Len(classes) = 1 THEN \A k \in 1..3 : Abs(v[k] - classes[1][k] * (128 + sc[1])) <= 1
  ELSE \E c \in Best(sc) : \A k \in 1..3 : Abs(v[k] - 256 * classes[c][k]) <= 1

Init == files = <<>> /\ classes = <<>>
(* an image file made of interleaved pixel values *)
Store(w, h, ch, pix) == Len(pix) = w * h * ch /\ files' = Append(files, [w |-> w, h |-> h, ch |-> ch, pix |-> pix]) /\ UNCHANGED classes
Planar(f) == [e \in 1..(f.w * f.h * f.ch) |-> f.pix[((e - 1) % (f.w * f.h)) * f.ch + ((e - 1) \div (f.w * f.h)) + 1]]
LoadRight(k, d, v) == LET f == files[k] IN d = <<1, f.w, f.h, f.ch>> /\ v = Planar(f)
SetClasses(cs) == classes' = cs /\ UNCHANGED files
=============================================================================

------------------------------- MODULE Census -------------------------------
(* The analysis of a training set: how many pixels of each class its images hold, what share of all pixels that is, and the
   factor that would give every occurring class the same share; once counting pixels, once counting class weights.
   Weights are given in quarters.  A class of weight zero can't be counted without its weight. *)
EXTENDS Integers, Sequences
VARIABLES cw, sets      \* sets[1], sets[2]: training and testing images, each the sequence of its pixels' classes
cvars == <<cw, sets>>
Init == cw = <<>> /\ sets = <<<<>>, <<>>>>
Configure(w) == cw' = w /\ sets' = <<<<>>, <<>>>>
AddImage(s, px) == sets' = [sets EXCEPT ![s] = Append(@, px)] /\ UNCHANGED cw
RECURSIVE In(_, _, _), Over(_, _, _)
In(px, c, k) == IF k = 0 THEN 0 ELSE (IF px[k] = c THEN 1 ELSE 0) + In(px, c, k - 1)
Over(q, c, k) == IF k = 0 THEN 0 ELSE In(q[k], c, Len(q[k])) + Over(q, c, k - 1)
Pixels(c) == Over(sets[1], c, Len(sets[1]))
(* in quarters of a pixel *)
Count(c, weighted) == IF weighted THEN Pixels(c) * cw[c] ELSE IF cw[c] = 0 THEN 0 ELSE 4 * Pixels(c)
RECURSIVE Tot(_, _)
Tot(k, weighted) == IF k = 0 THEN 0 ELSE Count(k, weighted) + Tot(k - 1, weighted)
All(weighted) == Tot(Len(cw), weighted)
RECURSIVE Occur(_, _)
Occur(k, weighted) == IF k = 0 THEN 0 ELSE (IF Count(k, weighted) > 0 THEN 1 ELSE 0) + Occur(k - 1, weighted)
Classes(weighted) == Occur(Len(cw), weighted)
(* p thousandths are, within one (printing shows six digits), the ratio a / b *)
Abs(x) == IF x < 0 THEN -x ELSE x
Is(p, a, b) == Abs(p * b - 1000 * a) <= b
(* a row: name, whole pixels, share in per cent, factor, pixels after applying the factor *)
Row(r, c, weighted) == LET n == Count(c, weighted)  t == All(weighted)  k == Classes(weighted) IN
  /\ r.n = n \div 4
  /\ Is(r.share, 100 * n, t)
  /\ IF n = 0 THEN r.factor = 0 /\ r.m = 0
     ELSE Is(r.factor, t, k * n) /\ Abs(r.m * 4 * k - t) <= 4 * k
Section(s, names, weighted) ==
  /\ s.classes = Classes(weighted) /\ Is(s.expected, 100, Classes(weighted))
  /\ Len(s.rows) = Len(cw) /\ \A c \in 1..Len(cw) : s.rows[c].name = names[c] /\ Row(s.rows[c], c, weighted)
Report(ss, names) == All(TRUE) > 0 /\ Len(ss) = 2 /\ Section(ss[1], names, FALSE) /\ Section(ss[2], names, TRUE) /\ UNCHANGED cvars
=============================================================================

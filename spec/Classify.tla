------------------------------ MODULE Classify ------------------------------
(* The classification statistics layers: a confusion matrix ("conf") or a binary statistic over several thresholds ("bin"),
   and the statistics they hand to the aggregator. Outputs and labels are integers in units of 1/16, weights in units of 1/4.
   Threshold t of n between lo/d and hi/d. Tensors list their elements sample by sample, map by map, row by row. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cf,         \* [kind, c classes, n, lo, hi, d, b samples, p pixels per sample]
          cnt,        \* conf: cnt[predicted][actual]; bin: cnt[t] = [tp, fp, fn, tn]
          off, rec,   \* layer disabled; aggregator recording
          rep         \* what the aggregator holds: <<>> (undefined) or <<value>> for every statistic
cvars == <<cf, cnt, off, rec, rep>>
Zero(c) == IF c.kind = "conf" THEN [i \in 1..c.c |-> [j \in 1..c.c |-> 0]] ELSE [t \in 1..c.n |-> [tp |-> 0, fp |-> 0, fn |-> 0, tn |-> 0]]
NoValues(c) == [i \in 1..(IF c.kind = "conf" THEN 1 ELSE 6) |-> <<>>]
Begin(c) == cf' = c /\ cnt' = Zero(c) /\ off' = FALSE /\ rec' = FALSE /\ rep' = NoValues(c)
Pixels == 1..(cf.b * cf.p)
At(v, i, m, maps) == v[((i - 1) \div cf.p) * cf.p * maps + (m - 1) * cf.p + ((i - 1) % cf.p) + 1]
(* the class of a pixel: the first of the highest *)
ClassOf(v, i) == CHOOSE m \in 1..cf.c : (\A k \in 1..cf.c : At(v, i, k, cf.c) <= At(v, i, m, cf.c)) /\ \A k \in 1..(m - 1) : At(v, i, k, cf.c) < At(v, i, m, cf.c)
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S : TRUE IN f[s] + SumOver(S \ {s}, f)
Above(x, t) == IF cf.n = 1 THEN 2 * x * cf.d > 16 * (cf.lo + cf.hi) ELSE x * cf.d * (cf.n - 1) > 16 * (cf.lo * (cf.n - 1) + (cf.hi - cf.lo) * (t - 1))
Counted(out, lab, w) ==
  IF cf.kind = "conf"
  THEN LET oc == [i \in Pixels |-> ClassOf(out, i)] lc == [i \in Pixels |-> ClassOf(lab, i)]
       IN [a \in 1..cf.c |-> [b \in 1..cf.c |-> cnt[a][b] + SumOver({i \in Pixels : oc[i] = a /\ lc[i] = b}, w)]]
  ELSE LET pos == {i \in Pixels : lab[i] > 0}
       IN [t \in 1..cf.n |-> LET up == {i \in Pixels : Above(out[i], t)} IN
            [tp |-> cnt[t].tp + SumOver(up \cap pos, w), fp |-> cnt[t].fp + SumOver(up \ pos, w),
             fn |-> cnt[t].fn + SumOver(pos \ up, w), tn |-> cnt[t].tn + SumOver(Pixels \ (pos \cup up), w)]]
Forward(out, lab, w) == cnt' = (IF off THEN cnt ELSE Counted(out, lab, w)) /\ UNCHANGED <<cf, off, rec, rep>>
Disable(b) == off' = b /\ UNCHANGED <<cf, cnt, rec, rep>>
ResetLayer == cnt' = Zero(cf) /\ UNCHANGED <<cf, off, rec, rep>>
Start == rec' = TRUE /\ UNCHANGED <<cf, cnt, off, rep>>
Stop == rec' = FALSE /\ UNCHANGED <<cf, cnt, off, rep>>
ResetStats == (IF rec THEN UNCHANGED <<cnt, rep>> ELSE cnt' = Zero(cf) /\ rep' = NoValues(cf)) /\ UNCHANGED <<cf, off, rec>>

Total == SumOver(1..cf.c, [a \in 1..cf.c |-> SumOver(1..cf.c, cnt[a])])
(* binary measures as fractions; an undefined one has denominator 0 *)
F1(k) == IF k.tp + k.fp = 0 \/ k.tp + k.fn = 0 THEN <<0, 0>> ELSE <<2 * k.tp, 2 * k.tp + k.fp + k.fn>>
Measures(k) == << <<k.fp, k.fp + k.tn>>, <<k.fn, k.tp + k.fn>>, <<k.tp, k.tp + k.fp>>, <<k.tp, k.tp + k.fn>>, <<k.tp + k.tn, k.tp + k.tn + k.fp + k.fn>>, F1(k) >>
(* thresholds with the highest F1 value, where an undefined one is lower than all others *)
NotWorse(a, b) == b[2] = 0 \/ (a[2] # 0 /\ a[1] * b[2] >= b[1] * a[2])
BestT == {t \in 1..cf.n : \A s \in 1..cf.n : NotWorse(F1(cnt[t]), F1(cnt[s]))}
Update ==
  /\ UNCHANGED <<cf, cnt, off, rec>>
  /\ IF ~rec THEN UNCHANGED rep
     ELSE IF cf.kind = "conf"
     THEN \/ Total > 0 /\ rep' = << <<cnt>> >>
          \/ Total < 4 /\ UNCHANGED rep        \* less than one whole pixel may count as nothing
     ELSE \E t \in BestT : rep' = [i \in 1..6 |-> LET f == Measures(cnt[t])[i] IN IF f[2] = 0 THEN rep[i] ELSE <<f>>]

(* ---- reported values, in thousandths of a percent *)
Abs(x) == IF x < 0 THEN -x ELSE x
Near(o, num, den, tol) == Abs(o * den - 100000 * num) <= tol * den
Actual(m, c) == SumOver(1..cf.c, [a \in 1..cf.c |-> m[a][c]])
Predicted(m, c) == SumOver(1..cf.c, m[c])
Union(m, c) == Actual(m, c) + Predicted(m, c) - m[c][c]
Share(num, den) == IF den = 0 THEN 0 ELSE (100000 * num) \div den
Known(m) == {c \in 1..cf.c : Actual(m, c) > 0}
Arr(m) == SumOver(1..cf.c, [c \in 1..cf.c |-> Share(m[c][c], Actual(m, c))]) \div Cardinality(Known(m))
Iou(m) == SumOver(1..cf.c, [c \in 1..cf.c |-> Share(m[c][c], Union(m, c))]) \div cf.c
Right(m) == SumOver(1..cf.c, [c \in 1..cf.c |-> m[c][c]])
Sum(m) == SumOver(1..cf.c, [a \in 1..cf.c |-> Predicted(m, a)])
ReportRight(v) ==       \* v: a sequence of <<>> or <<value>>
  IF cf.kind = "conf"
  THEN /\ Len(v) = 3
       /\ IF rep[1] = <<>> THEN \A i \in 1..3 : v[i] = <<>>
          ELSE LET m == rep[1][1] IN /\ \A i \in 1..3 : Len(v[i]) = 1
                                     /\ Near(v[1][1], Right(m), Sum(m), 1) /\ Abs(v[2][1] - Arr(m)) <= 2 /\ Abs(v[3][1] - Iou(m)) <= 2
  ELSE /\ Len(v) = 6
       /\ \A i \in 1..6 : IF rep[i] = <<>> THEN v[i] = <<>> ELSE Len(v[i]) = 1 /\ Near(v[i][1], rep[i][1][1], rep[i][1][2], 1)
(* the printed matrix (whole weights), recognition rates of the classes that occur, overlap of every class, average overlap *)
PrintRight(cells, rr, iu, avg) ==
  cf.kind = "conf" =>
  /\ Len(cells) = cf.c * cf.c /\ \A a \in 1..cf.c, b \in 1..cf.c : cells[(a - 1) * cf.c + b] = cnt[a][b] \div 4
  /\ LET k == Known(cnt) IN
     /\ Len(rr) = Cardinality(k)
     /\ \A c \in k : LET j == Cardinality({d \in k : d <= c}) IN Abs(rr[j] - Share(cnt[c][c], Actual(cnt, c))) <= 2
  /\ Len(iu) = cf.c /\ \A c \in 1..cf.c : Abs(iu[c] - Share(cnt[c][c], Union(cnt, c))) <= 2
  /\ Abs(avg - Iou(cnt)) <= 2
=============================================================================

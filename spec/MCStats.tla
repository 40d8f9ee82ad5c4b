------------------------------ MODULE MCStats ------------------------------
EXTENDS Stats, TLC, Json
CONSTANTS MaxLen
VARIABLES hist, ups, reps       \* ghosts: updates while recording since the last reset; rows due in the open file
mvars == <<svars, hist, ups, reps>>
MInit == Init /\ hist = <<>> /\ ups = <<>> /\ reps = 0
R(a, z) == RandomElement(a..z)
Step == /\ hist' = Append(hist, 0) /\ Len(hist) < MaxLen
Same == UNCHANGED <<ups, reps>>
MNext ==
  /\ Step
  /\ \/ \E k \in {"sum", "last", "avg"} : Len(kinds) < 2 /\ RegisterStat(k) /\ Same
     \/ \E k \in {"probe", "csv"} : Len(sinks) < 2 /\ RegisterSink(k) /\ Same
     \/ Initialize /\ IF state = "init" THEN ups' = <<>> /\ reps' = 0 ELSE Same
     \/ Start /\ Same
     \/ Stop /\ Same
     \/ \E i \in 1..3, v \in {8} : Update(i, v) /\ ups' = (IF state = "recording" /\ i <= Len(kinds) THEN Append(ups, <<i, v>>) ELSE ups) /\ UNCHANGED reps
     \/ Generate /\ reps' = (IF state = "init" THEN 0 ELSE reps + 1) /\ UNCHANGED ups
     \/ Snapshot /\ reps' = (IF state = "recording" THEN reps + 1 ELSE reps) /\ ups' = (IF state = "recording" THEN <<>> ELSE ups)
     \/ Reset /\ ups' = (IF state = "stopped" THEN <<>> ELSE ups) /\ UNCHANGED reps
     \/ \E n \in Names : Experiment(n) /\ reps' = (IF state = "stopped" THEN 0 ELSE reps) /\ UNCHANGED ups
     \/ MakeDir /\ ~dir /\ Same
     \/ \E n \in Names : Occupy(n, "dir") /\ files[n].s # "dir" /\ Same
MSpec == MInit /\ [][MNext]_mvars
RECURSIVE Fold(_, _, _)
Fold(i, k, s) == IF k > Len(ups) THEN s ELSE Fold(i, k + 1, IF ups[k][1] = i THEN New(kinds[i], s, ups[k][2]) ELSE s)
(* every statistic holds exactly the updates made while recording since the last reset (those of unknown numbers do nothing) *)
Exact == state # "init" => \A i \in DOMAIN kinds : vals[i] = Fold(i, 1, Fresh(kinds[i]))
Rows == open # "" /\ files[open].s = "lines" => Len(files[open].r) = reps
Columns == \A n \in Names : files[n].s = "lines" => \A j \in DOMAIN files[n].r : Len(files[n].r[j].v) + 4 = Len(files[n].h)
Everyone == \A c \in {calls[i] : i \in DOMAIN calls} : \A i \in DOMAIN sinks : sinks[i] = "probe" => \E d \in {calls[j] : j \in DOMAIN calls} : d = [c EXCEPT !.to = i]
OldFilesStay == [][ \A n \in Names : files'[n] # files[n] => (n = open \/ open' = n \/ files'[n].s = "dir") ]_mvars
MaxLenView == <<svars, ups, reps, Len(hist)>>

(* ---- scenarios *)
Rec(op) == hist' = Append(hist, op)
Kinds == <<"sum", "cnt", "last", "avg", "epoch", "const", "huge", "wide", "tiny", "some">>
NameOf(k) == <<"unnamed", "a", "experiment-with-a-rather-long-name_0123456789", "x/y">>[k]
RECURSIVE Begin(_, _)
Begin(n, acc) == IF n = 0 THEN acc ELSE Begin(n - 1, Append(acc, IF R(1, 4) = 1 THEN "probe" ELSE IF R(1, 5) = 1 /\ (\A i \in DOMAIN acc : acc[i] # "console") THEN "console" ELSE Kinds[R(1, Len(Kinds))]))
Val(z) == CASE R(1, 4) = 1 -> R(-9, 9) [] R(1, 3) = 1 -> R(-9500, 9500) [] R(1, 3) = 1 -> R(-90000000, 90000000) [] OTHER -> R(-100000, 100000)
SNext ==
  /\ UNCHANGED <<svars, ups, reps>>
  /\ IF hist = <<>> THEN \E b \in {Begin(R(0, 5), <<>>)}, c \in {R(1, 5)}, d \in {R(1, 5)} : Rec(<<"Begin", IF c = 1 THEN 0 ELSE 1, IF d = 1 THEN 0 ELSE 1>> \o b)
     (* most scenarios start recording at once and then mainly update and report *)
     ELSE IF Len(hist) = 1 /\ R(1, 3) > 1 THEN Rec(<<"Init">>)
     ELSE IF Len(hist) = 2 /\ hist[2][1] = "Init" THEN Rec(<<"Start">>)
     ELSE \E k \in {IF Len(hist) > 2 /\ hist[3][1] = "Start" /\ R(1, 3) > 1 THEN R(8, 18) ELSE R(1, 32)} :
       CASE k <= 2 -> Rec(<<"Init">>)
         [] k \in 3..5 -> Rec(<<"Start">>)
         [] k \in 6..7 -> Rec(<<"Stop">>)
         [] k \in 8..15 -> \E i \in {IF R(1, 3) = 1 THEN R(0, 6) ELSE R(0, Cardinality({j \in 4..Len(hist[1]) : hist[1][j] \notin {"probe", "console"}}))}, v \in {Val(0)} : Rec(<<"Update", i, v>>)
         [] k \in 16..18 -> Rec(<<"Gen">>)
         [] k \in 19..20 -> Rec(<<"Snap">>)
         [] k \in 21..22 -> Rec(<<"Reset">>)
         [] k \in 23..25 -> \E n \in {R(1, 4)} : Rec(<<"Exp", NameOf(n)>>)
         [] k = 26 -> \E a \in {R(0, 300)}, b \in {R(0, 3)}, c \in {R(0, 9)}, d \in {R(0, 1)} : Rec(<<"Hc", a, <<0, 1, 2, 4>>[b + 1], c, d>>)
         [] k = 27 -> \E j \in {R(1, Len(Kinds))} : Rec(<<"Stat", Kinds[j]>>)
         [] k = 28 -> Rec(<<"Dir">>)
         [] k = 29 -> \E n \in {R(1, 3)}, s \in {R(1, 3)} : Rec(<<"Occ", NameOf(n), <<"dir", "full", "none">>[s]>>)
         [] k = 30 -> \E n \in {R(1, 3)} : Rec(<<"Wait", n>>)
         [] OTHER -> \E n \in {R(2, 4)} : Rec(<<"Run", n>>)
SSpec == MInit /\ [][SNext]_mvars
SimExport == (Len(hist) = MaxLen) => PrintT("@@" \o ToJson(hist))
=============================================================================

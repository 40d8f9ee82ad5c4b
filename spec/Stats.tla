------------------------------- MODULE Stats -------------------------------
(* The statistics aggregator, its sinks and the log files a CSV sink leaves in the directory csv/.
   Values are integers in units of 1/8. Kinds of statistics:
     sum   undefined until the first update       cnt  number of updates       last  value of the last update
     avg   sum per iteration, undefined without iterations                     epoch the epoch reported (ignores updates)
     huge  like last, in units of 2^40            tiny  sum from 0 in units of 2^-40
     wide  like last, in units of 8388616
     some  like last, undefined until the first update, then reported as 300
     const a statistic whose processing functions are the defaults: always 0
   Sinks are "probe" (records the calls it receives), "csv", or "console" (shows reports). A file is none, a directory (which cannot be opened), full
   (opens, but nothing can be written), or lines: the header's fields and the rows. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Names             \* experiment names
VARIABLES state, kinds, vals, hc, sinks, calls, files, open, csvn, dir, wait
svars == <<state, kinds, vals, hc, sinks, calls, files, open, csvn, dir, wait>>
Unnamed == "unnamed"
Title(k) == CASE k = "sum" -> "SumofX" [] k = "cnt" -> "Count2" [] k = "last" -> "Last" [] k = "avg" -> "AverageAB" [] k = "epoch" -> "" [] k = "huge" -> "HUGE" [] k = "wide" -> "Wide2" [] k = "tiny" -> "tiny" [] k = "some" -> "Some" [] OTHER -> "Constant019azAZ"
Null == <<>>
Fresh(k) == [v |-> 0, null |-> k \in {"sum", "some"}]
NoFile == [s |-> "none", h |-> <<>>, r |-> <<>>]
Init ==
  /\ state = "init" /\ kinds = <<>> /\ vals = <<>> /\ sinks = <<>> /\ calls = <<>> /\ open = "" /\ csvn = 0 /\ dir = FALSE /\ wait = <<0, FALSE, 0>>
  /\ hc = [it |-> 0, ep |-> 0, tr |-> TRUE, w |-> 0] /\ files = [n \in Names |-> NoFile]
Quiet == calls' = <<>>
RegisterStat(k) ==
  /\ kinds' = Append(kinds, k) /\ vals' = (IF state = "init" THEN vals ELSE Append(vals, Fresh(k)))
  /\ Quiet /\ UNCHANGED <<state, hc, sinks, files, open, csvn, dir, wait>>
(* sinks are registered before initialization; there is at most one CSV sink and one console *)
RegisterSink(k) ==
  /\ state = "init" /\ (k # "probe" => \A i \in DOMAIN sinks : sinks[i] # k)
  /\ sinks' = Append(sinks, k) /\ Quiet /\ UNCHANGED <<state, kinds, vals, hc, files, open, csvn, dir, wait>>
HasCsv == \E i \in DOMAIN sinks : sinks[i] = "csv"
RECURSIVE Tell(_, _)          \* one call c to every probe, in order; sinks are numbered from 1
Tell(c, i) == IF i > Len(sinks) THEN <<>> ELSE (IF sinks[i] = "probe" THEN <<[c EXCEPT !.to = i]>> ELSE <<>>) \o Tell(c, i + 1)
Call(k) == [to |-> 0, k |-> k, n |-> "", v |-> <<>>, it |-> 0, ep |-> 0, tr |-> TRUE, w |-> 0]
InitCall == [Call("I") EXCEPT !.v = [i \in DOMAIN kinds |-> <<i>>]]
Header(n) == <<"IsTraining", "Epoch", "Iterations", "SecondsElapsed">> \o (IF n = 0 THEN <<"">> ELSE [i \in 1..n |-> Title(kinds[i])])
OpenFile(n, cols) ==
  IF ~HasCsv THEN UNCHANGED <<files, open>>
  ELSE IF ~dir \/ files[n].s = "dir" \/ n = "x/y" THEN open' = "" /\ UNCHANGED files
  ELSE /\ open' = n /\ files' = IF files[n].s = "full" THEN files ELSE [files EXCEPT ![n] = [s |-> "lines", h |-> Header(cols), r |-> <<>>]]
Cleared == [hc EXCEPT !.it = 0, !.w = 0]
Initialize ==
  IF state # "init" THEN Quiet /\ UNCHANGED <<state, kinds, vals, hc, sinks, files, open, csvn, dir, wait>>
  ELSE /\ state' = "stopped" /\ vals' = [i \in DOMAIN kinds |-> Fresh(kinds[i])] /\ hc' = Cleared /\ wait' = <<0, FALSE, 0>>
       /\ csvn' = Len(kinds) /\ calls' = Tell(InitCall, 1) \o Tell([Call("X") EXCEPT !.n = Unnamed], 1)
       /\ OpenFile(Unnamed, Len(kinds)) /\ UNCHANGED <<kinds, sinks, dir>>
(* time: milliseconds waited for in finished recordings, whether one was finished, milliseconds waited for in this one *)
Stopped == <<wait[1] + wait[3], TRUE, 0>>
Start == state' = (IF state = "stopped" THEN "recording" ELSE state) /\ Quiet /\ UNCHANGED <<kinds, vals, hc, sinks, files, open, csvn, dir, wait>>
Stop == /\ state' = (IF state = "recording" THEN "stopped" ELSE state) /\ wait' = (IF state = "recording" THEN Stopped ELSE wait)
        /\ Quiet /\ UNCHANGED <<kinds, vals, hc, sinks, files, open, csvn, dir>>
(* recording lasts n more milliseconds at least *)
Wait(n) == wait' = (IF state = "recording" THEN <<wait[1], wait[2], wait[3] + n>> ELSE wait) /\ Quiet /\ UNCHANGED <<state, kinds, vals, hc, sinks, files, open, csvn, dir>>
New(k, s, v) ==
  CASE k \in {"sum", "avg", "tiny"} -> [v |-> s.v + v, null |-> FALSE] [] k = "cnt" -> [v |-> s.v + 8, null |-> FALSE] [] k \in {"last", "huge", "wide", "some"} -> [v |-> v, null |-> FALSE] [] OTHER -> s
Update(i, v) ==              \* statistic i (from 1) is updated with v
  /\ vals' = IF state = "recording" /\ i \in DOMAIN kinds THEN [vals EXCEPT ![i] = New(kinds[i], @, v)] ELSE vals
  /\ Quiet /\ UNCHANGED <<state, kinds, hc, sinks, files, open, csvn, dir, wait>>
Out(i) ==
  LET s == vals[i] IN
  CASE kinds[i] = "avg" -> IF hc.it = 0 THEN Null ELSE <<s.v \div hc.it>>
    [] kinds[i] = "epoch" -> <<8 * hc.ep>>
    [] kinds[i] = "some" -> IF s.null THEN <<2400>> ELSE <<s.v>>
    [] OTHER -> IF s.null THEN Null ELSE <<s.v>>
Outs == [i \in DOMAIN kinds |-> Out(i)]
Row(t) == [tr |-> hc.tr, ep |-> hc.ep, it |-> hc.it, v |-> IF csvn = 0 THEN <<Null>> ELSE SubSeq(Outs, 1, csvn), lo |-> t[1], ran |-> t[2]]
Report(t) == /\ calls' = Tell([Call("P") EXCEPT !.v = Outs, !.it = hc.it, !.ep = hc.ep, !.tr = hc.tr, !.w = hc.w], 1)
          /\ files' = IF open = "" \/ files[open].s # "lines" THEN files ELSE [files EXCEPT ![open].r = Append(@, Row(t))]
(* what the console shows of a report: a heading with the epoch, then the defined statistics known at initialization, each
   with its description, unit and value to five digits. o: a sequence of headings with the lines below them *)
Shown(k) == CASE k = "sum" -> "Sum of X" [] k = "cnt" -> "Count-2" [] k = "last" -> "Last" [] k = "avg" -> "Average (A/B)," [] k = "epoch" -> "" [] k = "huge" -> "HUGE" [] k = "wide" -> "Wide 2" [] k = "tiny" -> "tiny" [] k = "some" -> "Some" [] OTHER -> "Constant @[`{/ 019 azAZ"
UnitOf(k) == IF k = "huge" THEN "2^40" ELSE IF k = "cnt" THEN "1/pixel" ELSE ""
Mag(x) == IF x < 0 THEN -x ELSE x
Defined == SelectSeq([i \in 1..csvn |-> i], LAMBDA i : Out(i) # Null)
ConsoleRight(o, reported) ==
  IF ~reported \/ (\A i \in DOMAIN sinks : sinks[i] # "console") THEN o = <<>>
  ELSE /\ Len(o) = 1 /\ o[1].ep = hc.ep /\ Len(o[1].r) = Len(Defined)
       /\ \A j \in DOMAIN Defined : LET i == Defined[j] x == o[1].r[j] v == Out(i)[1]
                                   IN  x.d = Shown(kinds[i]) /\ x.u = UnitOf(kinds[i]) /\ Mag(x.v - v) <= 1 + Mag(v) \div 100000
Generate == (IF state = "init" THEN Quiet /\ UNCHANGED files ELSE Report(wait)) /\ UNCHANGED <<state, kinds, vals, hc, sinks, open, csvn, dir, wait>>
Empty == vals' = [i \in DOMAIN kinds |-> Fresh(kinds[i])] /\ hc' = Cleared /\ wait' = <<0, FALSE, 0>>
Reset == (IF state = "stopped" THEN Empty ELSE UNCHANGED <<vals, hc, wait>>) /\ Quiet /\ UNCHANGED <<state, kinds, sinks, files, open, csvn, dir>>
Snapshot ==
  IF state # "recording" THEN Quiet /\ UNCHANGED <<state, kinds, vals, hc, sinks, files, open, csvn, dir, wait>>
  ELSE Report(Stopped) /\ Empty /\ UNCHANGED <<state, kinds, sinks, open, csvn, dir>>
Experiment(n) ==
  IF state # "stopped" THEN Quiet /\ UNCHANGED <<state, kinds, vals, hc, sinks, files, open, csvn, dir, wait>>
  ELSE calls' = Tell([Call("X") EXCEPT !.n = n], 1) /\ OpenFile(n, csvn) /\ UNCHANGED <<state, kinds, vals, hc, sinks, csvn, dir, wait>>
SetHc(ep, it, w, tr) == hc' = [ep |-> ep, it |-> it, w |-> w, tr |-> tr] /\ Quiet /\ UNCHANGED <<state, kinds, vals, sinks, files, open, csvn, dir, wait>>
(* the surroundings: the directory is created; a name becomes a directory, a full device, or nothing at all *)
MakeDir == dir' = TRUE /\ Quiet /\ UNCHANGED <<state, kinds, vals, hc, sinks, files, open, csvn, wait>>
Occupy(n, s) == /\ dir /\ open # n /\ n # "x/y" /\ files' = [files EXCEPT ![n] = [NoFile EXCEPT !.s = s]] /\ Quiet
                /\ UNCHANGED <<state, kinds, vals, hc, sinks, open, csvn, dir, wait>>
=============================================================================

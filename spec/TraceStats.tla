----------------------------- MODULE TraceStats -----------------------------
EXTENDS Stats, TraceBase
vars == <<svars, l>>
(* seconds of a row, in whole milliseconds: not less than waited for, not more than passed, zero if recording never ended *)
TimeRight(o, m) == o.s >= m.lo /\ o.s <= E.wall /\ (~m.ran => o.z)
Same(o, m) ==
  /\ o.s = m.s /\ o.h = m.h /\ Len(o.r) = Len(m.r)
  /\ \A i \in DOMAIN o.r : o.r[i].ok /\ o.r[i].tr = m.r[i].tr /\ o.r[i].ep = m.r[i].ep /\ o.r[i].it = m.r[i].it /\ o.r[i].v = m.r[i].v /\ TimeRight(o.r[i], m.r[i])
(* what the sinks were told and what the files contain after the command *)
Seen == /\ ConsoleRight(E.con, (E.e = "Gen" /\ state # "init") \/ (E.e = "Snap" /\ state = "recording"))
        /\ E.calls = calls' /\ \A n \in DOMAIN E.files : Same(E.files[n], files'[n])
        /\ \A i \in DOMAIN E.secs : E.secs[i] >= (IF E.e = "Snap" THEN wait[1] + wait[3] ELSE wait[1]) /\ E.secs[i] <= E.wall
T0 == IsEvent("Begin") /\ state' = "init" /\ kinds' = <<>> /\ vals' = <<>> /\ sinks' = <<>> /\ calls' = <<>> /\ open' = "" /\ csvn' = 0 /\ dir' = E.dir /\ wait' = <<0, FALSE, 0>>
      /\ hc' = [it |-> 0, ep |-> 0, tr |-> TRUE, w |-> 0] /\ files' = [n \in Names |-> NoFile]
T1 == IsEvent("Stat") /\ E.id = Len(kinds) /\ E.id2 = Len(kinds) /\ RegisterStat(E.k) /\ Seen
T2 == IsEvent("Sink") /\ E.id = Len(sinks) /\ RegisterSink(E.k) /\ Seen
T3 == IsEvent("Init") /\ Initialize /\ Seen
T4 == IsEvent("Start") /\ Start /\ Seen
T5 == IsEvent("Stop") /\ Stop /\ Seen
T6 == IsEvent("Wait") /\ Wait(E.n) /\ Seen
T7 == IsEvent("Update") /\ Update(E.i, E.v) /\ Seen
T8 == IsEvent("Gen") /\ Generate /\ Seen
T9 == IsEvent("Snap") /\ Snapshot /\ Seen
T10 == IsEvent("Reset") /\ Reset /\ Seen
T11 == IsEvent("Exp") /\ Experiment(E.n) /\ Seen
T12 == IsEvent("Hc") /\ SetHc(E.ep, E.it, E.w, E.tr) /\ Seen
T13 == IsEvent("Dir") /\ MakeDir /\ Seen
T14 == IsEvent("Occ") /\ Occupy(E.n, E.s) /\ Seen
TNext == T0 \/ T1 \/ T2 \/ T3 \/ T4 \/ T5 \/ T6 \/ T7 \/ T8 \/ T9 \/ T10 \/ T11 \/ T12 \/ T13 \/ T14
TSpec == Init /\ l = 1 /\ [][TNext]_vars
=============================================================================

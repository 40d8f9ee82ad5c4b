--------------------------- MODULE TraceClassify ---------------------------
EXTENDS Classify, TraceBase
vars == <<cvars, l>>
T0 == IsEvent("Begin") /\ Begin(E.cf)
T1 == IsEvent("FF") /\ Forward(E.o, E.t, E.w)
T2 == IsEvent("Dis") /\ Disable(E.b)
T3 == IsEvent("ResetL") /\ ResetLayer
T4 == IsEvent("Start") /\ Start
T5 == IsEvent("Stop") /\ Stop
T6 == IsEvent("Clear") /\ ResetStats
T7 == IsEvent("Update") /\ Update
T8 == IsEvent("Gen") /\ ReportRight(E.v) /\ UNCHANGED cvars
T9 == IsEvent("Print") /\ PrintRight(E.cells, E.rr, E.iu, E.avg) /\ UNCHANGED cvars
TInit == /\ cf = [kind |-> "none", c |-> 1, n |-> 1] /\ cnt = <<>> /\ off = FALSE /\ rec = FALSE /\ rep = <<>>
TNext == T0 \/ T1 \/ T2 \/ T3 \/ T4 \/ T5 \/ T6 \/ T7 \/ T8 \/ T9
TSpec == TInit /\ l = 1 /\ [][TNext]_vars
=============================================================================

---------------------------- MODULE TraceTrainer ----------------------------
EXTENDS Trainer, TraceBase
vars == <<tvars, l>>
TBegin == IsEvent("Begin") /\ Configure(E.cfg, E.W, E.S)
T1 == IsEvent("Train") /\ StartTrain(E.n, E.snap)
T2 == IsEvent("Test") /\ StartTest
T3 == IsEvent("FF") /\ FFSees(E.net, E.modes, E.en) /\ FF(E.W, E.S)
T4 == IsEvent("L") /\ Loss(E.i, E.v)
T5 == IsEvent("B") /\ BP(E.k, E.g)
T6 == IsEvent("U") /\ UpdateStat(E.i)
T7 == IsEvent("P") /\ PrintStat(E.i, E.tr, E.ep)
T8 == IsEvent("Rep") /\ ReportRight(E) /\ IF st.k = "idle" THEN Generate ELSE Snapshot
(* afterwards the training layers are in training mode and the statistics layers are enabled *)
T9 == IsEvent("End") /\ End(E.W, E.S) /\ E.epoch = epoch /\ (\A i \in DOMAIN E.modes : ~E.modes[i]) /\ (\A i \in DOMAIN E.en : E.en[i])
T10 == IsEvent("Reset") /\ ResetTrainer
T11 == IsEvent("SetEpoch") /\ SetEpoch(E.n)
T12 == IsEvent("Stats") /\ SetStats(E.b)
T13 == IsEvent("Rec") /\ StartRec
T14 == IsEvent("Stop") /\ StopRec
T15 == IsEvent("Clear") /\ ResetStats
Init == /\ cfg = [lay |-> <<>>] /\ W = <<>> /\ sg = <<>> /\ last = <<>> /\ slope = <<>> /\ first = TRUE /\ epoch = 0 /\ st = Idle /\ agg = [state |-> "stopped"]
TNext == TBegin \/ T1 \/ T2 \/ T3 \/ T4 \/ T5 \/ T6 \/ T7 \/ T8 \/ T9 \/ T10 \/ T11 \/ T12 \/ T13 \/ T14 \/ T15
TSpec == Init /\ l = 1 /\ [][TNext]_vars
=============================================================================

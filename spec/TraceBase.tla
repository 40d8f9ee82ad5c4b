----------------------------- MODULE TraceBase -----------------------------
(* Common part of every trace specification: the recorded execution (one JSON event per line, file named by the
   environment variable TRACE), the cursor l, and the acceptance condition reported to the driver. *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json
VARIABLE l

Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
IsEvent(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1

Accepted ==
  LET d == TLCGet("stats").diameter - 1
  IN  IF d = Len(Trace) THEN PrintT("@OK " \o ToString(d)) ELSE PrintT("@AT " \o ToString(d)) /\ FALSE
=============================================================================

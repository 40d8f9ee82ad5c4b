---------------------------- MODULE TraceCensus ----------------------------
EXTENDS Census, TraceBase
vars == <<cw, sets, l>>
Begin == IsEvent("Begin") /\ cw' = <<>> /\ sets' = <<<<>>, <<>>>>
Cls == IsEvent("Cls") /\ Configure(E.w)
Img == IsEvent("Image") /\ AddImage(E.s, E.px)
Rep == IsEvent("Report") /\ E.rc = 0 /\ Report(E.sections, E.names)
(* without any weighted training pixel there is nothing to analyse: only the program's end is required *)
Void == IsEvent("Report") /\ E.rc = 0 /\ All(TRUE) = 0 /\ UNCHANGED cvars
TNext == Begin \/ Cls \/ Img \/ Rep \/ Void
TSpec == Init /\ l = 1 /\ [][TNext]_vars
=============================================================================

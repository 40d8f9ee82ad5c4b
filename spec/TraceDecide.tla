---------------------------- MODULE TraceDecide ----------------------------
EXTENDS Decide, TraceBase
vars == <<pal, net, par, l>>
TDescribe == IsEvent("Describe") /\ Describe(E.pal, E.ls, E.m) /\ E.complete
TTrain == IsEvent("Train") /\ Train(E.p)
TLabel == IsEvent("Label") /\ E.rc = 0 /\ Label([w |-> E.w, h |-> E.h, ch |-> net.m, pix |-> E.pix], [w |-> E.ow, h |-> E.oh, pix |-> E.out])
TBegin == IsEvent("Begin") /\ pal' = <<>> /\ net' = [ls |-> <<>>, m |-> 0] /\ par' = <<>>
TNext == TBegin \/ TDescribe \/ TTrain \/ TLabel
TSpec == l = 1 /\ DInit /\ [][TNext]_vars
=============================================================================

----------------------------- MODULE TraceGraph -----------------------------
EXTENDS Graph, TraceBase
vars == <<top, order, net, files, l>>
TBegin == IsEvent("Begin") /\ top' = <<>> /\ order' = <<>> /\ net' = [g \in 1..2 |-> Blank] /\ files' = <<>>
AddN == IsEvent("Node") /\ Add([k |-> E.k, in |-> E.in, nb |-> E.nb, bp |-> E.bp, c |-> E.c, np |-> E.np, ms |-> E.ms])
BuildN == IsEvent("Order") /\ Build(E.p) /\ E.complete
Val == IsEvent("Inp") /\ SetVal(E.g, E.v)
Ext == IsEvent("Ext") /\ SetExt(E.g, E.v)
Par == IsEvent("Par") /\ SetPar(E.g, E.v)
FF == IsEvent("FF") /\ StartFF(E.g)
BP == IsEvent("BP") /\ StartBP(E.g)
Run == IsEvent("R") /\ IF net[E.g].phase = "ff" THEN RunFF(E.g, E.i) ELSE RunBP(E.g, E.i)
EndFFE == IsEvent("EndFF") /\ EndFF(E.g) /\ \A i \in Nodes : E.data[i] = net[E.g].data[i]
          /\ E.loss = LossOver(net[E.g], Losses)
(* gradients at every buffer that takes part, and at the parameters *)
EndBPE == /\ IsEvent("EndBP") /\ EndBP(E.g)
          /\ \A i \in Nodes : Takes(i) => /\ E.delta[i] = net[E.g].delta[i]
                                          /\ E.pg[i] = net[E.g].pg[i]
Pars == <<net'[1].par, net'[2].par>>
SaveN == IsEvent("Save") /\ Save(E.g) /\ E.par = Pars
CutN == IsEvent("Cut") /\ Cut(E.f, E.k) /\ E.par = Pars
LoadN == IsEvent("Load") /\ Load(E.g, E.f, E.lim) /\ E.par = Pars
TNext == TBegin \/ AddN \/ BuildN \/ Val \/ Ext \/ Par \/ FF \/ BP \/ Run \/ EndFFE \/ EndBPE \/ SaveN \/ LoadN \/ CutN
TSpec == Init /\ l = 1 /\ [][TNext]_vars
=============================================================================

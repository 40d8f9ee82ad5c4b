---------------------------- MODULE TraceLayers ----------------------------
EXTENDS Layers, TraceBase
vars == <<lay, run, l>>
S4(q) == Sh(q[1], q[2], q[3], q[4])
Begin == IsEvent("Begin") /\ lay' = NoLayer /\ run' = Off
MakeL == /\ IsEvent("Make") /\ Make(E.k, E.p, [i \in DOMAIN E.ins |-> S4(E.ins[i])], E.ok)
         /\ E.ok => /\ lay'.outs = [i \in DOMAIN E.outs |-> S4(E.outs[i])]
                    /\ lay'.pars = [i \in DOMAIN E.pars |-> S4(E.pars[i])]
FFL == IsEvent("FF") /\ FF(E.in, E.par, E.out)
BPL == IsEvent("BP") /\ BP(E.dl, E.wanted, E.din, E.dpar)
LargeL == IsEvent("Large") /\ Large(E.out, E.din, E.dpar)
TNext == Begin \/ MakeL \/ FFL \/ BPL \/ LargeL
TSpec == Init /\ l = 1 /\ [][TNext]_vars
=============================================================================

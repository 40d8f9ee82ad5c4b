---------------------------- MODULE TraceDataset ----------------------------
EXTENDS Dataset, TraceBase
VARIABLE size
vars == <<sets, maps, classes, cw, ef, patch, seen, l, size>>
TBegin == IsEvent("Begin") /\ Configure(E.maps, E.classes, E.cw, E.ef, E.patch) /\ size' = <<0, 0>>
Image == IsEvent("Image") /\ AddImage(E.set, E.w, E.h, E.im, E.lab) /\ UNCHANGED size
Whole == patch = <<0, 0>>
Open == /\ IsEvent("Open") /\ UNCHANGED dvars /\ size' = E.size
        /\ IF Whole THEN Cover(E.size[1], E.size[2]) /\ E.counts = <<WholeCount(1), WholeCount(2)>>
                    ELSE E.size = patch /\ E.counts = <<PatchCount(1), PatchCount(2)>>
        /\ E.maps = maps /\ E.labels = classes
(* a request beyond the set is refused and touches nothing; otherwise only the addressed slot changes *)
Get == /\ IsEvent("Get") /\ UNCHANGED size /\ E.others = 0
       /\ LET s == E.set  n == IF Whole THEN WholeCount(s) ELSE PatchCount(s) IN
          /\ E.ok = (E.ix < n)
          /\ IF ~E.ok THEN E.slot = 0 /\ UNCHANGED dvars
             ELSE IF Whole THEN E.pad = 0 /\ WholeRight(sets[s][E.ix + 1], E.d, E.lb, E.hx, E.hy, E.w) /\ UNCHANGED dvars
             ELSE \E q \in Positions(s) : /\ PatchRight(sets[s][q[1]], q[2], q[3], E.d, E.lb, E.hx[1], E.hy[1], E.w[1])
                                          /\ Learn(s, E.ix, q[1], q[2], q[3])
Done == IsEvent("Swept") /\ UNCHANGED <<sets, maps, classes, cw, ef, patch, seen, size>> /\ AllSeen(1) /\ AllSeen(2)
TNext == TBegin \/ Image \/ Open \/ Get \/ Done
TSpec == Init /\ l = 1 /\ size = <<0, 0>> /\ [][TNext]_vars
=============================================================================

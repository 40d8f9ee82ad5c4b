---------------------------- MODULE TracePatches ----------------------------
EXTENDS Patches, TraceBase
VARIABLE shift                                          \* where labels are read, the same throughout an execution
vars == <<l, shift>>
Src == [d |-> E.d, v |-> E.v]
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
(* position observed in thousandths of a pixel; patches without their mean in thousandths, times the number of elements *)
TPatches == /\ IsEvent("Patches") /\ UNCHANGED shift /\ E.kept
            /\ \E p \in {Patches(Src, E.s, E.pw, E.ph)}, q \in {TLCEval(Positions(Src, E.pw, E.ph))} :
               /\ E.td = p.d /\ Len(E.pos) = Len(q) /\ \A k \in DOMAIN q : Near(E.pos[k], 1000 * q[k], 5)
               /\ IF E.sub THEN \A c \in {Centred(p)} : Len(E.t) = Len(c.v) /\ \A k \in DOMAIN c.v : Near(E.t[k], 1000 * c.v[k], 100)
                  ELSE E.t = p.v
TLabels == /\ IsEvent("Labels") /\ UNCHANGED shift
           /\ \E L \in {TLCEval(Labels(Src, E.s, shift))} : E.labels = L /\ E.weights = Weights(L, E.ignored)
TBegin == IsEvent("Begin") /\ UNCHANGED shift
TNext == TBegin \/ TPatches \/ TLabels
TSpec == l = 1 /\ shift \in 0..1 /\ [][TNext]_vars
=============================================================================

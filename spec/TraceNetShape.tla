--------------------------- MODULE TraceNetShape ---------------------------
EXTENDS NetShape, TraceBase
vars == <<pool, inNet, l>>
TBegin == IsEvent("Begin") /\ Pool([i \in DOMAIN E.pool |-> [E.pool[i] EXCEPT !.con = [k \in DOMAIN @ |-> [t |-> @[k][1], b |-> @[k][2]]]]])
(* completeness is reported after every step *)
Ans == E.complete = Complete'
TNext == TBegin \/ (/\ \/ IsEvent("Add") /\ (IF E.ok THEN Add(E.i) ELSE AddRefused(E.i))
                       \/ IsEvent("Unname") /\ Unname(E.i)
                       \/ IsEvent("Unlayer") /\ Unlayer(E.i)
                       \/ IsEvent("Layer") /\ Layer(E.i)
                       \/ IsEvent("Mark") /\ Mark(E.i, E.a, E.o)
                       \/ IsEvent("Point") /\ Point(E.i, E.k, E.t, E.b)
                    /\ Ans)
TSpec == Init /\ l = 1 /\ [][TNext]_vars
=============================================================================

--------------------------- MODULE TraceGradCheck ---------------------------
EXTENDS GradCheck, TraceBase
VARIABLE x
(* after every operation: all weights and, once computed, nothing else has changed *)
Weights(n) == [i \in 1..Len(n) |-> [j \in 1..Len(n[i].t) |-> [e \in 1..Len(n[i].t[j]) |-> n[i].t[j][e].w]]]
SameShape == Len(E.w) = Len(net')
Observed == SameShape /\ E.w = Weights(net')
TBegin == IsEvent("Begin") /\ net' = <<>> /\ rep' = [kind |-> "none"]
Op ==
  \/ IsEvent("Build") /\ Build(E.n)
  \/ IsEvent("W") /\ SetWeight(E.i, E.j, E.x, E.v)
  \/ IsEvent("K") /\ SetClaim(E.i, E.j, E.x, E.v)
  \/ IsEvent("All") /\ CheckAll(E.skip, E.fatal) /\ rep'.ended = E.ended
       /\ E.okay = <<rep'.r.okay, rep'.r.all>> /\ E.tolerable = <<rep'.r.tolerable, rep'.r.all>> /\ E.failed = <<rep'.r.failed, rep'.r.all>>
  \/ IsEvent("Layer") /\ CheckLayer(E.i, E.j) /\ rep'.passed = E.passed
TNext == (TBegin \/ (Op /\ Observed)) /\ UNCHANGED x
TSpec == Init /\ l = 1 /\ x = 0 /\ [][TNext]_<<net, rep, l, x>>
=============================================================================

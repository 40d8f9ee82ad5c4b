---------------------------- MODULE TraceStreams ----------------------------
EXTENDS Streams, TraceBase
VARIABLE cls
vars == <<cat, tgt, ret, l, cls>>
A(n) == E.a[n]
Observed == \A i \in Targets : E.d[i] = tgt'[i].d /\ E.v[i] = tgt'[i].v
TBegin == IsEvent("Begin") /\ cat' = <<>> /\ tgt' = [i \in Targets |-> [d |-> <<0,0,0,0>>, v |-> <<>>]] /\ ret' = TRUE /\ cls' = E.cls
(* each stream's own account of what it holds, including one index beyond its end *)
Open == /\ IsEvent("Open") /\ UNCHANGED <<cat, tgt, ret>>
        /\ \A s \in DOMAIN E.streams : E.streams[s] = [k \in 1..(Len(cat) + 2) |-> Shape(k - 1)] 
        /\ \A s \in DOMAIN E.counts : E.counts[s] = Len(cat)
Op ==
  \/ IsEvent("Tensor") /\ AddTensor(E.d, E.v)
  \/ IsEvent("Image") /\ AddImage(E.w, E.h, E.ch, cls, E.pix, E.lab)
  \/ IsEvent("Mismatch") /\ UNCHANGED svars
  \/ IsEvent("Target") /\ SetTarget(A(1), <<A(2), A(3), A(4), A(5)>>, [e \in 1..(A(2) * A(3) * A(4) * A(5)) |-> A(6)]) /\ Observed
  \/ IsEvent("Copy") /\ Copy(A(2), A(3), A(4), A(5)) /\ E.r = ret' /\ Observed
TNext == TBegin \/ ((Open \/ Op) /\ UNCHANGED cls)
TSpec == Init /\ l = 1 /\ cls = 0 /\ [][TNext]_vars
=============================================================================

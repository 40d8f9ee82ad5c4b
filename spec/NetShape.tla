------------------------------ MODULE NetShape ------------------------------
(* When is a network complete?  A pool of nodes, some of them added to the network.
   pool[i] = [inp, out, named, layer: BOOLEAN, nb: number of output buffers, con: sequence of [t: pool index or 0 (null), b: buffer from 1]] *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES pool, inNet
svars == <<pool, inNet>>
Init == pool = <<>> /\ inNet = {}
Good(i) == /\ pool[i].layer /\ pool[i].named /\ ~(pool[i].inp /\ pool[i].out)
           /\ \A k \in DOMAIN pool[i].con : LET c == pool[i].con[k] IN c.t \in inNet /\ c.b \in 1..pool[c.t].nb
Complete == /\ \E i \in inNet : pool[i].inp
            /\ \E i \in inNet : pool[i].out
            /\ \A i \in inNet : Good(i)
Pool(p) == pool' = p /\ inNet' = {}
Add(i) == i \in DOMAIN pool /\ i \notin inNet /\ pool[i].layer /\ inNet' = inNet \cup {i} /\ pool' = [pool EXCEPT ![i].named = TRUE]
(* adding a node without a layer is refused *)
AddRefused(i) == i \in DOMAIN pool /\ ~pool[i].layer /\ UNCHANGED svars
Unname(i) == i \in inNet /\ pool' = [pool EXCEPT ![i].named = FALSE] /\ UNCHANGED inNet
Unlayer(i) == i \in DOMAIN pool /\ pool' = [pool EXCEPT ![i].layer = FALSE] /\ UNCHANGED inNet
Layer(i) == i \in DOMAIN pool /\ pool' = [pool EXCEPT ![i].layer = TRUE] /\ UNCHANGED inNet
Mark(i, a, o) == i \in DOMAIN pool /\ pool' = [pool EXCEPT ![i].inp = a, ![i].out = o] /\ UNCHANGED inNet
Point(i, k, t, b) == i \in DOMAIN pool /\ k \in DOMAIN pool[i].con /\ pool' = [pool EXCEPT ![i].con[k] = [t |-> t, b |-> b]] /\ UNCHANGED inNet
=============================================================================

---------------------------- MODULE TraceSampler ----------------------------
EXTENDS Sampler, TraceBase
VARIABLE ord
vars == <<n, m, b, p, testing, rest, tpos, out, ord, l>>
NoOrd == [prev |-> <<>>, cur |-> <<>>]
TBegin == IsEvent("Begin") /\ Configure(E.n, E.m, E.b, E.p) /\ ord' = NoOrd
SetMode == IsEvent("Mode") /\ Mode(E.t) /\ UNCHANGED ord
(* image, label and position information of a slot carry the same sample's mark; a filler slot's contents do not matter *)
Marks(s, k) == /\ s[1] # 0 => E.im[k] = 1000 * s[1] + s[2] /\ E.lb[k] = E.im[k] /\ E.he[k] = E.im[k]
FF == /\ IsEvent("FF")
      /\ IF testing THEN TestBatch ELSE TrainBatch([k \in 1..b |-> E.im[k] - 1000])
      /\ Len(E.im) = b
      /\ \A k \in 1..b : Marks(out'[k], k) /\ WeightsRight(out'[k], E.w[k], E.c)
      /\ IF testing THEN ord' = ord ELSE LET q == [k \in 1..b |-> E.im[k] - 1000] IN (Shuffled(ord, q) = TRUE) /\ ord' = Orders(ord, q)
      /\ ~testing => E.twin = E.im       \* a second layer with the same seed that is never tested delivers the same
Init == n = 0 /\ m = 0 /\ b = 1 /\ p = 0 /\ testing = FALSE /\ rest = {} /\ tpos = 0 /\ out = <<>> /\ ord = NoOrd
TNext == TBegin \/ SetMode \/ FF
TSpec == Init /\ l = 1 /\ [][TNext]_vars
=============================================================================

------------------------------ MODULE Sampler ------------------------------
(* Delivery of training and testing samples in batches: a random permutation per training pass, testing samples in order
   followed by filler of weight zero, loss sampling. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES n, m, b,      \* training samples, testing samples, batch size
          p,            \* loss sampling: 0 none, 1 may zero weights, 2 zeroes all of them
          testing, rest, tpos,
          out           \* the batch delivered last: <<set (1 training, 2 testing, 0 filler), sample>>
svars == <<n, m, b, p, testing, rest, tpos, out>>
All == 0..(n - 1)
Configure(nn, mm, bb, pp) == n' = nn /\ m' = mm /\ b' = bb /\ p' = pp /\ testing' = FALSE /\ rest' = 0..(nn - 1) /\ tpos' = 0 /\ out' = <<>>
Mode(t) == /\ testing' = t /\ tpos' = (IF t /\ ~testing THEN 0 ELSE tpos) /\ UNCHANGED <<n, m, b, p, rest, out>>
(* what can remain of a pass after delivering the samples q one by one; empty set: not possible *)
RECURSIVE After(_, _)
After(r, q) == IF q = <<>> THEN {r} ELSE IF Head(q) \notin r THEN {} ELSE LET x == r \ {Head(q)} IN After(IF x = {} THEN All ELSE x, Tail(q))
TrainBatch(q) == ~testing /\ Len(q) = b /\ After(rest, q) # {} /\ rest' = (CHOOSE r \in After(rest, q) : TRUE)
                 /\ out' = [k \in 1..b |-> <<1, q[k]>>] /\ UNCHANGED <<n, m, b, p, testing, tpos>>
TestBatch == testing /\ m > 0 /\ out' = [k \in 1..b |-> IF tpos + k <= m THEN <<2, tpos + k - 1>> ELSE <<0, 0>>]
             /\ tpos' = (IF tpos + b <= m THEN tpos + b ELSE m) /\ UNCHANGED <<n, m, b, p, testing, rest>>
(* the orders of the pass under way and of the one before: passes over many samples hardly ever have the same *)
RECURSIVE Orders(_, _)
Orders(o, q) == IF q = <<>> THEN o ELSE LET x == IF Len(o.cur) = n THEN [prev |-> o.cur, cur |-> <<>>] ELSE o IN Orders([x EXCEPT !.cur = Append(@, Head(q))], Tail(q))
RECURSIVE Shuffled(_, _)
Shuffled(o, q) == IF q = <<>> THEN TRUE ELSE LET x == Orders(o, <<Head(q)>>) IN (n >= 10 /\ Len(x.cur) = n => x.cur # x.prev) /\ Shuffled(x, Tail(q))
(* weights of a slot: w[1] elements keep their weight, w[2] were zeroed, w[3] are anything else; c elements *)
WeightsRight(slot, w, c) ==
  /\ w[3] = 0 /\ w[1] + w[2] = c
  /\ slot[1] = 0 => w[1] = 0
  /\ slot[1] = 2 => w[2] = 0
  /\ slot[1] = 1 /\ p = 0 => w[2] = 0
  /\ slot[1] = 1 /\ p = 2 => w[1] = 0
=============================================================================

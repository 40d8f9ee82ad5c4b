----------------------------- MODULE GradCheck -----------------------------
(* The numerical check of gradients.  A network is a sequence of layers [safe |-> whether its gradient may be checked, t |-> its
   parameter tensors]; a parameter is [w |-> value in quarters, g, q, c |-> coefficients of the loss, k |-> the derivative the
   layer claims, in 1/64].  The loss is the sum over all parameters of g w + q w^2 + c w w', w' the next one of its tensor. *)
EXTENDS Integers, Sequences
VARIABLES net, rep          \* rep: the last report
gvars == <<net, rep>>
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
(* derivative of the loss by element e of tensor t, in quarters *)
Slope(t, e) == 4 * t[e].g + 2 * t[e].q * t[e].w + (IF e < Len(t) THEN t[e].c * t[e + 1].w ELSE 0) + (IF e > 1 THEN t[e - 1].c * t[e - 1].w ELSE 0)
(* the loss, in 1/16 *)
Loss(n) == Sum([i \in 1..Len(n) |-> Sum([j \in 1..Len(n[i].t) |-> LET t == n[i].t[j] IN
             Sum([e \in 1..Len(t) |-> 4 * t[e].g * t[e].w + t[e].q * t[e].w * t[e].w + (IF e < Len(t) THEN t[e].c * t[e].w * t[e + 1].w ELSE 0)], Len(t))], Len(n[i].t))], Len(n))
(* numeric / claimed derivative lies within m thousandths of one; nothing can be said against 0 / 0 *)
Within(t, e, m) == LET s == 16 * Slope(t, e)  k == t[e].k IN
  IF k = 0 THEN s = 0 ELSE (IF k > 0 THEN s - k ELSE k - s) * 1000 \in (-(m * Abs(k)))..(m * Abs(k))
Verdict(t, e) == IF Within(t, e, 20) THEN "okay" ELSE IF Within(t, e, 200) THEN "tolerable" ELSE "failed"
(* the verdict does not hinge on rounding: the ratio stays away from the limits, and from zero by zero *)
Untouched(t, e) == t[e].g = 0 /\ t[e].q = 0 /\ (t[e].c = 0 \/ e = Len(t)) /\ (e = 1 \/ t[e - 1].c = 0)
Certain(t, e) == /\ \A m \in {20, 200} : Within(t, e, m - 8) <=> Within(t, e, m + 8)
                 /\ IF t[e].k = 0 \/ Slope(t, e) = 0 THEN Abs(t[e].k) >= 16 \/ Abs(Slope(t, e)) >= 1 \/ Untouched(t, e) ELSE Abs(Slope(t, e)) >= 1 /\ Abs(t[e].k) >= 8
(* every (skip+1)-th parameter of every tensor, beginning with the first *)
Tested(t, skip) == {e \in 1..Len(t) : (e - 1) % (skip + 1) = 0}
Count(n, skip, v) == Sum([i \in 1..Len(n) |-> IF ~n[i].safe THEN 0 ELSE Sum([j \in 1..Len(n[i].t) |->
  LET t == n[i].t[j]  f == [e \in 1..Len(t) |-> IF e \in Tested(t, skip) /\ v \in {"all", Verdict(t, e)} THEN 1 ELSE 0] IN Sum(f, Len(t))], Len(n[i].t))], Len(n))
Report(n, skip) == [okay |-> Count(n, skip, "okay"), tolerable |-> Count(n, skip, "tolerable"), failed |-> Count(n, skip, "failed"), all |-> Count(n, skip, "all")]

Init == net = <<>> /\ rep = [kind |-> "none"]
Build(n) == net' = n /\ rep' = [kind |-> "none"]
SetWeight(i, j, e, w) == net' = [net EXCEPT ![i].t[j][e].w = w] /\ rep' = [kind |-> "none"]
SetClaim(i, j, e, k) == net' = [net EXCEPT ![i].t[j][e].k = k] /\ rep' = [kind |-> "none"]
(* the check of a network: it changes nothing, and ends the program if asked to and something failed *)
CheckAll(skip, fatal) ==
  LET r == Report(net, skip) IN UNCHANGED net /\ rep' = [kind |-> "all", r |-> r, ended |-> fatal /\ r.failed > 0]
(* the check of one tensor of one layer: it passes if more than 85 per cent of the derivatives are within 20 per cent, or all *)
CheckLayer(i, j) ==
  LET t == net[i].t[j]  f == [e \in 1..Len(t) |-> IF Verdict(t, e) # "failed" THEN 1 ELSE 0]  good == Sum(f, Len(t)) IN
  UNCHANGED net /\ rep' = [kind |-> "layer", passed |-> ~net[i].safe \/ good = Len(t) \/ 100 * good > 85 * Len(t)]
=============================================================================

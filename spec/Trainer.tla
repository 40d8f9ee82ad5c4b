------------------------------ MODULE Trainer ------------------------------
(* Training: epochs of iterations of sequential batches, the weight update rules, testing, and what is recorded about
   them. Weights are integers in units of 1/U; everything that influences them is a fraction with a small denominator:
   learning rate a/8, local learning rate e/4, L1 c/8, L2 d/8, momentum m/4, QuickProp's mu in quarters, annealing
   gamma gn/2 with exponent x, loss sampling probability q/4. S samples (label pixels times batch) per pass.
   A weight may be off by Tol units after one update, as 32 bit floats and integer division round differently; the next
   update starts from the weight observed. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS U, Tol
VARIABLES cfg,          \* settings
          W, sg,        \* weights in units, their signs
          last, slope,  \* last step (as the method stores it) in units; last slope, in units of 1/(16 S sb)
          first,        \* no update since the last reset
          epoch, st, agg
tvars == <<cfg, W, sg, last, slope, first, epoch, st, agg>>
Idle == [k |-> "idle", left |-> 0, snap |-> FALSE, it |-> 0, b |-> 0, stage |-> "none", todo |-> {}, acc |-> <<>>, pend |-> FALSE, iters |-> 0, loss |-> 0, rate |-> 0]
Abs(v) == IF v < 0 THEN -v ELSE v
Sgn(v) == IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0
DivZ(n, d) == IF d < 0 THEN (IF n <= 0 THEN (-n) \div (-d) ELSE -(n \div (-d))) ELSE IF n >= 0 THEN n \div d ELSE -((-n) \div d)
RECURSIVE Pow(_, _)
Pow(v, k) == IF k = 0 THEN 1 ELSE v * Pow(v, k - 1)
Layers == 1..Len(cfg.lay)
RECURSIVE OffAt(_, _)
OffAt(lay, k) == IF k = 1 THEN 0 ELSE OffAt(lay, k - 1) + lay[k - 1].n
Count(lay) == OffAt(lay, Len(lay) + 1)
LayerOf(j) == CHOOSE k \in Layers : OffAt(cfg.lay, k) < j /\ j <= OffAt(cfg.lay, k + 1)
Iters == ((IF cfg.iters = 0 THEN cfg.trainn ELSE cfg.iters) * cfg.etr) \div 4
TestIters == (((cfg.testn \div cfg.batch) + 1) * cfg.tr) \div 4
NLoss == cfg.nloss
Zeroes(n) == [j \in 1..n |-> 0]
Configure(c, w, s) ==
  /\ cfg' = c /\ W' = w /\ sg' = s /\ last' = Zeroes(Len(w)) /\ slope' = Zeroes(Len(w)) /\ first' = TRUE /\ epoch' = 0 /\ st' = Idle
  /\ agg' = [state |-> "stopped", ep |-> -1, it |-> 0, w |-> 0, tr |-> FALSE, ltr |-> 0, lte |-> 0, c |-> 0, ab |-> 0, qb |-> 0, qu |-> 0, qp |-> FALSE, px |-> 0, fr |-> 0, th |-> FALSE]

(* ------------------------------------------------------------------ update rules *)
(* learning rate times the integer v, at iteration it since the start *)
Rated(v, it) == DivZ(v * cfg.a * Pow(2, cfg.x), 8 * Pow(2 + cfg.gn * it, cfg.x))
GDStep(j, g, it) ==
  LET e == cfg.lay[LayerOf(j)].e
      x8 == (cfg.q * g * 2 * U) \div (cfg.s * cfg.sb) + cfg.d * W[j] + cfg.c * sg[j] * U
  IN  DivZ(Rated(DivZ(x8 * e, 4), it), 8) + DivZ(cfg.m * last[j], 4)
QSlope(j, g) == cfg.lay[LayerOf(j)].e * g * cfg.q
QInUnits(v) == DivZ(v * U, 16 * cfg.s * cfg.sb)
QStep(j, g, it) ==
  LET s == QSlope(j, g) ls == slope[j]
      quad == IF 4 * Abs(s) < cfg.mu * Abs(ls - s) /\ Sgn(last[j]) # Sgn(ls - s) THEN DivZ(last[j] * s, ls - s) ELSE DivZ(cfg.mu * last[j], 4)
  IN  IF first THEN -DivZ(QInUnits(s), 10) ELSE IF s = 0 THEN 0 ELSE IF Sgn(s) = Sgn(ls) THEN quad - Rated(QInUnits(s), it) ELSE quad
Target(j, g, it) == IF cfg.quick THEN W[j] + QStep(j, g, it) ELSE W[j] - GDStep(j, g, it)
(* the update of an iteration becomes visible with the next observation of the weights *)
Observe(w, s) ==
  IF st.pend
  THEN /\ Len(w) = Len(W) /\ \A j \in DOMAIN W : Abs(w[j] - Target(j, st.acc[j], st.rate)) <= Tol
       /\ W' = w /\ sg' = s /\ first' = FALSE
       /\ last' = [j \in DOMAIN W |-> IF cfg.quick THEN w[j] - W[j] ELSE W[j] - w[j]]
       /\ slope' = [j \in DOMAIN W |-> IF cfg.quick THEN QSlope(j, st.acc[j]) ELSE 0]
  ELSE w = W /\ s = sg /\ UNCHANGED <<W, sg, first, last, slope>>

(* ------------------------------------------------------------------ course of an epoch, of a test *)
Recording == agg.state = "recording"
StatStage(s) == IF cfg.nstat > 0 /\ (s.k = "test" \/ cfg.sdt) THEN [s EXCEPT !.stage = "update", !.b = 1] ELSE [s EXCEPT !.stage = "done"]
(* after the statistics of an epoch or a test: report, continue or end *)
Continue(s, ep) ==
  IF s.k = "test" \/ s.left = 1 THEN [s EXCEPT !.stage = "end"]
  ELSE [s EXCEPT !.left = s.left - 1, !.it = 0, !.b = 0, !.stage = "ff"]
EpochEnd(s, a) ==      \* st', epoch', agg' at the end of an epoch or test in state s with aggregator a
  IF s.stage # "done" THEN st' = s /\ agg' = a /\ UNCHANGED epoch
  ELSE IF s.k = "test" THEN st' = [s EXCEPT !.stage = "end"] /\ agg' = a /\ UNCHANGED epoch
  ELSE /\ epoch' = epoch + 1
       /\ IF s.snap /\ a.state = "recording" THEN st' = [s EXCEPT !.stage = "rep"] /\ agg' = a
          ELSE LET n == Continue(s, epoch + 1) IN st' = n /\ agg' = IF n.stage = "ff" THEN [a EXCEPT !.ep = epoch + 1, !.w = IF s.snap THEN Len(W) ELSE a.w] ELSE [a EXCEPT !.w = IF s.snap THEN Len(W) ELSE a.w]
(* the label pixels and samples an epoch or a test went through are recorded at its end *)
Throughput(s, a) ==
  LET k == s.iters * (IF s.k = "train" THEN cfg.sb ELSE 1)
  IN  IF Recording THEN [a EXCEPT !.px = @ + cfg.s * k, !.fr = @ + cfg.batch * k, !.th = TRUE] ELSE a
(* end of an iteration: the accumulated loss is recorded *)
IterEnd(s) ==
  LET qc == IF cfg.quick /\ ~first THEN Cardinality({j \in DOMAIN W : s.acc[j] = 0}) ELSE 0
      \* the quadratic step applies, also if the sign of a last step below the resolution is not known
      quad == IF ~cfg.quick \/ first THEN {} ELSE {j \in DOMAIN W : s.acc[j] # 0 /\ LET v == QSlope(j, s.acc[j]) IN 4 * Abs(v) < cfg.mu * Abs(slope[j] - v)
                 /\ (last[j] = 0 \/ Sgn(last[j]) # Sgn(slope[j] - v))}
      open == {j \in quad : last[j] = 0}
      a1 == IF ~Recording THEN agg ELSE [agg EXCEPT !.it = @ + 1]
      a2 == IF ~Recording THEN a1 ELSE IF s.k = "train" THEN [a1 EXCEPT !.ltr = @ + s.loss] ELSE [a1 EXCEPT !.lte = @ + s.loss]
      a3 == IF Recording /\ s.k = "train" /\ cfg.quick THEN [a2 EXCEPT !.qp = TRUE, !.c = @ + qc, !.ab = @ + (IF first THEN 0 ELSE Len(W) - qc), !.qb = @ + Cardinality(quad \ open), !.qu = @ + Cardinality(open)] ELSE a2
      n == [s EXCEPT !.it = @ + 1, !.b = 0, !.loss = 0]
  IN  IF n.it < n.iters THEN st' = [n EXCEPT !.stage = "ff"] /\ agg' = a3 /\ UNCHANGED epoch
      ELSE EpochEnd(StatStage(n), Throughput(n, a3))
StartTrain(n, snap) ==
  /\ st.k = "idle" /\ n > 0 /\ Iters > 0
  /\ st' = [Idle EXCEPT !.k = "train", !.left = n, !.snap = snap, !.stage = "ff", !.iters = Iters, !.acc = Zeroes(Len(W))]
  /\ agg' = [agg EXCEPT !.w = Len(W), !.tr = TRUE, !.ep = epoch]
  /\ UNCHANGED <<cfg, W, sg, last, slope, first, epoch>>
StartTest ==
  /\ st.k = "idle"
  /\ LET s == [Idle EXCEPT !.k = "test", !.iters = TestIters, !.stage = "ff"]
     IN  LET a == [agg EXCEPT !.w = Len(W), !.tr = FALSE]
         IN  IF TestIters > 0 THEN EpochEnd(s, a) ELSE EpochEnd(StatStage(s), Throughput(s, a))
  /\ UNCHANGED <<cfg, W, sg, last, slope, first>>
(* a forward pass; what the layers see: the network's testing flag, the training layers' mode, the statistics layers enabled *)
FFSees(net, modes, enabled) ==
  /\ net = (st.k = "test") /\ \A i \in DOMAIN modes : modes[i] = (st.k = "test")
  /\ \A i \in DOMAIN enabled : enabled[i] = (st.k = "test" \/ cfg.sdt)
FF(w, s) ==
  /\ st.stage = "ff" /\ Observe(w, s)
  /\ st' = [st EXCEPT !.stage = "loss", !.todo = 1..NLoss, !.pend = FALSE, !.acc = IF st.b = 0 THEN Zeroes(Len(W)) ELSE @]
  /\ UNCHANGED <<cfg, epoch, agg>>
Loss(i, v) ==
  /\ st.stage = "loss" /\ i \in st.todo
  /\ LET s == [st EXCEPT !.todo = @ \ {i}, !.loss = @ + v]
     IN  IF s.todo # {} THEN st' = s /\ UNCHANGED <<agg, epoch>>
         ELSE IF st.k = "train" THEN st' = [s EXCEPT !.stage = "bp", !.todo = Layers] /\ UNCHANGED <<agg, epoch>>
         ELSE IterEnd(s)
  /\ UNCHANGED <<cfg, W, sg, last, slope, first>>
BP(k, g) ==
  /\ st.stage = "bp" /\ k \in st.todo /\ Len(g) = cfg.lay[k].n
  /\ LET o == OffAt(cfg.lay, k)
         s == [st EXCEPT !.todo = @ \ {k}, !.acc = [j \in DOMAIN W |-> IF j > o /\ j <= o + Len(g) THEN st.acc[j] + g[j - o] ELSE st.acc[j]]]
     IN  IF s.todo # {} THEN st' = s /\ UNCHANGED <<agg, epoch>>
         ELSE IF st.b + 1 < cfg.sb THEN st' = [s EXCEPT !.b = @ + 1, !.stage = "ff"] /\ UNCHANGED <<agg, epoch>>
         ELSE IterEnd([s EXCEPT !.pend = TRUE, !.rate = epoch * st.iters + st.it])
  /\ UNCHANGED <<cfg, W, sg, last, slope, first>>
UpdateStat(i) == st.stage = "update" /\ i = st.b /\ st' = [st EXCEPT !.stage = "print"] /\ UNCHANGED <<cfg, W, sg, last, slope, first, epoch, agg>>
(* a statistic is printed together with the epoch it belongs to *)
PrintStat(i, tr, ep) ==
  /\ st.stage = "print" /\ i = st.b /\ tr = (st.k = "train") /\ ep = epoch
  /\ IF i < cfg.nstat THEN st' = [st EXCEPT !.stage = "update", !.b = @ + 1] /\ UNCHANGED <<agg, epoch>> ELSE EpochEnd([st EXCEPT !.stage = "done"], agg)
  /\ UNCHANGED <<cfg, W, sg, last, slope, first>>
Cleared(a) == [a EXCEPT !.it = 0, !.w = 0, !.ltr = 0, !.lte = 0, !.c = 0, !.ab = 0, !.qb = 0, !.qu = 0, !.qp = FALSE, !.px = 0, !.fr = 0, !.th = FALSE]
(* the report of a snapshot *)
Snapshot ==
  /\ st.stage = "rep"
  /\ LET n == Continue(st, epoch) IN st' = n /\ agg' = [Cleared(agg) EXCEPT !.w = Len(W), !.ep = IF n.stage = "ff" THEN epoch ELSE agg.ep]
  /\ UNCHANGED <<cfg, W, sg, last, slope, first, epoch>>
End(w, s) ==
  /\ st.stage = "end" /\ Observe(w, s)
  /\ st' = Idle /\ UNCHANGED <<cfg, epoch, agg>>
(* ------------------------------------------------------------------ commands between *)
ResetTrainer == st.k = "idle" /\ last' = Zeroes(Len(W)) /\ slope' = Zeroes(Len(W)) /\ first' = TRUE /\ UNCHANGED <<cfg, W, sg, epoch, st, agg>>
SetEpoch(n) == st.k = "idle" /\ epoch' = n /\ last' = Zeroes(Len(W)) /\ slope' = Zeroes(Len(W)) /\ first' = TRUE /\ UNCHANGED <<cfg, W, sg, st, agg>>
SetStats(b) == st.k = "idle" /\ cfg' = [cfg EXCEPT !.sdt = b] /\ UNCHANGED <<W, sg, last, slope, first, epoch, st, agg>>
AggTo(a) == st.k = "idle" /\ agg' = a /\ UNCHANGED <<cfg, W, sg, last, slope, first, epoch, st>>
StartRec == AggTo([agg EXCEPT !.state = "recording"])
StopRec == AggTo([agg EXCEPT !.state = "stopped"])
ResetStats == AggTo(IF Recording THEN agg ELSE Cleared(agg))
Generate == AggTo(agg)
(* a report r: average loss in units of 1/4096 per iteration, QuickProp percentages in 1/1000, throughput times the time
   recorded (if any) *)
ReportRight(r) ==
  /\ r.ep = (IF agg.ep = -1 THEN r.ep ELSE agg.ep) /\ r.it = agg.it /\ r.w = agg.w /\ r.tr = agg.tr
  /\ r.q2 /\ r.lnull = (agg.it = 0)
  /\ agg.it > 0 => LET k == agg.it * cfg.q * cfg.s * cfg.sb
                   IN  Abs(r.l * k - 4096 * (4 * agg.ltr + cfg.q * cfg.sb * agg.lte)) <= 2 * k
  /\ r.t2 /\ r.tnull = ~agg.th /\ (agg.th /\ r.timed => r.px = agg.px /\ r.fr = agg.fr)
  /\ r.qnull = ~(agg.it > 0 /\ agg.w > 0 /\ agg.qp)
  /\ ~r.qnull => /\ Abs(r.c * agg.it * agg.w - 100000 * agg.c) <= agg.it * agg.w
                 /\ Abs((r.a + r.b) * agg.it * agg.w - 100000 * agg.ab) <= 2 * agg.it * agg.w
                 /\ r.b * agg.it * agg.w >= 100000 * agg.qb - agg.it * agg.w /\ r.b * agg.it * agg.w <= 100000 * (agg.qb + agg.qu) + agg.it * agg.w
                 /\ r.m = 0
=============================================================================

----------------------------- MODULE MCTrainer -----------------------------
EXTENDS Trainer, TLC, Json
CONSTANTS SIM, MaxLen
VARIABLES hist, done, pos     \* done: training passes made; pos: position in the training order
mvars == <<tvars, hist, done, pos>>
R(a, z) == RandomElement(a..z)
(* ---- exhaustive: one weight, gradients depend on the training sample only *)
Confs == [lay : {<<[e |-> 4, n |-> 1]>>}, a : {8}, c : {0}, d : {0}, m : {2}, mu : {7}, gn : {0}, x : {0}, q : {4}, sb : {1, 2}, iters : {1, 2},
          trainn : {3}, testn : {1}, batch : {1}, s : {1}, etr : {4}, tr : {4}, quick : {FALSE}, sdt : BOOLEAN, nloss : {1}, nstat : {0, 1}]
Blank == /\ cfg = [lay |-> <<>>] /\ W = <<>> /\ sg = <<>> /\ last = <<>> /\ slope = <<>> /\ first = TRUE /\ epoch = 0 /\ st = Idle /\ agg = [state |-> "stopped", it |-> 0, ep |-> 0]
MInit == Blank /\ hist = <<>> /\ done = 0 /\ pos = 0
GradAt(k) == <<3, -1, 2>>[(k % 3) + 1]
NewW == IF st.pend THEN [j \in DOMAIN W |-> Target(j, st.acc[j], st.rate)] ELSE W
NewS == IF st.pend THEN [j \in DOMAIN W |-> Sgn(NewW[j])] ELSE sg
Keep == UNCHANGED <<hist, done, pos>>
MNext ==
  \/ cfg.lay = <<>> /\ (\E c \in Confs : Configure(c, <<0>>, <<0>>)) /\ Keep
  \/ cfg.lay # <<>> /\ done + cfg.sb * cfg.iters <= MaxLen /\ (\E n \in 1..2, snap \in BOOLEAN : StartTrain(n, snap)) /\ Keep
  \/ cfg.lay # <<>> /\ agg.it <= 3 /\ StartTest /\ Keep
  \/ cfg.lay # <<>> /\ (StartRec \/ StopRec \/ ResetStats) /\ Keep
  \/ st.k # "idle" /\ FF(NewW, NewS) /\ UNCHANGED <<hist, done>> /\ pos' = IF st.k = "train" THEN pos + 1 ELSE pos
  \/ st.k # "idle" /\ Loss(1, 1) /\ Keep
  \/ st.k # "idle" /\ BP(1, <<GradAt(pos - 1)>>) /\ done' = done + 1 /\ UNCHANGED <<hist, pos>>
  \/ st.k # "idle" /\ (UpdateStat(1) \/ PrintStat(1, st.k = "train", epoch) \/ Snapshot) /\ Keep
  \/ st.k # "idle" /\ End(NewW, NewS) /\ Keep
MSpec == MInit /\ [][MNext]_mvars
(* the parameters after k training passes are those of uninterrupted training with the same settings *)
RECURSIVE Solo(_)
Solo(k) == IF k = 0 THEN <<0, 0>>     \* weight, last step, after k iterations
           ELSE LET s == Solo(k - 1)
                    g == IF cfg.sb = 1 THEN GradAt(k - 1) ELSE GradAt(2 * k - 2) + GradAt(2 * k - 1)
                    step == DivZ(DivZ((4 * g * 2 * U) \div cfg.sb, 8), 1) + DivZ(cfg.m * s[2], 4)
                IN  <<s[1] - step, step>>
SameAsSolo == cfg.lay # <<>> /\ st.k = "idle" => W = <<Solo(done \div cfg.sb)[1]>> /\ last = <<Solo(done \div cfg.sb)[2]>>
EpochCount == cfg.lay # <<>> /\ st.k = "idle" => done = epoch * cfg.iters * cfg.sb
TestsChangeNothing == [][ st.k = "test" => UNCHANGED <<W, last, slope, first, pos, epoch>> ]_mvars
(* with all statistics since the last reset counted while recording: exactly one per iteration *)
IterationsCounted == cfg.lay # <<>> /\ agg.state = "stopped" /\ st.k # "idle" => \A k \in {agg.it} : k >= 0

(* ---- scenarios *)
Rec(op) == hist' = Append(hist, op)
Quiet == UNCHANGED <<tvars, done, pos>>
RECURSIVE LaySizes(_, _)
LaySizes(n, acc) == IF n = 0 THEN acc ELSE LET c == R(1, 2) IN LaySizes(n - 1, acc \o <<R(1, 6), c, R(1, 3)>> \o (IF c = 2 THEN <<R(1, 3)>> ELSE <<>>))
ConfOp(z) ==
  LET quick == R(1, 3) = 1 IN
  <<"Conf", R(1, 1000000), <<1, 2, 4>>[R(1, 3)], IF quick THEN 0 ELSE R(0, 2), IF quick THEN 0 ELSE R(0, 2), R(0, 3), R(5, 8), R(0, 2), R(0, 2), <<2, 4, 4>>[R(1, 3)], <<1, 1, 2, 4>>[R(1, 4)], R(0, 3), R(1, 4), R(0, 5),
    <<1, 2, 4>>[R(1, 3)], R(1, 2), R(1, 2), <<4, 4, 4, 2, 3, 6>>[R(1, 6)], <<4, 4, 4, 0, 1, 2, 3>>[R(1, 7)], IF quick THEN 1 ELSE 0, R(0, 1), R(1, 2), R(0, 2), R(1, 2), R(0, 2)>> \o LaySizes(R(1, 3), <<>>)
ItersOf(o) == ((IF o[12] = 0 THEN o[13] ELSE o[12]) * o[18]) \div 4
Spent == LET RECURSIVE Sum(_) Sum(k) == IF k = 0 THEN 0 ELSE Sum(k - 1) + (IF hist[k][1] = "Train" THEN hist[k][2] ELSE 0) IN Sum(Len(hist)) * ItersOf(hist[1])
SNext ==
  \/ hist = <<>> /\ Quiet /\ \E o \in {ConfOp(0)} : ItersOf(o) > 0 /\ Rec(o)
  \/ hist # <<>> /\ Quiet /\ \E k \in {R(1, 16)} :
       CASE k <= 5 -> \E n \in {R(1, 3)} : IF Spent + n * ItersOf(hist[1]) <= 10 THEN Rec(<<"Train", n, IF R(1, 3) = 1 THEN 0 ELSE 1>>) ELSE Rec(<<"Gen">>)
         [] k \in 6..8 -> Rec(<<"Test">>)
         [] k = 9 -> Rec(<<"Reset">>)
         [] k = 10 -> \E n \in {R(0, 6)} : Rec(<<"SetEpoch", n>>)
         [] k = 11 -> \E n \in {R(0, 1)} : Rec(<<"Stats", n>>)
         [] k \in 12..13 -> Rec(<<"Rec">>)
         [] k = 14 -> Rec(<<"Stop">>)
         [] k = 15 -> Rec(<<"Clear">>)
         [] OTHER -> Rec(<<"Gen">>)
SSpec == MInit /\ [][SNext]_mvars
SimExport == (Len(hist) = MaxLen) => PrintT("@@" \o ToJson(hist))
=============================================================================

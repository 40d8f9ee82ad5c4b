---------------------------- MODULE MCGradCheck ----------------------------
(* (1) All networks of one or two small layers: the slope the verdicts rest on is the difference quotient of the loss, a check
   finds exactly the wrong claims, and checking more parameters never hides a failure. (2) Scenarios for the real code. *)
EXTENDS GradCheck, TLC, Json, SequencesExt
CONSTANTS Deep, MaxLen
VARIABLE hist
mvars == <<net, rep, hist>>
P(wS, gS, qS, cS, kS) == [w : wS, g : gS, q : qS, c : cS, k : kS]
Small == IF Deep THEN P({-2, 3}, {0, 2}, {1}, {0, 1}, {0, 128, 130}) ELSE P({3}, {0, 2}, {1}, {0, 1}, {0, 130})
MInit == hist = <<>> /\ rep = [kind |-> "none"] /\
  \E a \in Small, b \in Small, s \in BOOLEAN : net \in {<<[safe |-> TRUE, t |-> <<<<a, b>>>>]>>, <<[safe |-> s, t |-> <<<<a>>>>], [safe |-> TRUE, t |-> <<<<b, a>>, <<a>>>>]>>}
Right(i, j, e) == 16 * Slope(net[i].t[j], e)
MNext == UNCHANGED hist /\
  \/ \E skip \in 0..2, f \in BOOLEAN : CheckAll(skip, f)
  \/ \E i \in 1..Len(net) : \E j \in 1..Len(net[i].t) : CheckLayer(i, j)
  \/ \E i \in 1..Len(net) : \E j \in 1..Len(net[i].t) : \E e \in 1..Len(net[i].t[j]) : net[i].t[j][e].k # Right(i, j, e) /\ SetClaim(i, j, e, Right(i, j, e))
  \/ \E i \in 1..Len(net) : \E j \in 1..Len(net[i].t) : \E e \in 1..Len(net[i].t[j]) : net[i].t[j][e].w < 1 /\ SetWeight(i, j, e, 1)
MSpec == MInit /\ [][MNext]_mvars
(* central difference quotient with steps of a quarter: exact, the loss is quadratic *)
SlopeIsQuotient == \A i \in 1..Len(net) : \A j \in 1..Len(net[i].t) : \A e \in 1..Len(net[i].t[j]) :
  Loss([net EXCEPT ![i].t[j][e].w = @ + 1]) - Loss([net EXCEPT ![i].t[j][e].w = @ - 1]) = 2 * Slope(net[i].t[j], e)
Partition == \A skip \in 0..2 : LET r == Report(net, skip) IN r.okay + r.tolerable + r.failed = r.all
More == \A skip \in 1..2 : \A v \in {"okay", "tolerable", "failed"} : Count(net, skip, v) <= Count(net, 0, v)
AllRight == (\A i \in 1..Len(net) : \A j \in 1..Len(net[i].t) : \A e \in 1..Len(net[i].t[j]) : net[i].t[j][e].k = Right(i, j, e))
              => (Report(net, 0).okay = Report(net, 0).all /\ (rep.kind = "all" => ~rep.ended) /\ (rep.kind = "layer" => rep.passed))
Kept == [][rep'.kind # "none" => net' = net]_mvars

(* ---- scenarios *)
R(a, b) == RandomElement(a..b)
Rec(op) == hist' = Append(hist, op)
B(z) == IF z THEN 1 ELSE 0
RLen(z) == CASE R(1, 6) = 1 -> R(17, 45) [] R(1, 3) = 1 -> RandomElement({6, 7, 13, 14, 20, 21}) [] OTHER -> R(1, 6)
Flat(t) == FlattenSeq([e \in 1..Len(t) |-> <<t[e].w, t[e].g, t[e].q, t[e].c, t[e].k>>])
FlatT(ts) == FlattenSeq([n \in 1..Len(ts) |-> <<Len(ts[n])>> \o Flat(ts[n])])
FlatL(ls) == FlattenSeq([n \in 1..Len(ls) |-> <<B(ls[n].safe), Len(ls[n].t)>> \o FlatT(ls[n].t)])
(* a claim about a slope of s quarters *)
Claim(s) == LET k == 16 * s IN CASE R(1, 2) = 1 -> k [] R(1, 4) = 1 -> k + k \div 12 [] R(1, 3) = 1 -> k - k \div 7 [] R(1, 3) = 1 -> k + k \div 100 [] R(1, 3) = 1 -> k * 2 [] R(1, 3) = 1 -> -k [] R(1, 3) = 1 -> k \div 2 [] R(1, 3) = 1 -> 0 [] OTHER -> 16 * R(-9, 9)
Params(n, bent) == [e \in 1..n |-> [w |-> R(-4, 4), g |-> IF R(1, 6) = 1 THEN 0 ELSE R(-6, 6), q |-> IF bent THEN R(-3, 3) ELSE 0, c |-> IF R(1, 3) = 1 THEN R(-2, 2) ELSE 0, k |-> 0]]
Claimed(t, wrong) == [e \in 1..Len(t) |-> [t[e] EXCEPT !.k = IF R(1, 8) <= wrong THEN Claim(Slope(t, e)) ELSE 16 * Slope(t, e)]]
Calm(n) == \A i \in 1..Len(n) : \A j \in 1..Len(n[i].t) : \A e \in 1..Len(n[i].t[j]) : Certain(n[i].t[j], e)
(* the loss must stay small enough for single precision *)
Fine(n) == Abs(Loss(n)) <= 16 * 40
RTensor(n, wrong) == LET t == TLCEval(Params(n, R(0, 1) = 1)) IN TLCEval(Claimed(t, wrong))
Mend(t) == TLCEval([e \in 1..Len(t) |-> IF Certain(t, e) THEN t[e] ELSE [t[e] EXCEPT !.k = IF Slope(t, e) = 0 THEN 64 ELSE 16 * Slope(t, e)]])
RLayer(z) == LET wrong == R(0, 8)  n == IF R(1, 9) = 1 THEN 0 ELSE R(1, 3) IN
  TLCEval([safe |-> R(1, 5) > 1, t |-> TLCEval([j \in 1..n |-> TLCEval(Mend(RTensor(RLen(j), IF wrong > 5 THEN 0 ELSE wrong)))])])
RNet(z) == TLCEval([i \in 1..R(1, 4) |-> RLayer(i)])
Has == Len(net) > 0
SNext ==
  \/ (~Has \/ R(1, 4) = 1) /\ \E n \in {RNet(hist)} : Fine(n) /\ Build(n) /\ Rec(<<"Build", Len(n)>> \o FlatL(n))
  \/ Has /\ \E skip \in {RandomElement({0, 0, 1, 2, 3, 7, 999})}, f \in {R(0, 1) = 1} : CheckAll(skip, f) /\ Rec(<<"All", skip, B(f)>>)
  \/ Has /\ \E i \in {R(1, Len(net))} : net[i].t # <<>> /\ \E j \in {R(1, Len(net[i].t))} : CheckLayer(i, j) /\ Rec(<<"Layer", i, j, RandomElement({5, 8, 256})>>)
  \/ Has /\ \E i \in {R(1, Len(net))} : net[i].t # <<>> /\ \E j \in {R(1, Len(net[i].t))} : \E e \in {R(1, Len(net[i].t[j]))} :
       \/ \E w \in {R(-4, 4)} : LET n == [net EXCEPT ![i].t[j][e].w = w] IN Fine(n) /\ (Calm(n) = TRUE) /\ SetWeight(i, j, e, w) /\ Rec(<<"W", i, j, e, w>>)
       \/ \E k \in {Claim(Slope(net[i].t[j], e))} : LET n == [net EXCEPT ![i].t[j][e].k = k] IN (Calm(n) = TRUE) /\ SetClaim(i, j, e, k) /\ Rec(<<"K", i, j, e, k>>)
SSpec == Init /\ hist = <<>> /\ [][SNext]_mvars
SimExport == (TLCGet("level") = MaxLen) => PrintT("@@" \o ToJson(hist))
=============================================================================

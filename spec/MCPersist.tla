----------------------------- MODULE MCPersist -----------------------------
EXTENDS Persist, TLC, Json
CONSTANTS SIM, BIG, MaxLen, MaxRecs, MaxPats
VARIABLES hist, need        \* need: slots whose contents are unspecified and are filled next; np: fill patterns used
mvars == <<recs, pos, sl, ret, hist, need>>
Rnd(S) == IF SIM THEN {RandomElement(S)} ELSE S
Sizes == {1, 2, 3, 7, 60, 250, 505, 1007, 1008, 1015, 1016, 1017, 1023, 1024, 1025, 1033}
BigSizes == {1, 900, 1007, 1016, 2040, 4096, 16384, 65528, 65535, 65536, 65537, 70001, 131072, 262136, 1048576, 1048577}
BigDims(q) ==
  LET R(a, b) == RandomElement(a..b) IN
  CASE RandomElement(1..4) = 1 -> {<<1, RandomElement(BigSizes), 1, 1>>}
    [] RandomElement(1..4) = 1 -> {<<R(1, 300), R(1, 40), R(1, 5), R(1, 3)>>}
    [] RandomElement(1..4) = 1 -> {<<1, R(200, 700), R(200, 300), 3>>}
    [] OTHER -> {<<R(1, 3), R(1, 80), R(1, 70), R(1, 300)>>}
Dims(q) ==
  IF BIG THEN BigDims(q) ELSE
  IF SIM THEN CASE RandomElement(1..10) = 1 -> {<<0, 0, 0, 0>>}
                [] RandomElement(1..10) <= 3 -> {<<1, RandomElement(Sizes), 1, 1>>}
                [] OTHER -> {<<RandomElement(1..3), RandomElement(1..4), RandomElement(1..5), RandomElement(1..3)>>}
  ELSE {<<1,2,1,1>>, <<1,1,1,2>>, <<0,1,1,1>>, <<1,3,1,1>>}
Rec(op) == hist' = Append(hist, op)
Same(i) == <<sl[i].d[4], sl[i].d[3], sl[i].d[2], sl[i].d[1]>>
Pat(k, n) == [e \in 1..(2 * n) |-> k * 10 + e]
MInit == Init /\ hist = <<>> /\ need = 0
Step ==
  \/ \E i \in Rnd(Slots), d \in Dims(hist) : New(i, d) /\ need' = (IF N(d) > 0 THEN i ELSE 0) /\ Rec(<<"New", i>> \o d)
  \/ \E i \in Rnd(Slots) : Len(recs) < MaxRecs /\ Write(i) /\ need' = 0 /\ Rec(<<"Write", i>>)
  \/ \E i \in Rnd(Slots), m \in Rnd({"seq", "map", "head"}) : Read(i, m) /\ need' = 0 /\ Rec(<<"Read", i, m>>)
  \/ BIG /\ Len(recs) < MaxRecs /\ ~(\E r \in 1..Len(recs) : Hole(recs[r])) /\ \E d \in {RandomElement({<<1, 40000, 27500, 1>>, <<3, 20000, 20000, 1>>, <<1, 1, 1, 1073741824>>, <<1, 1073741825, 1, 1>>})} :
       Huge(d) /\ need' = 0 /\ Rec(<<"Huge">> \o d)
  \/ \E i \in Rnd(Slots) : SIM /\ Read(i, "map") /\ need' = 0 /\ Rec(<<"Read", i, "map">>)
  \/ pos > 0 /\ Rewind /\ need' = 0 /\ Rec(<<"Rewind">>)
  \/ SIM /\ Len(recs) = MaxRecs /\ Truncate /\ need' = 0 /\ Rec(<<"Truncate">>)
  \/ \E i \in Rnd(Slots) : \E d \in Dims(hist) \cup (IF N(sl[i].d) < 100000000 THEN {Same(i)} ELSE {}) : Resize(i, d) /\ need' = (IF ~sl'[i].def THEN i ELSE 0) /\ Rec(<<"Resize", i>> \o d)
  \/ \E i \in Rnd(Slots), j \in Rnd(Slots) : CopyTo(i, j) /\ need' = 0 /\ Rec(<<"CopyTo", i, j>>)
  \/ \E i \in Rnd(Slots), j \in Rnd(Slots) : MoveTo(i, j) /\ need' = 0 /\ Rec(<<"MoveTo", i, j>>)
  \/ \E i \in Rnd(Slots) : Release(i) /\ need' = 0 /\ Rec(<<"Release", i>>)
  \/ \E i \in Rnd(Slots) : Destroy(i) /\ need' = 0 /\ Rec(<<"Destroy", i>>)
  \/ \E i \in Rnd(Slots), j \in Rnd(Slots) : Through(i, j) /\ need' = 0 /\ Rec(<<"Through", i, j>>)
Filling ==
  /\ need # 0 /\ need' = 0
  /\ \E k \in Rnd(1..MaxPats) : Fill(need, IF BIG THEN <<-1>> ELSE IF SIM THEN [e \in 1..(2 * N(sl[need].d)) |-> 0] ELSE Pat(k, N(sl[need].d))) /\ Rec(<<"Fill", need, k + (IF SIM THEN 7 * Len(hist) ELSE 0)>>)
MNext == Filling \/ (need = 0 /\ Step)
MSpec == MInit /\ [][MNext]_mvars
View == <<recs, pos, sl, need>>
Bound == Len(hist) < MaxLen
Export == (need' = 0 /\ ~SIM) => PrintT("@@" \o ToJson(hist'))
SimExport == (SIM /\ Len(hist) = MaxLen) => PrintT("@@" \o ToJson(hist))
(* the property on the model: reading record after record gives back what was written, whatever the modes *)
RoundTrip == [][ (pos' = pos + 1) => \E i \in Slots : sl'[i].d = recs[pos + 1].d /\ (sl'[i].def => sl'[i].v = recs[pos + 1].v) ]_mvars
=============================================================================

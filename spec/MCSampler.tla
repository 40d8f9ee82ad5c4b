----------------------------- MODULE MCSampler -----------------------------
EXTENDS Sampler, TLC, Json
CONSTANTS SIM, MaxLen
VARIABLES hist, cnt      \* cnt: how often each training sample was delivered
mvars == <<n, m, b, p, testing, rest, tpos, out, hist, cnt>>
R(a, z) == RandomElement(a..z)
MInit == n = 0 /\ m = 0 /\ b = 1 /\ p = 0 /\ testing = FALSE /\ rest = {} /\ tpos = 0 /\ out = <<>> /\ hist = <<>> /\ cnt = <<>>
Times(q, i) == Cardinality({k \in DOMAIN q : q[k] = i})
Seqs(k) == [1..k -> All]
Rec(op) == hist' = Append(hist, op)
MNext ==
  \/ n = 0 /\ \E nn \in 1..3, mm \in 0..3, bb \in 1..4 : Configure(nn, mm, bb, 0) /\ cnt' = [i \in 0..(nn - 1) |-> 0] /\ UNCHANGED hist
  \/ n > 0 /\ (\A i \in All : cnt[i] < 5) /\ \E q \in Seqs(b) : TrainBatch(q) /\ cnt' = [i \in All |-> cnt[i] + Times(q, i)] /\ UNCHANGED hist
  \/ n > 0 /\ TestBatch /\ UNCHANGED <<cnt, hist>>
  \/ n > 0 /\ m > 0 /\ \E t \in BOOLEAN : Mode(t) /\ UNCHANGED <<cnt, hist>>
MSpec == MInit /\ [][MNext]_mvars
(* passes are permutations: no sample is ahead of another one by more than one delivery, and equally often at each boundary *)
Even == \A i, j \in DOMAIN cnt : cnt[i] - cnt[j] \in {-1, 0, 1}
Boundary == n > 0 /\ rest = All => \A i, j \in DOMAIN cnt : cnt[i] = cnt[j]
RestIsBehind == n > 0 => \A i, j \in DOMAIN cnt : i \in rest /\ j \notin rest => cnt[j] = cnt[i] + 1
TestPrefix == testing => \A k \in DOMAIN out : out[k][1] = 2 => out[k][2] < m
TestIgnoresTraining == [][ testing /\ testing' => rest' = rest /\ cnt' = cnt ]_mvars

SNext ==
  \/ hist = <<>> /\ UNCHANGED cnt /\ \E nn \in {IF R(1,3) = 1 THEN R(1,3) ELSE R(1, 13)}, mm \in {R(0, 7)}, bb \in {R(1, 6)}, fcn \in {R(0, 1)}, pp \in {R(0, 3)}, w \in {R(1, 30)}, h \in {R(1, 26)}, s \in {R(1, 10000)} :
       Configure(nn, mm, bb, IF pp > 0 /\ fcn = 1 THEN (IF pp = 3 THEN 2 ELSE 1) ELSE 0) /\ Rec(<<"Conf", nn, mm, bb, fcn, pp, w, h, s>>)
  \/ hist # <<>> /\ UNCHANGED <<n, m, b, p, cnt, rest, out>> /\ \E k \in 1..2 : (testing => R(1, 3) < 3) /\ UNCHANGED <<testing, tpos>> /\ Rec(<<"FF">>)
  \/ hist # <<>> /\ m > 0 /\ UNCHANGED cnt /\ \E t \in {R(1, 4) > 1} : Mode(IF t THEN ~testing ELSE testing) /\ Rec(<<"Mode", IF testing' THEN 1 ELSE 0>>)
SSpec == MInit /\ [][SNext]_mvars
SimExport == (Len(hist) = MaxLen) => PrintT("@@" \o ToJson(hist))
=============================================================================

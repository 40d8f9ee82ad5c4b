------------------------------ MODULE MCRepro ------------------------------
(* Interleaved runs: equal descriptions, seeds and training histories give equal parameters however the runs and their tests
   are interleaved; different factory seeds, layers and initializations give different ones. Ranges exist for every chain. *)
EXTENDS Repro, TLC, Json
CONSTANTS MaxOps, MaxRuns
VARIABLES n, hist
mvars == <<runs, n, hist>>
MInit == runs = <<>> /\ n = 0 /\ hist = <<>>
MNext == /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED hist
         /\ \/ Len(runs) < MaxRuns /\ \E f \in 1..2, d \in 1..2 : Open("net", f, d)
            \/ \E i \in DOMAIN runs : Initialize(i) \/ Train(i, 1) \/ Train(i, 2) \/ Test(i) \/ SetEpoch(i, 0)
MSpec == MInit /\ [][MNext]_mvars
Reproducible == \A i, j \in DOMAIN runs : Key(runs[i]) = Key(runs[j]) => runs[i].params = runs[j].params
Drawn(r) == r.hist # <<>> /\ r.hist[Len(r.hist)][1] = "I"
Distinct == \A i, j \in DOMAIN runs : (Drawn(runs[i]) /\ Drawn(runs[j]) /\ runs[i].fseed # runs[j].fseed) => \A k, m \in 1..Layers : runs[i].params[k] # runs[j].params[m]
OwnWeights == \A i \in DOMAIN runs : Drawn(runs[i]) => \A k, m \in 1..Layers : k # m => runs[i].params[k] # runs[i].params[m]
Chains == UNION {[1..k -> {<<1, 1, 1, 2>>, <<1, 3, 2, 4>>, <<2, 2, 2>>, <<2, 3, 1>>, <<3>>}] : k \in 0..3}
ASSUME \A net \in Chains : \A i \in DOMAIN net : net[i][1] = 1 => RangeDiv(net, 3, i) > 0

(* ---- scenarios: a plan, executed by several interleaved runs *)
R(a, z) == RandomElement(a..z)
Plan(z) == LET g == R(1, 12) IN [net |-> g, fs |-> IF g > 9 THEN R(0, 2) ELSE R(1, 100000), ds |-> R(1, 100000), opt |-> R(0, 1), patch |-> R(0, 3)]
RECURSIVE Ops(_, _)
Ops(k, acc) == IF k = 0 THEN acc ELSE Ops(k - 1, Append(acc, LET q == R(1, 8) IN IF q <= 4 THEN <<"T", R(1, 2)>> ELSE IF q <= 6 THEN <<"I", 0>> ELSE <<"S", R(0, 5)>>))
NextOp(i) == LET ops == hist[1][2] done == SelectSeq(hist, LAMBDA x : x[1] # "plan" /\ x[2] = i /\ x[1] # "E" /\ x[1] # "B") IN
             IF Len(done) >= Len(ops) THEN <<"E", i, 0>> ELSE <<ops[Len(done) + 1][1], i, ops[Len(done) + 1][2]>>
SNext == /\ UNCHANGED <<runs, n>>
         /\ IF hist = <<>> THEN \E p \in {Plan(0)}, o \in {<<<<"I", 0>>>> \o Ops(3, <<>>)} : hist' = <<<<"plan", o, p>>>>
            ELSE LET bs == SelectSeq(hist, LAMBDA x : x[1] = "B") p == hist[1][3] IN
                 IF Len(bs) < MaxRuns THEN \E v \in {R(1, 4)} : hist' = Append(hist, <<"B", Len(bs) + 1, p.net, IF v = 1 /\ bs # <<>> THEN p.fs + 1 ELSE p.fs, p.ds, p.opt, p.patch>>)
                 ELSE \E i \in {R(1, MaxRuns)} : hist' = Append(hist, IF R(1, 4) = 1 THEN <<"E", i, 0>> ELSE NextOp(i))
SSpec == MInit /\ [][SNext]_mvars
SimExport == (Len(hist) = MaxOps) => PrintT("@@" \o ToJson(Tail(hist)))
=============================================================================

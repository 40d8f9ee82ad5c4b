----------------------------- MODULE MCNetShape -----------------------------
EXTENDS NetShape, TLC, Json, SequencesExt
CONSTANTS SIM, N, MaxLen
VARIABLE hist
mvars == <<pool, inNet, hist>>
R(a, z) == RandomElement(a..z)
Rec(op) == hist' = Append(hist, op)
MInit == Init /\ hist = <<>>
B(x) == IF x THEN 1 ELSE 0
(* exhaustive: two or three nodes, at most one connection each *)
ConSeqs == {<<>>} \cup {<<[t |-> t, b |-> b]>> : t \in 0..N, b \in 1..2}
Node0 == [inp : BOOLEAN, out : BOOLEAN, named : {FALSE}, layer : {TRUE}, nb : 0..2, con : ConSeqs]
MNext == UNCHANGED hist /\
  \/ Len(pool) < N /\ inNet = {} /\ \E n \in Node0 : Pool(Append(pool, n))
  \/ Len(pool) = N /\ \E i \in 1..N : Add(i) \/ Unname(i) \/ (i \in inNet /\ pool[i].layer /\ Unlayer(i))
MSpec == MInit /\ [][MNext]_mvars
(* completeness closes the network under "reads from", survives no later damage, and needs both ends *)
Src(i) == {pool[i].con[k].t : k \in DOMAIN pool[i].con}
RECURSIVE Closure(_)
Closure(Q) == LET X == Q \cup UNION {Src(i) : i \in Q \ {0}} IN IF X = Q THEN Q ELSE Closure(X)
Closed == Complete => (Closure(inNet) = inNet /\ Cardinality(inNet) >= 2)
Fragile == [][Complete => (Complete' \/ \E i \in inNet' : ~Good(i)')]_mvars

(* scenarios *)
Flat(q) == FoldLeft(LAMBDA a, x : a \o x, <<>>, q)
Words(n) == <<B(n.inp), B(n.out), n.nb, Len(n.con)>> \o Flat([k \in 1..Len(n.con) |-> <<n.con[k].t, n.con[k].b, R(0, 1)>>])
RndT(n) == IF R(1, 12) = 1 THEN 0 ELSE R(1, n)
RndNode(i, n) == LET nb == R(IF i = n THEN 0 ELSE 1, 3) k == IF i = 1 THEN 0 ELSE R(1, 3) IN
   [inp |-> i = 1 \/ R(1, 8) = 1, out |-> i = n \/ R(1, 8) = 1, named |-> FALSE, layer |-> TRUE, nb |-> IF R(1, 10) = 1 THEN 0 ELSE nb,
    con |-> [q \in 1..k |-> [t |-> RndT(n), b |-> IF R(1, 8) = 1 THEN R(1, 4) ELSE 1]]]
RndPool(n) == [i \in 1..n |-> RndNode(i, n)]
SNext ==
  \/ pool = <<>> /\ \E n \in {R(1, N)} : \E p \in {TLCEval(RndPool(n))} : Pool(p) /\ Rec(<<"Pool", n>> \o Flat([i \in 1..n |-> Words(p[i])]))
  \/ \E z \in 1..6 : \E i \in {RandomElement((DOMAIN pool \ inNet) \cup {0})} : i # 0 /\ (Add(i) \/ AddRefused(i)) /\ Rec(<<"Add", i>>)
  \/ R(1, 3) = 1 /\ pool # <<>> /\ \E i \in {R(1, Len(pool))} : Unname(i) /\ Rec(<<"Unname", i>>)
  \/ R(1, 3) = 1 /\ pool # <<>> /\ \E i \in {R(1, Len(pool))} : Unlayer(i) /\ Rec(<<"Unlayer", i>>)
  \/ pool # <<>> /\ \E i \in {RandomElement({j \in DOMAIN pool : ~pool[j].layer} \cup {0})} : i # 0 /\ Layer(i) /\ Rec(<<"Layer", i>>)
  \/ pool # <<>> /\ \E i \in {R(1, Len(pool))}, a \in {R(0, 1)}, o \in {R(0, 1)} : Mark(i, a = 1, o = 1) /\ Rec(<<"Mark", i, a, o>>)
  \/ \E z \in 1..2 : pool # <<>> /\ \E i \in {R(1, Len(pool))} : pool[i].con # <<>> /\ \E k \in {R(1, Len(pool[i].con))}, t \in {RndT(Len(pool))}, b \in {R(1, 2)} : Point(i, k, t, b) /\ Rec(<<"Point", i, k, t, b>>)
SSpec == MInit /\ [][SNext]_mvars
SimExport == (Len(hist) = MaxLen) => PrintT("@@" \o ToJson(hist))
=============================================================================

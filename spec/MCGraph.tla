------------------------------ MODULE MCGraph ------------------------------
EXTENDS Graph, TLC, Json
CONSTANTS SIM, MaxN, MaxLen, MODE   \* MODE: "pass" or "param"
VARIABLE hist
mvars == <<top, order, net, files, hist>>
R(a, z) == RandomElement(a..z)
MInit == Init /\ hist = <<>>
Node(k, in, nb, bp, c, np, ms) == [k |-> k, in |-> in, nb |-> nb, bp |-> bp, c |-> c, np |-> np, ms |-> ms]
Bufs(q) == UNION {{<<i, b>> : b \in 1..top[i].nb} : i \in 1..Len(q)}

(* ---- exhaustive: every graph of up to MaxN nodes, every order of evaluation; one pixel of one sample *)
Num(i, b) == 3 * i + b
Ident(n) == [k \in 1..n |-> k]
Built == order # <<>>
MNext == UNCHANGED hist /\
  \/ top = <<>> /\ Add(Node("in", <<>>, 3, TRUE, <<>>, 0, <<1, 1, 1>>))
  \/ ~Built /\ top # <<>> /\ Len(top) < MaxN /\
      (\/ \E x \in Bufs(top), nb \in 1..2 : x # <<1, 3>> /\ Add(Node("probe", <<x>>, nb, TRUE, [j \in 1..nb |-> <<j + 1>>], 1, <<>>))
       \/ \E x \in Bufs(top), y \in Bufs(top) : (x[1] > 1 \/ y[1] > 1) /\ Add(Node("sum", <<x, y>>, 1, TRUE, <<>>, 0, <<>>))
       \/ \E x \in Bufs(top) : x[1] > 1 /\ Add(Node("loss", <<x, <<1, 2>>, <<1, 3>>>>, 0, TRUE, <<>>, 0, <<>>)))
  \/ ~Built /\ Len(top) = MaxN /\ Build(Ident(MaxN))
  \/ Built /\ net[1].val = Nothing /\ LET f == [i \in Nodes |-> [b \in 1..top[i].nb |-> <<Num(i, b)>>]] IN
        Put(1, [net[1] EXCEPT !.val = f, !.ext = f, !.par = [i \in Nodes |-> IF top[i].np = 0 THEN <<>> ELSE <<[b \in 1..top[i].nb |-> i]>>]])
  \/ Built /\ net[1].val # Nothing /\ ((StartFF(1) /\ DOMAIN net[1].data = {}) \/ EndFF(1) \/ (StartBP(1) /\ DOMAIN net[1].delta = {}) \/ EndBP(1))
  \/ Built /\ \E i \in Nodes : RunFF(1, i) \/ RunBP(1, i)
MSpec == MInit /\ [][MNext]_mvars
(* the denotation of the network, by recursion over the graph *)
RECURSIVE Den(_, _)
Den(i, b) == LET t == top[i] IN
  CASE t.k = "in" -> Num(i, b)
    [] t.k = "probe" -> t.c[b][1] * Den(t.in[1][1], t.in[1][2]) + i
    [] t.k = "sum" -> Den(t.in[1][1], t.in[1][2]) + Den(t.in[2][1], t.in[2][2])
(* gradient by summing over all paths *)
RECURSIVE Grad(_, _)
Grad(i, b) ==
  IF Readers(i, b) = {} THEN Num(i, b) ELSE
  LET q == ListOf(Readers(i, b)) IN Total([k \in 1..Len(q) |-> LET j == q[k][1] IN
    CASE top[j].k = "probe" -> Total([o \in 1..top[j].nb |-> top[j].c[o][q[k][2]] * Grad(j, o)])
      [] top[j].k = "sum" -> Grad(j, 1)
      [] OTHER -> (Den(i, b) - Num(1, 2)) * Num(1, 3)])
Confluent == /\ \A i \in DOMAIN net[1].data : \A b \in DOMAIN net[1].data[i] : net[1].data[i][b][1] = Den(i, b)
             /\ \A i \in DOMAIN net[1].delta : \A b \in DOMAIN net[1].delta[i] : net[1].delta[i][b][1] = Grad(i, b)
NoStuck == net[1].phase \in {"ff", "bp"} => ENABLED MNext

(* ---- exhaustive: parameter files of small networks; every parameter tensor that is ever set is distinguishable *)
PNode(np) == Node("probe", <<<<1, 1>>>>, 1, TRUE, <<<<1>>>>, np, <<>>)
PVal(v) == [i \in Nodes |-> [p \in 1..top[i].np |-> <<v, i, p>>]]
PInit == /\ \E a \in 0..2, b \in 0..3, c \in 0..1 : top = <<Node("in", <<>>, 1, TRUE, <<>>, 0, <<1>>), PNode(a), PNode(b), PNode(c)>>
         /\ order \in {<<1, 2, 3, 4>>, <<4, 2, 1, 3>>}
         /\ net = [g \in 1..2 |-> [Blank EXCEPT !.phase = "idle", !.par = PVal(g)]] /\ files = <<>> /\ hist = <<>>
PNext == /\ UNCHANGED hist
         /\ \/ \E g \in 1..2 : Len(files) < 2 /\ Save(g)
            \/ \E f \in DOMAIN files, k \in 1..3 : Len(files) < 3 /\ Cut(f, k)
            \/ \E v \in 1..2 : SetPar(1, PVal(v))
            \/ \E g \in 1..2, f \in DOMAIN files, lim \in {0, 1, 2, 4} : Load(g, f, lim)
PSpec == PInit /\ [][PNext]_mvars
(* a complete file loaded without a limit makes the network save that very file again *)
Restores == [][\A g \in 1..2, f \in DOMAIN files : Load(g, f, 0) /\ Len(files[f]) = Len(Flat(net[g])) => Flat(net'[g]) = files[f]]_mvars
(* loading changes an initial stretch of the parameters (in saving order) to the file's, and nothing behind it *)
Stretch == [][\A g \in 1..2 : net'[g] # net[g] /\ (\E f \in DOMAIN files, lim \in 0..4 : Load(g, f, lim)) =>
                \E f \in DOMAIN files, k \in 0..Len(Flat(net[g])) : k <= Len(files[f]) /\ Flat(net'[g]) = SubSeq(files[f], 1, k) \o SubSeq(Flat(net[g]), k + 1, Len(Flat(net[g])))]_mvars
(* files and the other network are never touched *)
Kept == [][(\A f \in DOMAIN files : files'[f] = files[f]) /\ (net'[1] = net[1] \/ net'[2] = net[2])]_mvars

(* ---- scenarios: only the topology matters, the harness chooses the values *)
Rec(op) == hist' = Append(hist, op)
Pick(Q) == IF Q = {} THEN {} ELSE {RandomElement(Q)}
NonIn == {x \in Bufs(top) : top[x[1]].k # "in"}
DataB == {x \in Bufs(top) : top[x[1]].k # "in" \/ x[2] # 3}
Some(Q, P) == IF Q # {} /\ R(1, 4) < 4 THEN Q ELSE P
RECURSIVE Perm(_)
Perm(Q) == IF Q = {} THEN <<>> ELSE LET i == RandomElement(Q) IN <<i>> \o Perm(Q \ {i})
AllBuilt == order # <<>>
Flat2(q) == FoldLeft(LAMBDA a, x : a \o x, <<>>, q)
SNext ==
  \/ top = <<>> /\ Add(Node("in", <<>>, 4, TRUE, <<>>, 0, <<2, 2, 1, 1>>)) /\ Rec(<<"In", 2, 2, 1, 1>>)
  \/ ~AllBuilt /\ Len(top) \in 1..(MaxN - 1) /\ R(1, 12) = 1 /\ \E m \in {R(1, 3)} : Add(Node("in", <<>>, 2, TRUE, <<>>, 0, <<m, m>>)) /\ Rec(<<"In", m, m>>)
  \/ ~AllBuilt /\ Len(top) \in 1..(MaxN - 1) /\ \E z \in 1..2 : \E x \in Pick(Some(NonIn, DataB)), nb \in {IF R(1, 4) = 1 THEN R(2, 3) ELSE 1}, np \in {R(0, IF MODE = "param" THEN 3 ELSE 2)} :
        \E y \in Pick({b \in DataB : Maps(b[1], b[2]) = Maps(x[1], x[2])}), n \in {R(1, 2)}, bp \in {R(1, 8) > 1} :
        \E c \in {TLCEval([j \in 1..nb |-> [s \in 1..n |-> IF R(1, 2) = 1 THEN 1 ELSE -1]])} :
          LET ins == IF n = 1 THEN <<x>> ELSE <<x, y>> IN
          Add(Node("probe", ins, nb, bp, c, np, <<>>)) /\ Rec(<<"Probe", IF bp THEN 1 ELSE 0, nb, np, n>> \o Flat2(ins) \o Flat2(c))
  \/ ~AllBuilt /\ Len(top) \in 2..(MaxN - 1) /\ \E x \in Pick(Some(NonIn, DataB)) : \E y \in Pick({b \in DataB : Maps(b[1], b[2]) = Maps(x[1], x[2])}) :
        Add(Node("sum", <<x, y>>, 1, TRUE, <<>>, 0, <<>>)) /\ Rec(<<"Sum">> \o x \o y)
  \/ ~AllBuilt /\ Len(top) \in 2..(MaxN - 1) /\ \E x \in Pick(NonIn) : \E y \in Pick(DataB) : Maps(x[1], x[2]) + Maps(y[1], y[2]) < 6 /\
        Add(Node("cat", <<x, y>>, 1, TRUE, <<>>, 0, <<>>)) /\ Rec(<<"Cat">> \o x \o y)
  \/ ~AllBuilt /\ Len(top) \in 2..(MaxN - 1) /\ R(1, 2) = 1 /\ \E x \in Pick(NonIn) : Add(Node("relu", <<x>>, 1, TRUE, <<>>, 0, <<>>)) /\ Rec(<<"Relu">> \o x)
  \/ ~AllBuilt /\ Len(top) \in 2..(MaxN - 1) /\ \E x \in Pick(NonIn) : \E y \in Pick({b \in Bufs(top) : top[b[1]].k = "in" /\ Maps(b[1], b[2]) = Maps(x[1], x[2])}) :
        Add(Node("loss", <<x, y, <<1, 3>>>>, 0, TRUE, <<>>, 0, <<>>)) /\ Rec(<<"Loss">> \o x \o y)
  \/ ~AllBuilt /\ Len(top) >= 3 /\ (Len(top) = MaxN \/ R(1, 6) = 1) /\ NonIn # {} /\ \E p \in {TLCEval(IF R(1, 3) = 1 THEN Ident(Len(top)) ELSE Perm(Nodes))} :
        Build(p) /\ Rec(<<"Order">> \o p)
  \/ AllBuilt /\ MODE = "pass" /\ \E op \in {"FF", "BP", "Inp"} : UNCHANGED gvars /\ Rec(<<op, R(1, 2), R(1, 100000)>>)
  \/ AllBuilt /\ \E g \in {R(1, 2)} : \E op \in {RandomElement(IF MODE = "pass" THEN {"Ext", "Par", "BP"} ELSE {"Par", "FF"})} : UNCHANGED gvars /\ Rec(<<op, g, R(1, 100000)>>)
  \/ AllBuilt /\ MODE = "param" /\ Len(files) < 4 /\ \E g \in {R(1, 2)} : files' = Append(files, <<>>) /\ UNCHANGED <<top, order, net>> /\ Rec(<<"Save", g>>)
  \/ AllBuilt /\ MODE = "param" /\ files # <<>> /\ Len(files) < 6 /\ \E f \in {R(1, Len(files))} : files' = Append(files, <<>>) /\ UNCHANGED <<top, order, net>> /\ Rec(<<"Cut", f, R(1, 12)>>)
  \/ AllBuilt /\ files # <<>> /\ \E twice \in 1..2 : \E g \in {R(1, 2)}, f \in {R(1, Len(files))}, lim \in {IF R(1, 3) = 1 THEN 0 ELSE R(0, Len(top) + 1)} : UNCHANGED gvars /\ Rec(<<"Load", g, f, lim>>)
SSpec == MInit /\ [][SNext]_mvars
SimExport == (Len(hist) = MaxLen) => PrintT("@@" \o ToJson(hist))
=============================================================================

------------------------------- MODULE Graph -------------------------------
(* Networks as acyclic graphs of nodes with output buffers: forward and backward passes that evaluate one node at a time,
   parameters, and parameter files.  Values are integers; a buffer of m maps holds S samples of m maps of W pixels.

   A node is [k, in, nb, bp, c, np, ms]:
     k  "in" | "probe" | "sum" | "cat" | "relu" | "loss"
     in sequence of <<node, buffer>> (both counted from 1), nodes are numbered in dependency order
     nb number of output buffers, ms: their maps (input nodes only)
     bp does it take part in back-propagation towards its inputs
     c  coefficients of a probe, c[j][i] for output j and input i: out_j = sum c[j][i] in_i + first parameter tensor [j]
     np number of parameter tensors                                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS S, W
VARIABLES top, order, net, files
gvars == <<top, order, net, files>>
(* net[g] = [val: input node -> its buffers, ext: node -> buffers (gradient supplied from outside at buffers nobody
   differentiates), par: node -> parameter tensors, phase: "no"|"idle"|"ff"|"bp", done: nodes evaluated in this pass,
   data: node -> buffers, delta: node -> buffers, pg: node -> gradient of the first parameter tensor]                 *)
Nodes == 1..Len(top)
Nothing == [i \in {} |-> <<>>]
Blank == [val |-> Nothing, ext |-> Nothing, par |-> Nothing, phase |-> "no", done |-> {}, data |-> Nothing, delta |-> Nothing, pg |-> Nothing]
Init == top = <<>> /\ order = <<>> /\ net = [g \in 1..2 |-> Blank] /\ files = <<>>

RECURSIVE Maps(_, _)
Maps(i, b) == LET t == top[i] IN
  CASE t.k = "in" -> t.ms[b]
    [] t.k = "cat" -> Maps(t.in[1][1], t.in[1][2]) + Maps(t.in[2][1], t.in[2][2])
    [] OTHER -> Maps(t.in[1][1], t.in[1][2])
Size(i, b) == S * W * Maps(i, b)
IsInput(i) == top[i].k = "in"
(* the connections that carry gradients to buffer b of node i: <<consumer, input slot>> *)
Readers(i, b) == {<<j, s>> \in (Nodes \X (1..3)) : s <= Len(top[j].in) /\ top[j].in[s] = <<i, b>> /\ top[j].bp /\ (top[j].k = "loss" => s = 1)}
Consumers(i) == IF IsInput(i) THEN {} ELSE UNION {{q[1] : q \in Readers(i, b)} : b \in 1..top[i].nb}
(* a node takes part in back-propagation when it is not an input *)
Takes(i) == ~IsInput(i)

Add(t) == top' = Append(top, t) /\ UNCHANGED <<order, net, files>>
Build(p) == /\ Len(p) = Len(top) /\ {p[k] : k \in DOMAIN p} = Nodes
            /\ order' = p /\ net' = [g \in 1..2 |-> [Blank EXCEPT !.phase = "idle"]] /\ UNCHANGED <<top, files>>
Put(g, f) == net' = [net EXCEPT ![g] = f] /\ UNCHANGED <<top, order, files>>
With(f, i, v) == [k \in DOMAIN f \cup {i} |-> IF k = i THEN v ELSE f[k]]
SetVal(g, v) == net[g].phase = "idle" /\ Put(g, [net[g] EXCEPT !.val = v])
SetExt(g, v) == net[g].phase = "idle" /\ Put(g, [net[g] EXCEPT !.ext = v])
SetPar(g, v) == net[g].phase = "idle" /\ Put(g, [net[g] EXCEPT !.par = v])

-----------------------------------------------------------------------------
Src(n, i, s) == n.data[top[i].in[s][1]][top[i].in[s][2]]
RECURSIVE Sm(_, _)
Sm(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sm(f, k - 1)
Total(q) == Sm(q, Len(q))
Compute(n, i) ==
  LET t == top[i] IN
  CASE t.k = "in" -> n.val[i]
    [] t.k = "probe" -> [j \in 1..t.nb |-> [e \in 1..Size(i, j) |-> Total([s \in 1..Len(t.in) |-> t.c[j][s] * Src(n, i, s)[e]]) + (IF t.np > 0 THEN n.par[i][1][j] ELSE 0)]]
    [] t.k = "sum" -> <<[e \in 1..Size(i, 1) |-> Src(n, i, 1)[e] + Src(n, i, 2)[e]]>>
    [] t.k = "relu" -> <<[e \in 1..Size(i, 1) |-> IF Src(n, i, 1)[e] > 0 THEN Src(n, i, 1)[e] ELSE 0]>>
    [] t.k = "cat" -> LET a == W * Maps(t.in[1][1], t.in[1][2])  z == W * Maps(t.in[2][1], t.in[2][2]) IN
                      <<[e \in 1..Size(i, 1) |-> LET s == (e - 1) \div (a + z)  q == (e - 1) % (a + z) IN
                           IF q < a THEN Src(n, i, 1)[s * a + q + 1] ELSE Src(n, i, 2)[s * z + q - a + 1]]>>
    [] OTHER -> <<>>
(* what consumer i passes back to its input slot s, given its own deltas *)
Back(n, i, s) ==
  LET t == top[i]  len == Size(t.in[s][1], t.in[s][2]) IN
  CASE t.k = "probe" -> [e \in 1..len |-> Total([j \in 1..t.nb |-> t.c[j][s] * n.delta[i][j][e]])]
    [] t.k = "sum" -> n.delta[i][1]
    [] t.k = "relu" -> [e \in 1..len |-> IF Src(n, i, 1)[e] > 0 THEN n.delta[i][1][e] ELSE 0]
    [] t.k = "cat" -> LET a == W * Maps(t.in[1][1], t.in[1][2])  z == W * Maps(t.in[2][1], t.in[2][2])  m == IF s = 1 THEN a ELSE z IN
                      [e \in 1..len |-> n.delta[i][1][((e - 1) \div m) * (a + z) + (IF s = 1 THEN 0 ELSE a) + ((e - 1) % m) + 1]]
    [] OTHER -> LET m == W * Maps(t.in[1][1], t.in[1][2]) IN
                [e \in 1..len |-> (Src(n, i, 1)[e] - Src(n, i, 2)[e]) * Src(n, i, 3)[((e - 1) \div m) * W + ((e - 1) % W) + 1]]
ListOf(Q) == SetToSeq(Q)
DeltaOf(n, i, b) ==
  IF Readers(i, b) = {} THEN n.ext[i][b]
  ELSE LET q == ListOf(Readers(i, b)) IN LET c == [k \in 1..Len(q) |-> Back(n, q[k][1], q[k][2])] IN
       [e \in 1..Size(i, b) |-> Total([k \in 1..Len(q) |-> c[k][e]])]
-----------------------------------------------------------------------------
(* one pass: begin, evaluate nodes one by one, end *)
StartFF(g) == net[g].phase = "idle" /\ Put(g, [net[g] EXCEPT !.phase = "ff", !.done = {}])
Sources(i) == {top[i].in[s][1] : s \in DOMAIN top[i].in}
RunFF(g, i) == /\ net[g].phase = "ff" /\ i \notin net[g].done /\ Sources(i) \subseteq net[g].done
               /\ Put(g, [net[g] EXCEPT !.done = @ \cup {i}, !.data = With(@, i, Compute(net[g], i))])
EndFF(g) == net[g].phase = "ff" /\ net[g].done = Nodes /\ Put(g, [net[g] EXCEPT !.phase = "idle"])
StartBP(g) == net[g].phase = "idle" /\ DOMAIN net[g].data = Nodes /\ Put(g, [net[g] EXCEPT !.phase = "bp", !.done = {}])
RunBP(g, i) == /\ net[g].phase = "bp" /\ i \notin net[g].done /\ Consumers(i) \subseteq net[g].done
               /\ LET d == IF IsInput(i) THEN <<>> ELSE [b \in 1..top[i].nb |-> DeltaOf(net[g], i, b)] IN
                  Put(g, [net[g] EXCEPT !.done = @ \cup {i}, !.delta = With(@, i, d),
                                        !.pg = With(@, i, [b \in 1..(IF top[i].np > 0 THEN top[i].nb ELSE 0) |-> Total(d[b])])])
EndBP(g) == net[g].phase = "bp" /\ {i \in Nodes : Takes(i)} \subseteq net[g].done /\ Put(g, [net[g] EXCEPT !.phase = "idle"])
TwiceLoss(n, i) == LET t == top[i]  m == W * Maps(t.in[1][1], t.in[1][2]) IN
  Total([e \in 1..Len(Src(n, i, 1)) |-> (Src(n, i, 1)[e] - Src(n, i, 2)[e]) * (Src(n, i, 1)[e] - Src(n, i, 2)[e]) * Src(n, i, 3)[((e - 1) \div m) * W + ((e - 1) % W) + 1]])
RECURSIVE LossOver(_, _)
LossOver(n, Q) == IF Q = {} THEN 0 ELSE LET i == CHOOSE i \in Q : TRUE IN TwiceLoss(n, i) + LossOver(n, Q \ {i})
Losses == {i \in Nodes : top[i].k = "loss"}

(* ---- parameter files: the tensors of all nodes in the order the nodes were added *)
Flat(n) == FoldLeft(LAMBDA a, i : a \o n.par[i], <<>>, order)
Save(g) == net[g].phase = "idle" /\ files' = Append(files, Flat(net[g])) /\ UNCHANGED <<top, order, net>>
Before(k) == FoldLeft(LAMBDA a, i : a + top[i].np, 0, SubSeq(order, 1, k - 1))
(* a file that ends after its first k tensors (saved from a network that has less nodes) *)
Cut(f, k) == f \in DOMAIN files /\ k \in 0..Len(files[f]) /\ (k = 0 => files[f] = <<>>) /\ files' = Append(files, SubSeq(files[f], 1, k)) /\ UNCHANGED <<top, order, net>>
(* limit 0 or beyond the last node: everything; otherwise the nodes at positions 0..limit.  What the file does not hold stays *)
Load(g, f, limit) ==
  /\ net[g].phase = "idle" /\ f \in DOMAIN files
  /\ LET last == IF limit = 0 \/ limit >= Len(order) THEN Len(order) ELSE limit + 1
         at(i) == CHOOSE k \in DOMAIN order : order[k] = i IN
     Put(g, [net[g] EXCEPT !.par = [i \in DOMAIN @ |-> [p \in 1..top[i].np |->
        IF at(i) <= last /\ Before(at(i)) + p <= Len(files[f]) THEN files[f][Before(at(i)) + p] ELSE @[i][p]]]])
=============================================================================

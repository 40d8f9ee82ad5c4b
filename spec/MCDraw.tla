------------------------------- MODULE MCDraw -------------------------------
(* (1) small networks: the drawing has a statement for every node and connection, different networks have different drawings
   (what is drawn can be read back). (2) scenarios. *)
EXTENDS Draw, Json, SequencesExt, FiniteSets
CONSTANTS N, MaxLen
VARIABLE hist
mvars == <<net, ready, lines, hist>>
R(a, z) == RandomElement(a..z)
Rec(op) == hist' = Append(hist, op)
B(x) == IF x THEN 1 ELSE 0
Names == <<"a", "b", "c", "d", "e", "f", "g", "h">>
Bufs == {<<>>, <<[desc |-> "p", d |-> <<1, 2, 3, 4>>]>>, <<[desc |-> "p", d |-> <<1, 2, 3, 4>>], [desc |-> "q", d |-> <<1, 1, 1, 1>>]>>}
SmallCons == {<<>>} \cup {<<[t |-> t, b |-> b, bp |-> z]>> : t \in DOMAIN net, b \in 0..1, z \in BOOLEAN}
MInit == Init /\ hist = <<>>
MNext == UNCHANGED hist /\
  \/ Len(net) < N /\ \E i, o \in BOOLEAN, q \in Bufs, c \in SmallCons : (\A k \in DOMAIN c : c[k].b < Len(net[c[k].t].bufs)) /\
       Add([name |-> Names[Len(net) + 1], desc |-> "L", inp |-> i, out |-> o, bufs |-> q, con |-> c])
  \/ Len(net) = N /\ Initialize(net)
  \/ lines = <<>> /\ Draw
MSpec == MInit /\ [][MNext]_mvars
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Whole == lines # <<>> => Len(lines) = 1 + Len(net) + Sum([i \in 1..Len(net) |-> Len(net[i].con)], Len(net))
NoTwice == \A i, j \in 1..(Len(net) + 1) : i # j /\ lines # <<>> => lines[i] # lines[j]
(* every single attribute shows: whatever is changed changes the drawing *)
Shown == (ready /\ lines # <<>>) => \A i \in DOMAIN net :
  /\ ~SameBag(Drawing([net EXCEPT ![i].inp = ~@]), lines) /\ ~SameBag(Drawing([net EXCEPT ![i].out = ~@]), lines)
  /\ \A k \in DOMAIN net[i].con : ~SameBag(Drawing([net EXCEPT ![i].con[k].bp = ~@]), lines) /\ ~SameBag(Drawing([net EXCEPT ![i].con[k].b = 1 - @]), lines)
       /\ \A t \in DOMAIN net : t # net[i].con[k].t => ~SameBag(Drawing([net EXCEPT ![i].con[k].t = t]), lines)
  /\ \A k \in DOMAIN net[i].bufs : ~SameBag(Drawing([net EXCEPT ![i].bufs[k].d[3] = @ + 1]), lines)

(* ---- scenarios: nodes with names of their own or without, read by later ones *)
RBuf(z) == <<R(1, 9), R(1, 12), R(1, 12), R(1, 30)>>
RBufs(i) == [k \in 1..(CASE R(1, 6) = 1 -> 0 [] R(1, 2) = 1 -> 1 [] OTHER -> R(2, 4)) |-> [desc |-> "", d |-> RBuf(k)]]
Sources == {i \in DOMAIN net : Len(net[i].bufs) > 0}
RCon(z) == LET t == RandomElement(Sources) IN <<[t |-> t, b |-> R(0, Len(net[t].bufs) - 1), bp |-> R(0, 2) > 0]>>
RCons(n) == IF Sources = {} THEN <<>> ELSE TLCEval(FlattenSeq([k \in 1..n |-> TLCEval(RCon(k))]))
Words(n) == <<B(n.inp), B(n.out), Len(n.bufs)>> \o FlattenSeq([k \in 1..Len(n.bufs) |-> n.bufs[k].d]) \o <<Len(n.con)>> \o FlattenSeq([k \in 1..Len(n.con) |-> <<n.con[k].t, n.con[k].b, B(n.con[k].bp)>>])
SNext ==
  \/ ~ready /\ Len(net) < N /\ \E z \in 1..4 : \E q \in {TLCEval(RBufs(hist))}, c \in {RCons(R(0, 3))}, i \in {R(1, 5) = 1}, o \in {R(1, 5) = 1}, own \in {R(0, 2)} :
       LET n == [name |-> "", desc |-> "", inp |-> i, out |-> o, bufs |-> q, con |-> c] IN Add(n) /\ Rec(<<"Add", own>> \o Words(n))
  \/ ~ready /\ net # <<>> /\ (Len(net) = N \/ R(1, 6) = 1) /\ Initialize(net) /\ Rec(<<"Init">>)
  \/ ready /\ \E i \in {R(1, Len(net))}, a \in {R(0, 1)}, o \in {R(0, 1)} : Mark(i, a = 1, o = 1) /\ Rec(<<"Mark", i, a, o>>)
  \/ ready /\ \E i \in {R(1, Len(net))} : net[i].con # <<>> /\ \E k \in {R(1, Len(net[i].con))}, b \in {R(0, 1)} : Flow(i, k, b = 1) /\ Rec(<<"Flow", i, k, b>>)
  \/ ready /\ \E i \in {R(1, Len(net))} : Rename(i, ToString(R(1, 999))) /\ Rec(<<"Name", i, R(100, 999)>>)
  \/ \E z \in 1..2 : (ready \/ (net = <<>> /\ R(1, 3) = 1)) /\ Draw /\ Rec(<<"Draw">>)
SSpec == MInit /\ [][SNext]_mvars
SimExport == (Len(hist) = MaxLen) => PrintT("@@" \o ToJson(hist))
=============================================================================

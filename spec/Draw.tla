-------------------------------- MODULE Draw --------------------------------
(* The drawing of a network: a set of statements of the dot language.
   A node is [name, desc, inp, out, bufs |-> sequence of [desc, d |-> <<samples, width, height, maps>>],
              con |-> sequence of [t |-> index of the node read, b |-> buffer from 0, bp |-> whether gradients flow back]]. *)
EXTENDS Integers, Sequences, TLC
VARIABLES net, ready, lines       \* the nodes in their order; whether the network is initialized; the last drawing
dvars == <<net, ready, lines>>
Count(q, x) == LET f[i \in 0..Len(q)] == IF i = 0 THEN 0 ELSE f[i - 1] + (IF q[i] = x THEN 1 ELSE 0) IN f[Len(q)]
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Count(p, p[i]) = Count(q, p[i])
Size(d) == "(" \o ToString(d[1]) \o "s@" \o ToString(d[2]) \o "x" \o ToString(d[3]) \o "x" \o ToString(d[4]) \o "m)"
Port(k) == "<o" \o ToString(k) \o ">"
Cell(n, k) == n.bufs[k + 1].desc \o " " \o Size(n.bufs[k + 1].d)
RECURSIVE Cells(_, _)
Cells(n, k) == IF k = 0 THEN Port(0) \o Cell(n, 0) ELSE Cells(n, k - 1) \o "|" \o Port(k) \o Cell(n, k)
(* one record per node: red if it is an input, blue if it is an output, one cell per output buffer *)
Record(n) == n.name \o " [shape=record," \o (IF n.inp THEN "color=red," ELSE "") \o (IF n.out THEN "color=blue," ELSE "")
  \o " label=\"{ <i> " \o n.name \o ": " \o n.desc
  \o (CASE Len(n.bufs) = 0 -> "" [] Len(n.bufs) = 1 -> "| <o0> " \o Cell(n, 0) [] OTHER -> "| {" \o Cells(n, Len(n.bufs) - 1) \o "}") \o "}\"];"
(* one edge per connection, from the port of the buffer read, dotted if no gradients flow back *)
Arrow(w, i, k) == LET c == w[i].con[k] IN w[c.t].name \o ":o" \o ToString(c.b) \o " -> " \o w[i].name \o ":i[penwidth=2" \o (IF c.bp THEN "" ELSE ",style=dotted") \o "];"
RECURSIVE Arrows(_, _)
Arrows(w, i) == IF i = 0 THEN <<>> ELSE Arrows(w, i - 1) \o [k \in 1..Len(w[i].con) |-> Arrow(w, i, k)]
Heading == "graph [ranksep=.75, esep=1];"
Drawing(w) == IF w = <<>> THEN <<>> ELSE <<Heading>> \o [i \in 1..Len(w) |-> Record(w[i])] \o Arrows(w, Len(w))

Init == net = <<>> /\ ready = FALSE /\ lines = <<>>
Empty == net' = <<>> /\ ready' = FALSE /\ lines' = <<>>
Add(n) == ~ready /\ net' = Append(net, n) /\ lines' = <<>> /\ UNCHANGED ready
(* initialization keeps the nodes and may add some which gather gradients; w is the network afterwards *)
Kept(n, m) == n.name = m.name /\ n.desc = m.desc /\ n.inp = m.inp /\ n.out = m.out /\ n.bufs = m.bufs /\ Len(n.con) = Len(m.con)
Initialize(w) == ~ready /\ ready' = TRUE /\ lines' = <<>> /\ net' = w
  /\ Len(w) >= Len(net) /\ (\A i \in 1..Len(net) : Kept(net[i], w[i]))
  /\ \A i \in (Len(net) + 1)..Len(w) : Len(w[i].con) = 1 /\ Len(w[i].bufs) > 1 /\ ~w[i].inp /\ ~w[i].out
Mark(i, a, o) == i \in DOMAIN net /\ net' = [net EXCEPT ![i].inp = a, ![i].out = o] /\ lines' = <<>> /\ UNCHANGED ready
Flow(i, k, b) == i \in DOMAIN net /\ k \in DOMAIN net[i].con /\ net' = [net EXCEPT ![i].con[k].bp = b] /\ lines' = <<>> /\ UNCHANGED ready
Rename(i, s) == i \in DOMAIN net /\ net' = [net EXCEPT ![i].name = s] /\ lines' = <<>> /\ UNCHANGED ready
Draw == (ready \/ net = <<>>) /\ lines' = Drawing(net) /\ UNCHANGED <<net, ready>>
=============================================================================

------------------------------ MODULE TraceDraw ------------------------------
EXTENDS Draw, TraceBase
vars == <<net, ready, lines, l>>
TBegin == IsEvent("Begin") /\ Empty
(* names are given by the program where the user gave none *)
Distinct(w) == \A i, j \in DOMAIN w : i # j => w[i].name # w[j].name
TNext ==
  \/ TBegin
  \/ IsEvent("Add") /\ Add(E.n) /\ E.n.name # "" /\ (E.own # "" => E.n.name = E.own) /\ Distinct(net')
  \/ IsEvent("Init") /\ Initialize(E.net)
  \/ IsEvent("Mark") /\ Mark(E.i, E.a, E.o)
  \/ IsEvent("Flow") /\ Flow(E.i, E.k, E.b)
  \/ IsEvent("Name") /\ Rename(E.i, E.s)
  \/ IsEvent("Draw") /\ Draw /\ SameBag(E.lines, lines')
TSpec == Init /\ l = 1 /\ [][TNext]_vars
=============================================================================

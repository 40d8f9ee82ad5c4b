----------------------------- MODULE TraceRepro -----------------------------
EXTENDS Repro, TraceBase
VARIABLES book, seen, drawn                             \* run -> key; observed parameters: <<key, hash>>; drawn weights
vars == <<runs, book, seen, drawn, l>>
T0 == IsEvent("Begin") /\ book' = <<>> /\ seen' = {} /\ drawn' = {} /\ UNCHANGED runs
Same(k, h) == \A x \in seen : x[1] = k => x[2] = h
(* weights of different layers, seeds and initializations differ *)
Times(k) == Len(SelectSeq(k.hist, LAMBDA o : o[1] = "I"))
Draw(k, h) ==
  /\ \A i, j \in DOMAIN h : i # j => h[i] # h[j]
  /\ \A x \in drawn : (x.net = k.net /\ (x.fs # k.fs \/ x.times # Times(k))) => \A i \in DOMAIN h : h[i] # x.h[i]
  /\ drawn' = drawn \cup {[net |-> k.net, fs |-> k.fs, times |-> Times(k), h |-> h]}
Observe(i, k) == Same(k, E.hash) /\ seen' = seen \cup {<<k, E.hash>>} /\ book' = [book EXCEPT ![i] = k] /\ UNCHANGED runs
(* scale 256; many weights fill the range on both sides *)
Range(net, maps) ==
  \A q \in DOMAIN E.layers :
    LET x == E.layers[q] d == RangeDiv(net, maps, x.at) IN
    /\ x.finite /\ x.bias /\ x.max * x.max * d <= 6 * 65536 /\ x.min * x.min * d <= 6 * 65536
    /\ x.n >= 24 => 4 * (x.max + 1) * (x.max + 1) * d >= 6 * 65536 /\ 4 * (x.min + 1) * (x.min + 1) * d >= 6 * 65536
T1 == IsEvent("B") /\ E.i = Len(book) + 1 /\ book' = Append(book, [net |-> E.net, fs |-> E.fs, ds |-> E.ds, opt |-> E.opt, patch |-> E.patch, hist |-> <<>>]) /\ UNCHANGED <<runs, seen, drawn>>
K(i, op) == [book[i] EXCEPT !.hist = Append(@, op)]
T2 == /\ IsEvent("Op") /\ E.op[1] = "I" /\ Observe(E.i, K(E.i, E.op)) /\ Draw(K(E.i, E.op), E.convs) /\ E.other /\ Range(E.chain, E.maps)
T3 == IsEvent("Op") /\ E.op[1] \in {"T", "S"} /\ Observe(E.i, K(E.i, E.op)) /\ UNCHANGED drawn
T4 == IsEvent("Op") /\ E.op[1] = "E" /\ Observe(E.i, book[E.i]) /\ UNCHANGED drawn
TNext == T0 \/ T1 \/ T2 \/ T3 \/ T4
TSpec == runs = <<>> /\ book = <<>> /\ seen = {} /\ drawn = {} /\ l = 1 /\ [][TNext]_vars
=============================================================================

------------------------------- MODULE Repro -------------------------------
(* Runs: networks built from a description, a factory seed and a data seed, then initialized, trained and tested. Every layer
   owns a generator, so does the selection of samples; a run is determined by its description, its seeds and its training
   history. Parameters and generators are terms: what they are made of. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Layers                                        \* layers of a description with random weights: 1..Layers
(* ---- the range of initial weights of a chain of layers
   layer: <<1, kx, ky, maps>> convolution, <<2, w, h>> pooling, <<3>> others *)
RECURSIVE Gain(_, _, _)
InMaps(net, maps, i) == LET c == {j \in 1..(i - 1) : net[j][1] = 1} IN IF c = {} THEN maps ELSE net[CHOOSE j \in c : \A k \in c : k <= j][4]
Gain(net, maps, i) ==
  IF i > Len(net) THEN 0
  ELSE CASE net[i][1] = 1 -> net[i][2] * net[i][3] * InMaps(net, maps, i)
         [] net[i][1] = 2 -> Gain(net, maps, i + 1) \div (net[i][2] * net[i][3])
         [] OTHER -> Gain(net, maps, i + 1)
(* weights are drawn from [-r, r], r^2 = 6 / RangeDiv *)
RangeDiv(net, maps, i) == Gain(net, maps, i) + Gain(net, maps, i + 1)

(* ---- runs *)
VARIABLE runs                                           \* sequence of runs
New(desc, fseed, dseed) ==
  [desc |-> desc, fseed |-> fseed, dseed |-> dseed, hist |-> <<>>, rand |-> [i \in 1..Layers |-> 0], data |-> 0,
   epoch |-> 0, memory |-> <<>>, params |-> [i \in 1..Layers |-> <<"zero">>]]
Open(desc, fseed, dseed) == runs' = Append(runs, New(desc, fseed, dseed))
Upd(i, r) == runs' = [runs EXCEPT ![i] = r]
Initialize(i) ==                                        \* draws new weights, advances the generators of the layers
  LET r == runs[i] IN
  Upd(i, [r EXCEPT !.hist = Append(@, <<"I", 0>>), !.rand = [k \in 1..Layers |-> @[k] + 1],
                   !.params = [k \in 1..Layers |-> <<"drawn", r.desc, r.fseed, k, r.rand[k]>>]])
Train(i, n) ==                                          \* consumes samples, uses and changes the memory of the optimizer
  LET r == runs[i]
      \* one epoch
      step(s) == [s EXCEPT !.data = @ + 1, !.epoch = @ + 1, !.memory = <<"mem", s.memory, s.params>>,
                           !.params = [k \in 1..Layers |-> <<"trained", s.params, s.memory, r.desc, r.dseed, s.data, s.epoch, k>>]]
      RECURSIVE go(_, _)
      go(s, m) == IF m = 0 THEN s ELSE go(step(s), m - 1)
  IN Upd(i, [go(r, n) EXCEPT !.hist = Append(@, <<"T", n>>)])
Test(i) == UNCHANGED runs                               \* leaves no trace
SetEpoch(i, e) == Upd(i, [runs[i] EXCEPT !.hist = Append(@, <<"S", e>>), !.epoch = e, !.memory = <<>>])
Key(r) == <<r.desc, r.fseed, r.dseed, r.hist>>
=============================================================================

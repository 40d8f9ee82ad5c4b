-------------------------- MODULE TraceDescriptor --------------------------
EXTENDS Descriptor, TraceBase
VARIABLE seen                                           \* weights drawn for a convolution: <<descriptor, hash>>
vars == <<seen, l>>
SK == <<115, 101, 101, 100>>
(* parameters and their defaults, by type; W: kinds of value (2 pair, 1 natural, 0 decimal) *)
KSize == <<115, 105, 122, 101>>
KStride == <<115, 116, 114, 105, 100, 101>>
KPad == <<112, 97, 100>>
KKernels == <<107, 101, 114, 110, 101, 108, 115>>
KGroup == <<103, 114, 111, 117, 112>>
KDropout == <<100, 114, 111, 112, 111, 117, 116>>
KLlr == <<108, 108, 114>>
KBorder == <<98, 111, 114, 100, 101, 114>>
KOutputs == <<111, 117, 116, 112, 117, 116, 115>>
KMu == <<109, 117>>
KWeight == <<119, 101, 105, 103, 104, 116>>
P(s, k, def) == IF Has(s, k) THEN Pair(Get(s, k)) ELSE def
N(s, k, def) == IF Has(s, k) THEN Nat_(Get(s, k), 0) ELSE def
D(s, k, def) == IF Has(s, k) THEN Dec(Get(s, k)) ELSE def
TConv == <<99, 111, 110, 118, 111, 108, 117, 116, 105, 111, 110>>
TMax == <<109, 97, 120, 112, 111, 111, 108, 105, 110, 103>>
TAMax == <<97>> \o TMax
TTanh == <<116, 97, 110, 104>>
TSigm == <<115, 105, 103, 109>>
TRelu == <<114, 101, 108, 117>>
TAcc == <<103, 114, 97, 100, 105, 101, 110, 116, 97, 99, 99, 117, 109, 117, 108, 97, 116, 105, 111, 110>>
TResize == <<114, 101, 115, 105, 122, 101>>
THMax == <<104, 109, 97, 120>>
Built(s) ==
  LET t == Type(s) IN
  CASE t = TConv   -> P(s, KSize, <<0, 0>>) \o P(s, KStride, <<1, 1>>) \o P(s, KPad, <<0, 0>>) \o <<N(s, KKernels, 0), N(s, KGroup, 1), D(s, KDropout, 0), D(s, KLlr, 1000)>>
    [] t = TMax    -> P(s, KSize, <<1, 1>>)
    [] t = TAMax   -> P(s, KSize, <<1, 1>>) \o P(s, KStride, P(s, KSize, <<1, 1>>))
    [] t = TAcc    -> <<N(s, KOutputs, 0)>>
    [] t = TResize -> P(s, KBorder, <<0, 0>>)
    [] t = THMax   -> <<D(s, KMu, 1000), D(s, KWeight, 0)>>
    [] t \in {TTanh, TSigm, TRelu} -> <<>>
Known(s) == Type(s) \in {TConv, TMax, TAMax, TTanh, TSigm, TRelu, TAcc, TResize, THMax}
Possible(s) == Type(s) = TConv => LET b == Built(s) IN b[1] > 0 /\ b[2] > 0 /\ b[3] > 0 /\ b[4] > 0 /\ b[8] > 0 /\ b[7] % b[8] = 0
T0 == IsEvent("Begin") /\ seen' = {}
T1 == /\ IsEvent("D") /\ E.valid = Valid(E.d) /\ E.injected = InjectSeed(E.d, E.seed)
      /\ Valid(E.d) => E.config = Config(E.d) /\ E.type = Type(E.d)
      /\ (~Valid(E.d) \/ ~Known(E.d)) => E.layer = 0
      /\ (Valid(E.d) /\ Known(E.d) /\ Type(E.d) # TConv) => E.layer = 1
      /\ UNCHANGED seen
(* B: the layer made from the text behaves like a layer constructed with the values E.ref *)
T2 == /\ IsEvent("B") /\ Valid(E.d) /\ E.ref = Built(E.d)
      /\ E.layer = (IF Possible(E.d) THEN 1 ELSE 0)
      /\ Possible(E.d) => E.same /\ E.config = Config(E.d)
      /\ UNCHANGED seen
SeedOf(s) == IF Has(s, SeedKey) THEN Get(s, SeedKey) ELSE <<48>>
T3 == /\ IsEvent("Init")
      /\ \A x \in seen : IF SeedOf(x[1]) = SeedOf(E.d) THEN x[2] = E.h ELSE x[2] # E.h
      /\ seen' = seen \cup {<<E.d, E.h>>}
TNext == T0 \/ T1 \/ T2 \/ T3
TSpec == seen = {} /\ l = 1 /\ [][TNext]_vars
=============================================================================

------------------------------- MODULE Config -------------------------------
(* The text of training settings (part of a network description) and of dataset descriptions. Texts are sequences of
   character codes, lines end with NL. Numbers are decimals <<m, e>> = m * 10^e without trailing zeros in m.
     settings:  key=value lines; lines starting with # and all other lines mean nothing; the last line of a key counts
     dataset:   classes=N, N names; colors, N colours (hexadecimal); weights, N numbers; localized_error=, training=, testing=
                in any order: N is known before the lists are read *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Text
NL == 10
EQ == 61
HASH == 35
From(s, i) == SubSeq(s, i, Len(s))
Find(s, c) == LET k == SelectInSeq(s, LAMBDA x : x = c) IN IF k = 0 THEN Len(s) + 1 ELSE k
RECURSIVE Lines(_)
Lines(s) == LET k == Find(s, NL) IN IF k > Len(s) THEN <<s>> ELSE <<SubSeq(s, 1, k - 1)>> \o Lines(From(s, k + 1))
Starts(line, key) == Len(line) >= Len(key) /\ SubSeq(line, 1, Len(key)) = key
Value(line, key) == From(line, Len(key) + 2)
IsSet(line, key) == Starts(line, Append(key, EQ))

(* ---- numbers *)
IsDigit(c) == c \in 48..57
RECURSIVE Nat_(_, _)
Nat_(s, acc) == IF s = <<>> THEN acc ELSE Nat_(Tail(s), 10 * acc + s[1] - 48)
Nat1(s) == Nat_(s, 0)
Signed(s) == IF s # <<>> /\ s[1] = 45 THEN -Nat1(Tail(s)) ELSE IF s # <<>> /\ s[1] = 43 THEN Nat1(Tail(s)) ELSE Nat1(s)
RECURSIVE Norm(_, _)
Norm(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF m % 10 = 0 THEN Norm(m \div 10, e + 1) ELSE <<m, e>>
Decimal(s) ==                                           \* [sign] digits [. digits] [e [sign] digits]
  LET neg == s # <<>> /\ s[1] = 45
      u == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
      k == IF Find(u, 101) <= Len(u) THEN Find(u, 101) ELSE Find(u, 69)
      mant == SubSeq(u, 1, k - 1)
      p == Find(mant, 46)
      frac == IF p > Len(mant) THEN <<>> ELSE From(mant, p + 1)
      ex == IF k > Len(u) THEN 0 ELSE Signed(From(u, k + 1))
      d == Norm(Nat1(SubSeq(mant, 1, p - 1) \o frac), ex - Len(frac))
  IN IF neg THEN <<-d[1], d[2]>> ELSE d
HexDigit(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
RECURSIVE Hex_(_, _)
Hex_(s, acc) == IF s = <<>> THEN acc ELSE Hex_(Tail(s), 16 * acc + HexDigit(s[1]))
Unprefixed(s) == IF Len(s) > 2 /\ s[1] = 48 /\ s[2] \in {120, 88} THEN From(s, 3) ELSE s
Colour(s) == LET u == Unprefixed(s) n == Len(u) IN           \* <<upper, lower>> 16 bits
  <<Hex_(SubSeq(u, 1, IF n > 4 THEN n - 4 ELSE 0), 0), Hex_(SubSeq(u, IF n > 4 THEN n - 3 ELSE 1, n), 0)>>

(* ---- settings *)
KL1 == Codes("l1")
KL2 == Codes("l2")
KLr == Codes("lr")
KGamma == Codes("gamma")
KMomentum == Codes("momentum")
KExponent == Codes("exponent")
KEta == Codes("eta")
KMu == Codes("mu")
KIterations == Codes("iterations")
KSBatch == Codes("sbatchsize")
KPBatch == Codes("pbatchsize")
KOpt == Codes("optimization")
VGrad == Codes("gradient_descent")
VQuick == Codes("quickprop")
Keys == <<KL1, KL2, KLr, KGamma, KMomentum, KExponent, KEta, KMu, KIterations, KSBatch, KPBatch, KOpt>>
Defaults == << <<1, -3>>, <<5, -4>>, <<1, -4>>, <<3, -4>>, <<9, -1>>, <<75, -2>>, <<15, -1>>, <<175, -2>>, 500, 1, 1, 0>>
Parsed(k, v) == IF k <= 8 THEN Decimal(v) ELSE IF k <= 11 THEN Nat1(v) ELSE IF v = VQuick THEN 1 ELSE 0
Settings(text) ==
  LET ls == Lines(text)
      last(k) == SelectLastInSeq(ls, LAMBDA x : IsSet(x, Keys[k]))
  IN [k \in 1..12 |-> IF last(k) = 0 THEN Defaults[k] ELSE Parsed(k, Value(ls[last(k)], Keys[k]))]

(* ---- datasets *)
KClasses == Codes("classes")
KColors == Codes("colors")
KWeights == Codes("weights")
KError == Codes("localized_error")
KTraining == Codes("training")
KTesting == Codes("testing")
VKitti == Codes("kitti")
VDefault == Codes("default")
Count(ls) == LET i == SelectInSeq(ls, LAMBDA x : IsSet(x, KClasses)) IN IF i = 0 THEN 0 ELSE Nat1(Value(ls[i], KClasses))
Empty == [names |-> <<>>, colors |-> <<>>, weights |-> <<>>, error |-> 0, training |-> <<>>, testing |-> <<>>]
RECURSIVE Read(_, _, _, _)
Read(ls, n, i, d) ==                                    \* from line i on; d is what has been read so far
  IF i > Len(ls) THEN d
  ELSE LET x == ls[i] IN
    CASE Starts(x, KClasses) -> Read(ls, n, i + n + 1, [d EXCEPT !.names = @ \o SubSeq(ls, i + 1, i + n)])
      [] Starts(x, KColors)  -> Read(ls, n, i + n + 1, [d EXCEPT !.colors = @ \o SubSeq(ls, i + 1, i + n)])
      [] Starts(x, KWeights) -> Read(ls, n, i + n + 1, [d EXCEPT !.weights = @ \o SubSeq(ls, i + 1, i + n)])
      [] IsSet(x, KError)    -> Read(ls, n, i + 1, [d EXCEPT !.error = IF Value(x, KError) = VKitti THEN 1 ELSE IF Value(x, KError) = VDefault THEN 0 ELSE @])
      [] IsSet(x, KTraining) -> Read(ls, n, i + 1, [d EXCEPT !.training = Value(x, KTraining)])
      [] IsSet(x, KTesting)  -> Read(ls, n, i + 1, [d EXCEPT !.testing = Value(x, KTesting)])
      [] OTHER -> Read(ls, n, i + 1, d)
Dataset(text) ==
  LET ls == Lines(text) n == Count(ls) d == Read(ls, n, 1, Empty) IN
  [d EXCEPT !.colors = [i \in DOMAIN @ |-> Colour(@[i])],
            !.weights = IF Len(@) = n THEN [i \in DOMAIN @ |-> Decimal(@[i])] ELSE [i \in 1..n |-> <<1, 0>>]] @@ [classes |-> n]
Described(text) == LET d == Dataset(text) IN Len(d.names) = d.classes /\ Len(d.colors) = d.classes
=============================================================================

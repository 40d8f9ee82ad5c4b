------------------------------ MODULE MCCodec ------------------------------
(* (1) The code itself: every sequence of up to MaxLen words over Words is restored by the decoder, within the space the
       implementation reserves.  (2) Generation of the scenarios for the real code (SIM), with the real constants. *)
EXTENDS Codec, TLC, Json
CONSTANTS MaxLen, Words
VARIABLES ws, hist
mvars == <<cf, pos, cs, out, ws, hist>>
SmallWords == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<0, 0>>}

CInit == Init /\ ws = <<>> /\ hist = <<>>
CNext == Len(ws) < MaxLen /\ \E w \in Words : ws' = Append(ws, w) /\ UNCHANGED <<cf, pos, cs, out, hist>>
CSpec == CInit /\ [][CNext]_mvars
Restores(c) == LET z == Decode(c) IN z.ok /\ z.o = Flat(ws)
Lossless == Restores(Encode(ws)) /\ Restores(EncodePlain(ws)) /\ Restores(EncodeOnes(ws))
Fits == Len(Encode(ws)) <= 2 * Len(ws) * WL + 2

-----------------------------------------------------------------------------
Syms == <<<<0,0,0,0>>, <<88,88,88,88>>, <<88,89,88,89>>, <<0,0,128,63>>, <<0,0,0,128>>, <<88,0,0,66>>, <<88,0,192,127>>, <<89,88,253,88>>, <<1,0,0,0>>, <<1,0,128,127>>, <<7,89,3,88>>>>
Lens == <<1, 1, 1, 1, 2, 2, 3, 4, 5, 251, 252, 253, 254, 255, 256, 257, 505, 506, 507, 508, 759>>
RECURSIVE Runs(_)
Runs(n) == IF n = 0 THEN <<>> ELSE <<<<RandomElement(1..Len(Syms)), Lens[RandomElement(1..Len(Lens))]>>>> \o Runs(n - 1)
RECURSIVE ShortRuns(_)
ShortRuns(n) == IF n = 0 THEN <<>> ELSE <<<<RandomElement(1..Len(Syms)), RandomElement(1..3)>>>> \o ShortRuns(n - 1)
SomeRuns(q) == IF RandomElement(1..3) = 1 THEN ShortRuns(RandomElement(1..14)) ELSE Runs(RandomElement(1..3))
WordsOf(rs) == FoldLeft(LAMBDA a, r : a \o [i \in 1..r[2] |-> Syms[r[1]]], <<>>, rs)
Nat3(n) == IF n % 6 = 0 THEN <<1, n \div 6, 3, 2>> ELSE IF n % 4 = 0 THEN <<2, n \div 4, 1, 2>> ELSE IF n % 3 = 0 THEN <<1, 3, n \div 3, 1>> ELSE <<1, n, 1, 1>>
Rec(op) == hist' = Append(hist, op)
Sl(q) == {RandomElement(Slots)}
SNext == UNCHANGED ws /\
  \/ \E i \in Sl(hist), b \in {1,2}, rs \in {SomeRuns(hist)} : LET w == TLCEval(WordsOf(rs)) IN
       Compress(i, Nat3(Len(w)), TLCEval(Flat(w)), TLCEval(Encode(w))) /\ Rec(<<"Compress", i>> \o Nat3(Len(w)) \o Flat(rs))
  \/ \E i \in Sl(hist) : Len(cf) < 6 /\ Write(i) /\ Rec(<<"Write", i>>)
  \/ \E rs \in {SomeRuns(hist)}, k \in {RandomElement(1..3)} : LET w == TLCEval(WordsOf(rs))
                           c == TLCEval(CASE k = 1 -> Encode(w) [] k = 2 -> EncodePlain(w) [] OTHER -> EncodeOnes(w)) IN
       Len(cf) < 6 /\ Len(w) < 400 /\ Craft(Nat3(Len(w)), c) /\ Rec(<<"Craft", 0>> \o Nat3(Len(w)) \o c)
  \/ \E i \in Sl(hist), m \in {RandomElement({"seq", "map"})}, b \in {1,2} : Read(i, m) /\ Rec(<<"Read", i, m>>)
  \/ \E i \in Sl(hist) : Skip /\ Rec(<<"Skip", i, "head">>)
  \/ \E i \in Sl(hist), b \in {1,2,3} : Decompress(i) /\ Rec(<<"Decompress", i>>)
  \/ \E i \in Sl(hist) : cs[i].live /\ Drop(i) /\ Rec(<<"Drop", i>>)
  \/ pos > 1 /\ Rewind /\ Rec(<<"Rewind">>)
(* long contents: segments <<symbol, length>>, symbol 12 standing for that many different words *)
BigLens == <<1, 2, 3, 252, 253, 254, 4095, 4096, 4097, 16384, 32767, 32768, 65535, 65536, 65537, 70000, 131072, 200000>>
LitLens == <<1, 100, 1023, 4096, 8190, 16383, 16390, 17000>>
Seg(q) == IF RandomElement(1..4) = 1 THEN <<12, LitLens[RandomElement(1..Len(LitLens))]>> ELSE <<RandomElement(1..Len(Syms)), BigLens[RandomElement(1..Len(BigLens))]>>
RECURSIVE Segs(_, _)
Segs(n, q) == IF n = 0 THEN <<>> ELSE Segs(n - 1, q) \o <<Seg(q)>>
Lits(gs) == FoldLeft(LAMBDA a, g : IF g[1] = 12 THEN a + g[2] ELSE a, 0, gs)
BNext == UNCHANGED ws /\
  \/ \E i \in Sl(hist), b \in {1,2}, gs \in {TLCEval(Segs(RandomElement(1..4), hist))} : LET n == TotalRuns(gs) IN
       /\ Lits(gs) <= 17500
       /\ cs' = [cs EXCEPT ![i] = [live |-> TRUE, d |-> Nat3(n), c |-> <<>>, v |-> gs]] /\ out' = <<>> /\ UNCHANGED <<cf, pos>>
       /\ Rec(<<"CompressRuns", i>> \o Nat3(n) \o Flat(gs))
  \/ \E i \in Sl(hist) : Len(cf) < 4 /\ Write(i) /\ Rec(<<"Write", i>>)
  \/ \E i \in Sl(hist), m \in {RandomElement({"seq", "map"})}, b \in {1,2} : Read(i, m) /\ Rec(<<"Read", i, m>>)
  \/ \E i \in Sl(hist) : Skip /\ Rec(<<"Skip", i, "head">>)
  \/ \E i \in Sl(hist), b \in {1,2} : Decompress(i) /\ Rec(<<"DecompressRuns", i>>)
  \/ pos > 1 /\ Rewind /\ Rec(<<"Rewind">>)
BSpec == CInit /\ [][BNext]_mvars
SSpec == CInit /\ [][SNext]_mvars
SimExport == (Len(hist) = MaxLen) => PrintT("@@" \o ToJson(hist))
=============================================================================

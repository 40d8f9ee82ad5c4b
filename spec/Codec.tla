------------------------------- MODULE Codec -------------------------------
(* The run length code of compressed tensors and a file of compressed tensors.
   A word (element) is WL bytes.  A byte equal to Marker is doubled; Marker, Rle, n, word stands for n repetitions. *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS WL, Marker, Rle, RLMax, RLMin, CHDR, NSlots
VARIABLES cf, pos, cs, out
cvars == <<cf, pos, cs, out>>

Rep(w, n) == IF n = 0 THEN <<>> ELSE [i \in 1..(n * Len(w)) |-> w[((i - 1) % Len(w)) + 1]]
EscWord(w) == FoldLeft(LAMBDA a, b : a \o (IF b = Marker THEN <<Marker, Marker>> ELSE <<b>>), <<>>, w)
Lit(w, n) == Rep(EscWord(w), n)
Emit(w, n) == IF n = 0 THEN <<>> ELSE IF n < RLMin THEN Lit(w, n) ELSE <<Marker, Rle, n>> \o w

(* the encoder: one pass over the words, holding back a run of at most RLMax - 1 of the last word *)
EncStep(s, w) ==
  IF s.n > 0 /\ w = s.w
  THEN IF s.n + 1 = RLMax THEN [o |-> s.o \o Emit(w, RLMax), w |-> w, n |-> 0] ELSE [s EXCEPT !.n = @ + 1]
  ELSE [o |-> s.o \o Emit(s.w, s.n), w |-> w, n |-> 1]
Encode(ws) == LET z == FoldLeft(EncStep, [o |-> <<>>, w |-> <<>>, n |-> 0], ws) IN z.o \o Emit(z.w, z.n)
EncodePlain(ws) == FoldLeft(LAMBDA a, w : a \o EscWord(w), <<>>, ws)
EncodeOnes(ws) == FoldLeft(LAMBDA a, w : a \o <<Marker, Rle, 1>> \o w, <<>>, ws)

(* the decoder: a byte-driven state machine; result is the flat sequence of bytes *)
DecStep(s, b) ==
  CASE s.st = "plain" -> IF b = Marker THEN [s EXCEPT !.st = "esc"] ELSE [s EXCEPT !.o = Append(@, b)]
    [] s.st = "esc"   -> IF b = Marker THEN [s EXCEPT !.st = "plain", !.o = Append(@, b)]
                         ELSE IF b = Rle THEN [s EXCEPT !.st = "len"] ELSE [s EXCEPT !.st = "bad"]
    [] s.st = "len"   -> [s EXCEPT !.st = "word", !.n = b, !.g = <<>>]
    [] s.st = "word"  -> IF Len(s.g) + 1 = WL THEN [s EXCEPT !.st = "plain", !.o = @ \o Rep(Append(s.g, b), s.n)] ELSE [s EXCEPT !.g = Append(@, b)]
    [] OTHER -> s
Decode(bs) == LET z == FoldLeft(DecStep, [o |-> <<>>, st |-> "plain", n |-> 0, g |-> <<>>], bs) IN
              [ok |-> z.st = "plain" /\ Len(z.o) % WL = 0, o |-> z.o]

Flat(ws) == FoldLeft(LAMBDA a, w : a \o w, <<>>, ws)
(* negative zero and zero are the same number: byte sequences up to the sign of zero *)
Norm(bs) == IF WL # 4 THEN bs ELSE
  [i \in DOMAIN bs |-> IF i % 4 = 0 /\ bs[i] = 128 /\ bs[i-1] = 0 /\ bs[i-2] = 0 /\ bs[i-3] = 0 THEN 0 ELSE bs[i]]
SameNumbers(a, b) == Len(a) = Len(b) /\ (a = b \/ Norm(a) = Norm(b))
N(d) == d[1] * d[2] * d[3] * d[4]

(* the same code for long contents, which are given as runs <<word, n>>: neighbouring runs of one number are merged *)
NormWord(w) == IF WL = 4 /\ w = <<0, 0, 0, 128>> THEN <<0, 0, 0, 0>> ELSE w
AddRun(rs, w, n) == IF n = 0 THEN rs ELSE IF rs # <<>> /\ rs[Len(rs)][1] = w THEN [rs EXCEPT ![Len(rs)] = <<w, @[2] + n>>] ELSE Append(rs, <<w, n>>)
MergeRuns(rs) == FoldLeft(LAMBDA a, r : AddRun(a, NormWord(r[1]), r[2]), <<>>, rs)
DecRunStep(s, b) ==
  LET put(t, q) == IF Len(t.p) + 1 = WL THEN [t EXCEPT !.o = AddRun(@, NormWord(Append(t.p, q)), 1), !.p = <<>>] ELSE [t EXCEPT !.p = Append(@, q)] IN
  CASE s.st = "plain" -> IF b = Marker THEN [s EXCEPT !.st = "esc"] ELSE put(s, b)
    [] s.st = "esc"   -> IF b = Marker THEN put([s EXCEPT !.st = "plain"], b)
                         ELSE IF b = Rle /\ s.p = <<>> THEN [s EXCEPT !.st = "len"] ELSE [s EXCEPT !.st = "bad"]
    [] s.st = "len"   -> [s EXCEPT !.st = "word", !.n = b, !.g = <<>>]
    [] s.st = "word"  -> IF Len(s.g) + 1 = WL THEN [s EXCEPT !.st = "plain", !.o = AddRun(@, NormWord(Append(s.g, b)), s.n)] ELSE [s EXCEPT !.g = Append(@, b)]
    [] OTHER -> s
DecodeRuns(bs) == LET z == FoldLeft(DecRunStep, [o |-> <<>>, st |-> "plain", n |-> 0, g |-> <<>>, p |-> <<>>], bs) IN
                  [ok |-> z.st = "plain" /\ z.p = <<>>, o |-> z.o]
TotalRuns(rs) == FoldLeft(LAMBDA a, r : a + r[2], 0, rs)

-----------------------------------------------------------------------------
Slots == 1..NSlots
None == [live |-> FALSE, d |-> <<0,0,0,0>>, c |-> <<>>, v |-> <<>>]
Init == cf = <<>> /\ pos = 0 /\ cs = [i \in Slots |-> None] /\ out = <<>>
RecLen(r) == CHDR + Len(r.c)
RECURSIVE Offset(_, _)
Offset(rs, k) == IF k = 0 THEN 0 ELSE Offset(rs, k - 1) + RecLen(rs[k])

(* any code is right that the decoder maps back to the same numbers *)
Compress(i, d, v, c) ==
  /\ Len(v) = WL * N(d)
  /\ LET z == Decode(c) IN z.ok /\ SameNumbers(z.o, v)
  /\ cs' = [cs EXCEPT ![i] = [live |-> TRUE, d |-> d, c |-> c, v |-> v]]
  /\ out' = <<>> /\ UNCHANGED <<cf, pos>>
CompressRuns(i, d, rs, c) ==
  /\ TotalRuns(rs) = N(d)
  /\ LET z == DecodeRuns(c)  v == MergeRuns(rs) IN
       /\ z.ok /\ z.o = v
       /\ cs' = [cs EXCEPT ![i] = [live |-> TRUE, d |-> d, c |-> c, v |-> v]]
  /\ out' = <<>> /\ UNCHANGED <<cf, pos>>
Write(i) == cs[i].live /\ cf' = Append(cf, cs[i]) /\ UNCHANGED <<pos, cs>> /\ out' = <<>>
Craft(d, c) == LET z == Decode(c) IN      \* a record written by someone else
  /\ z.ok /\ Len(z.o) = WL * N(d)
  /\ cf' = Append(cf, [live |-> TRUE, d |-> d, c |-> c, v |-> z.o]) /\ UNCHANGED <<pos, cs>> /\ out' = <<>>
Read(i, mode) ==
  /\ pos < Len(cf)
  /\ pos' = pos + 1
  /\ cs' = [cs EXCEPT ![i] = IF mode = "head" THEN [cf[pos+1] EXCEPT !.live = FALSE, !.v = <<>>] ELSE cf[pos+1]]
  /\ out' = <<>> /\ UNCHANGED cf
Skip == pos < Len(cf) /\ pos' = pos + 1 /\ UNCHANGED <<cf, cs>> /\ out' = <<>>
Decompress(i) == cs[i].live /\ out' = cs[i].v /\ UNCHANGED <<cf, pos, cs>>
Drop(i) == cs' = [cs EXCEPT ![i] = None] /\ out' = <<>> /\ UNCHANGED <<cf, pos>>
Rewind == pos' = 0 /\ out' = <<>> /\ UNCHANGED <<cf, cs>>
=============================================================================

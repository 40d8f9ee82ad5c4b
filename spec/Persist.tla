------------------------------ MODULE Persist ------------------------------
(* A file of serialized tensors and a set of tensor objects (slots) written to and read from it.
   A record occupies HDR words (four 64 bit sizes) plus one word of 4 bytes per element.  Elements are bit patterns, given
   as two 16 bit halves; the contents of a large tensor are given by a fingerprint that starts with -1, those of a hole in
   the file, which reads as zeros, by <<-2>>.  Reading sequentially copies, reading with memory mapping maps the pages the elements lie in, reading
   only the header gives a tensor of that shape with unspecified contents. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NSlots, HDR, PAGE
VARIABLES recs, pos, sl, ret
pvars == <<recs, pos, sl, ret>>

Slots == 1..NSlots
NoTen == [live |-> FALSE, d |-> <<0,0,0,0>>, v |-> <<>>, def |-> TRUE, pages |-> 0]
EmptyT == [NoTen EXCEPT !.live = TRUE]
N(d) == d[1] * d[2] * d[3] * d[4]
Words(r) == HDR + N(r.d)
Marked(v, k) == Len(v) > 0 /\ v[1] = k
Hole(r) == Marked(r.v, -2)
RECURSIVE Offset(_, _)
Offset(rs, k) == IF k = 0 THEN 0 ELSE Offset(rs, k - 1) + Words(rs[k])      \* first word of record k+1
Length == Offset(recs, Len(recs))
Pages(off, n) == ((off % PAGE) + n + PAGE - 1) \div PAGE
(* pages of the file mapped by all slots *)
RECURSIVE Sum(_, _)
Sum(S, k) == IF k = 0 THEN 0 ELSE Sum(S, k - 1) + S[k].pages
Mapped(S) == Sum(S, NSlots)

Shape(d) == IF N(d) = 0 THEN <<0,0,0,0>> ELSE d

Init == recs = <<>> /\ pos = 0 /\ sl = [i \in Slots |-> NoTen] /\ ret = 0

New(i, d) ==
  /\ ~sl[i].live
  /\ sl' = [sl EXCEPT ![i] = [live |-> TRUE, d |-> Shape(d), v |-> <<>>, def |-> N(d) = 0, pages |-> 0]]
  /\ UNCHANGED <<recs, pos>> /\ ret' = 0
Fill(i, v) ==                    \* the caller writes every element of a tensor that is not memory mapped
  /\ sl[i].live /\ sl[i].pages = 0 /\ (Marked(v, -1) \/ Len(v) = 2 * N(sl[i].d))
  /\ sl' = [sl EXCEPT ![i].v = v, ![i].def = TRUE]
  /\ UNCHANGED <<recs, pos>> /\ ret' = 0
Write(i) ==
  /\ sl[i].live /\ sl[i].def /\ ~Hole(sl[i])
  /\ recs' = Append(recs, [d |-> sl[i].d, v |-> sl[i].v])
  /\ UNCHANGED <<pos, sl>> /\ ret' = 0
Huge(d) ==                       \* someone else writes a record of more than 2^32 bytes
  /\ recs' = Append(recs, [d |-> d, v |-> <<-2>>])
  /\ UNCHANGED <<pos, sl>> /\ ret' = 0
Read(i, mode) ==
  /\ sl[i].live /\ pos < Len(recs)
  /\ mode = "seq" => ~Hole(recs[pos + 1])
  /\ LET r == recs[pos + 1] IN
     sl' = [sl EXCEPT ![i] =
       [live |-> TRUE, d |-> r.d,
        v |-> IF mode = "head" THEN <<>> ELSE r.v, def |-> mode # "head" \/ N(r.d) = 0,
        pages |-> IF mode = "map" /\ N(r.d) > 0 THEN Pages(Offset(recs, pos) + HDR, N(r.d)) ELSE 0]]
  /\ pos' = pos + 1 /\ UNCHANGED recs /\ ret' = 0
Rewind == pos' = 0 /\ UNCHANGED <<recs, sl>> /\ ret' = 0
Truncate == recs' = <<>> /\ pos' = 0 /\ (\A i \in Slots : sl[i].pages = 0) /\ UNCHANGED sl /\ ret' = 0
Resize(i, d) ==
  /\ sl[i].live
  /\ sl' = [sl EXCEPT ![i] = IF N(d) = N(sl[i].d) /\ N(d) > 0 THEN [@ EXCEPT !.d = d]
                             ELSE [live |-> TRUE, d |-> Shape(d), v |-> <<>>, def |-> N(d) = 0, pages |-> 0]]
  /\ UNCHANGED <<recs, pos>> /\ ret' = 0
CopyTo(i, j) == i # j /\ ~sl[i].live /\ sl[j].live /\ N(sl[j].d) < 100000000 /\ sl' = [sl EXCEPT ![i] = [sl[j] EXCEPT !.pages = 0]] /\ UNCHANGED <<recs, pos>> /\ ret' = 0
MoveTo(i, j) == i # j /\ ~sl[i].live /\ sl[j].live /\ sl' = [sl EXCEPT ![i] = sl[j], ![j] = EmptyT] /\ UNCHANGED <<recs, pos>> /\ ret' = 0
Release(i) == sl[i].live /\ sl' = [sl EXCEPT ![i] = EmptyT] /\ UNCHANGED <<recs, pos>> /\ ret' = 0
Destroy(i) == sl[i].live /\ sl' = [sl EXCEPT ![i] = NoTen] /\ UNCHANGED <<recs, pos>> /\ ret' = 0
(* one tensor in a file of its own *)
Through(i, j) == sl[i].live /\ sl[i].def /\ ~Hole(sl[i]) /\ i # j /\ sl[j].live /\ sl' = [sl EXCEPT ![j] = [sl[i] EXCEPT !.pages = 0]] /\ UNCHANGED <<recs, pos>> /\ ret' = 0

TypeOk == /\ \A i \in Slots : sl[i].live => (sl[i].def => Marked(sl[i].v, -1) \/ Hole(sl[i]) \/ Len(sl[i].v) = 2 * N(sl[i].d)) /\ (N(sl[i].d) = 0 => sl[i].pages = 0)
          /\ pos <= Len(recs)
=============================================================================

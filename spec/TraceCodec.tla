----------------------------- MODULE TraceCodec -----------------------------
EXTENDS Codec, TraceBase
VARIABLE x
vars == <<cf, pos, cs, out, l>>
A(n) == E.a[n]
(* dimensions and stored length of every live compressed slot, file length, reader position *)
Observed ==
  /\ E.len = Offset(cf', Len(cf'))
  /\ E.tell = Offset(cf, pos')
  /\ \A i \in Slots : cs'[i].live => E.d[i] = cs'[i].d \o <<Len(cs'[i].c)>>
TBegin == IsEvent("Begin") /\ cf' = <<>> /\ pos' = 0 /\ cs' = [i \in Slots |-> None] /\ out' = <<>>
Op ==
  \/ IsEvent("Compress") /\ Compress(A(1), <<A(2), A(3), A(4), A(5)>>, E.v, E.c)
  \/ IsEvent("CompressRuns") /\ CompressRuns(A(1), <<A(2), A(3), A(4), A(5)>>, E.rs, E.c)
  \/ IsEvent("DecompressRuns") /\ Decompress(A(1)) /\ E.od = cs[A(1)].d /\ MergeRuns(E.rs) = out'
  \/ IsEvent("Write") /\ Write(A(1)) /\ E.c = cs[A(1)].c          \* the bytes that were written
  \/ IsEvent("Craft") /\ Craft(<<A(2), A(3), A(4), A(5)>>, E.c)
  \/ IsEvent("Read") /\ Read(A(1), E.m)
  \/ IsEvent("Skip") /\ Skip
  \/ IsEvent("Decompress") /\ Decompress(A(1)) /\ E.od = cs[A(1)].d /\ SameNumbers(E.v, out')
  \/ IsEvent("Drop") /\ Drop(A(1))
  \/ IsEvent("Rewind") /\ Rewind
TNext == (TBegin \/ (Op /\ Observed)) /\ UNCHANGED x
TSpec == Init /\ l = 1 /\ x = 0 /\ [][TNext]_<<vars, x>>
=============================================================================

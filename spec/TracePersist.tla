---------------------------- MODULE TracePersist ----------------------------
(* Every event carries the shape and the bit patterns of every defined slot, the reader's position, the file's length (in words)
   and the number of pages of the file mapped into the process. *)
EXTENDS Persist, TraceBase
VARIABLE x
vars == <<recs, pos, sl, ret, l>>
A(n) == E.a[n]
Observed ==
  /\ E.len = Offset(recs', Len(recs'))
  /\ E.tell = Offset(recs, pos')
  /\ E.pages = Mapped(sl')
  /\ \A i \in Slots : E.d[i] = (IF sl'[i].live THEN sl'[i].d ELSE <<>>) /\ (sl'[i].live /\ sl'[i].def => E.v[i] = sl'[i].v)
TBegin == IsEvent("Begin") /\ recs' = <<>> /\ pos' = 0 /\ sl' = [i \in Slots |-> NoTen] /\ ret' = 0
Op ==
  \/ IsEvent("New") /\ New(A(1), <<A(2), A(3), A(4), A(5)>>)
  \/ IsEvent("Fill") /\ Fill(A(1), E.f)
  \/ IsEvent("Write") /\ Write(A(1))
  \/ IsEvent("Read") /\ Read(A(1), E.m)
  \/ IsEvent("Huge") /\ Huge(<<A(1), A(2), A(3), A(4)>>)
  \/ IsEvent("Rewind") /\ Rewind
  \/ IsEvent("Truncate") /\ Truncate
  \/ IsEvent("Resize") /\ Resize(A(1), <<A(2), A(3), A(4), A(5)>>)
  \/ IsEvent("CopyTo") /\ CopyTo(A(1), A(2))
  \/ IsEvent("MoveTo") /\ MoveTo(A(1), A(2))
  \/ IsEvent("Release") /\ Release(A(1))
  \/ IsEvent("Destroy") /\ Destroy(A(1))
  \/ IsEvent("Through") /\ Through(A(1), A(2))
TNext == (TBegin \/ (Op /\ Observed)) /\ UNCHANGED x
TSpec == Init /\ l = 1 /\ x = 0 /\ [][TNext]_<<vars, x>>
=============================================================================

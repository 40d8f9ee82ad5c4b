---------------------------- MODULE TraceAlgebra ----------------------------
EXTENDS Algebra, TraceBase
VARIABLE x
A(n) == E.a[n]
Bo(n) == E.a[n] = 1
Observed == E.ok = ok' /\ \A r \in Regs : E.d[r] = reg'[r].d /\ E.v[r] = reg'[r].v
G == [w |-> A(2), h |-> A(3), m |-> A(4), s |-> A(5), kx |-> A(6), ky |-> A(7), sx |-> A(8), sy |-> A(9), px |-> A(10), py |-> A(11)]
TBegin == IsEvent("Begin") /\ reg' = [i \in Regs |-> Empty] /\ ok' = TRUE
(* the build without a BLAS library declines matrices stored by columns; nothing is computed then *)
Declined == ~E.ok /\ ~E.blas /\ ~Bo(1) /\ Refuse
Op ==
  \/ IsEvent("Set") /\ Set(A(1), <<A(2), A(3), A(4), A(5)>>, SubSeq(E.a, 6, Len(E.a)))
  \/ IsEvent("Gemm") /\ (Declined \/ Gemm(Bo(1), Bo(2), Bo(3), A(4), A(5), A(6), A(7), A(8), A(9), A(10), A(11), A(12), A(13), A(14), A(15), A(16), A(17)))
  \/ IsEvent("Gemv") /\ (Declined \/ Gemv(Bo(1), Bo(2), A(3), A(4), A(5), A(6), A(7), A(8), A(9), A(10), A(11), A(12), A(13), A(14), A(15)))
  \/ IsEvent("Im2col") /\ Im2col(A(1), G, A(12))
  \/ IsEvent("Col2im") /\ Col2im(A(1), G, A(12))
  \/ IsEvent("SetSample") /\ SetSample(A(1), A(2), A(3))
  \/ IsEvent("Sms") /\ Sms(A(1), A(2))
  \/ IsEvent("Down") /\ Down(A(1), A(2), A(3), A(4), A(5))
  \/ IsEvent("Up") /\ Up(A(1), A(2), A(3), A(4), A(5))
  \/ IsEvent("Add") /\ Add(A(1), A(2), A(3))
TNext == (TBegin \/ (Op /\ Observed)) /\ UNCHANGED x
TSpec == Init /\ l = 1 /\ x = 0 /\ [][TNext]_<<reg, ok, l, x>>
=============================================================================

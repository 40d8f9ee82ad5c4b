---------------------------- MODULE TraceTensor ----------------------------
(* Accepts a recorded history of tensor operations iff it is a behaviour of Tensor.tla.  Every event carries the
   operation, its arguments, its result, and shape + contents of every usable tensor afterwards. *)
EXTENDS Tensor, TraceBase
VARIABLE x
vars == <<ten, heap, ret, l>>
A(n) == E.a[n]
Obs(i) == E.v[i]

Observed ==  \* what the real tensors look like afterwards
  /\ E.r = ret'
  /\ E.held <= Cardinality({i \in Slots : ten'[i].live /\ ten'[i].own})      \* nothing is kept that no tensor owns
  /\ \A i \in Slots :
       IF ten'[i].live /\ ~ten'[i].dang
       THEN /\ E.d[i] = <<ten'[i].s, ten'[i].w, ten'[i].h, ten'[i].m, Cnt(ten'[i])>>
            /\ E.v[i] = (IF ten'[i].st = 0 THEN <<>> ELSE heap'[ten'[i].st])
       ELSE E.d[i] = <<>>

TBegin == IsEvent("Begin") /\ ten' = [i \in Slots |-> None] /\ heap' = [k \in Ids |-> <<>>] /\ ret' = TRUE
Op ==
  \/ IsEvent("NewEmpty") /\ NewEmpty(A(1))
  \/ IsEvent("New") /\ New(A(1), A(2), A(3), A(4), A(5), Obs(A(1)))
  \/ IsEvent("Resize") /\ Resize(A(1), A(2), A(3), A(4), A(5), Obs(A(1)))
  \/ IsEvent("Adopt") /\ Adopt(A(1), A(2), A(3), A(4), A(5), [e \in 1..(A(2) * A(3) * A(4) * A(5)) |-> A(6) + e])
  \/ IsEvent("Keep") /\ Keep(A(1), A(2), A(3), A(4), A(5))
  \/ IsEvent("Reshape") /\ Reshape(A(1), A(2), A(3), A(4), A(5))
  \/ IsEvent("Shadow") /\ Shadow(A(1), A(2))
  \/ IsEvent("Copy") /\ Copy(A(1), A(2))
  \/ IsEvent("Move") /\ Move(A(1), A(2))
  \/ IsEvent("Transpose") /\ Transpose(A(1))
  \/ IsEvent("Clear") /\ Clear(A(1), A(2))
  \/ IsEvent("ClearSample") /\ ClearSample(A(1), A(2), A(3))
  \/ IsEvent("Set") /\ Set(A(1), A(2), A(3), A(4), A(5), A(6))
  \/ IsEvent("Release") /\ Release(A(1))
  \/ IsEvent("Destroy") /\ Destroy(A(1))
  \/ IsEvent("CopySample") /\ CopySample(A(1), A(2), A(3), A(4))
  \/ IsEvent("CopyMap") /\ CopyMap(A(1), A(2), A(3), A(4), A(5), A(6))
  \/ IsEvent("Fill") /\ HasData(A(1)) /\ UNCHANGED ten /\ ret' = TRUE
        /\ heap' = [heap EXCEPT ![ten[A(1)].st] = [e \in 1..Len(@) |-> A(2) + e]]
(* all remaining tensors have been destroyed *)
TEnd == IsEvent("End") /\ E.held = 0 /\ UNCHANGED tvars
TNext == (TBegin \/ TEnd \/ (Op /\ Observed)) /\ UNCHANGED x
TSpec == Init /\ l = 1 /\ x = 0 /\ [][TNext]_<<vars, x>>
=============================================================================

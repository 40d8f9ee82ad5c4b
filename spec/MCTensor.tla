------------------------------ MODULE MCTensor ------------------------------
(* Bounded exploration of Tensor.tla; also generates the scenarios executed by the real code.
   SIM = FALSE: exhaustive over small shapes, one scenario per explored transition.
   SIM = TRUE:  random parameters over larger shapes (tlc -simulate), one scenario per behaviour.
   OPS selects the operations: "life" (P01) or "copy" (P02). *)
EXTENDS Tensor, TLC, Json
CONSTANTS SIM, BIG, OPS, Shapes, MaxLen, MaxDim
VARIABLES fill, hist
mvars == <<ten, heap, ret, fill, hist>>

LifeShapes == {<<1,2,1,1>>, <<2,1,1,1>>, <<1,2,2,1>>, <<0,1,1,1>>}
CopyShapes == {<<1,1,2,1>>, <<2,2,1,1>>, <<1,1,1,2>>, <<2,2,2,1>>}
Rnd(S) == IF SIM THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
Seq0(n) == [e \in 1..n |-> 0]
(* sizes at which an implementation may switch to another method *)
Between(a, b) == RandomElement(a..b)
BigShape(q) ==
  IF OPS = "copy" THEN CASE Between(1, 3) = 1 -> {<<Between(1, 2), 64, 32, 2>>} [] Between(1, 2) = 1 -> {<<1, 33, 128, 2>>} [] OTHER -> {<<Between(1, 3), Between(20, 70), Between(20, 70), 2>>}
  ELSE LET k == Between(1, 14) IN {<< <<1,32,32,1>>, <<1,64,64,1>>, <<1,64,16,4>>, <<4,16,16,4>>, <<1,1,1,4096>>, <<257,2,2,1>>, <<2,2,2,300>>, <<1,300,17,2>>, <<1,17,300,2>>, <<1,1,1100,3>>,
         <<1,70,65,1>>, <<3,5,7,11>>, <<1,2100,1,2>>, <<1,66001,1,1>> >>[IF k = 14 /\ Between(1, 3) > 1 THEN 1 ELSE k]}
RShape(q) == IF BIG THEN BigShape(q) ELSE {<<RandomElement(1..3), RandomElement(1..MaxDim), RandomElement(1..MaxDim), RandomElement(1..3)>>}
SomeShape(q) == IF SIM THEN (IF RandomElement(1..25) = 1 THEN {<<0, 2, 2, 1>>} ELSE RShape(q)) ELSE Shapes
(* shapes with the same number of elements as slot i *)
Same(i) == IF ten[i].st = 0 THEN {} ELSE {<<ten[i].s, ten[i].h, ten[i].w, ten[i].m>>, <<ten[i].m, ten[i].w, ten[i].s, ten[i].h>>, <<1, Cnt(ten[i]), 1, 1>>}
P(s) == s[1] * s[2] * s[3] * s[4]
Rec(op) == hist' = Append(hist, <<TLCEval([i \in Slots |-> IF ten'[i].live /\ ~ten'[i].dang THEN 1 ELSE 0]), op>>)

MInit == Init /\ fill = 0 /\ hist = <<>>

DoFill ==
  /\ fill # 0 /\ UNCHANGED ten
  /\ LET i == fill IN
     /\ HasData(i)
     /\ heap' = [heap EXCEPT ![ten[i].st] = [e \in 1..Len(@) |-> 100 * i + e + 3 * (Len(hist) % 7)]]
     /\ Rec(<<"Fill", i, 100 * i + 3 * (Len(hist) % 7)>>)
  /\ fill' = 0 /\ ret' = TRUE

(* contents are unspecified after an allocation: write them next *)
Fresh(i) == IF ten'[i].st # 0 /\ (~ten[i].own \/ heap'[ten'[i].st] # heap[ten'[i].st] \/ ten[i].st # ten'[i].st) THEN i ELSE 0

Life ==
  \/ \E i \in Rnd(Slots) : NewEmpty(i) /\ fill' = 0 /\ Rec(<<"NewEmpty", i>>)
  \/ \E i \in Rnd(Slots), s \in SomeShape(hist) : New(i, s[1], s[2], s[3], s[4], Seq0(P(s))) /\ fill' = Fresh(i) /\ Rec(<<"New", i>> \o s)
  \/ \E i \in Rnd(Slots) : \E s \in SomeShape(hist) \cup Rnd(Same(i) \cup {<<1,2,2,1>>}) :
       Resize(i, s[1], s[2], s[3], s[4], Seq0(P(s))) /\ fill' = (IF Fits(i,s[1],s[2],s[3],s[4]) THEN 0 ELSE Fresh(i)) /\ Rec(<<"Resize", i>> \o s)
  \/ \E i \in Rnd(Slots) : \E s \in SomeShape(hist) \cup Rnd(Same(i) \cup {<<1,2,2,1>>}) : Reshape(i, s[1], s[2], s[3], s[4]) /\ fill' = 0 /\ Rec(<<"Reshape", i>> \o s)
  \/ \E i \in Rnd(Slots) : \E s \in IF SIM THEN SomeShape(hist) \cup Rnd(Same(i) \cup {<<1,2,2,1>>}) ELSE {<<1,2,1,1>>} :
       Adopt(i, s[1], s[2], s[3], s[4], [e \in 1..P(s) |-> 40 + e]) /\ fill' = 0 /\ Rec(<<"Adopt", i>> \o s \o <<40>>)
  \/ SIM /\ \E i \in Rnd(Slots) : \E s \in Rnd(Same(i)) : Keep(i, s[1], s[2], s[3], s[4]) /\ fill' = 0 /\ Rec(<<"Keep", i>> \o s)
  \/ \E i \in Rnd(Slots), j \in Rnd(Slots) : Shadow(i, j) /\ fill' = 0 /\ Rec(<<"Shadow", i, j>>)
  \/ \E i \in Rnd(Slots), j \in Rnd(Slots) : Copy(i, j) /\ fill' = 0 /\ Rec(<<"Copy", i, j>>)
  \/ \E i \in Rnd(Slots), j \in Rnd(Slots) : Move(i, j) /\ fill' = 0 /\ Rec(<<"Move", i, j>>)
  \/ \E i \in Rnd(Slots) : Transpose(i) /\ fill' = 0 /\ Rec(<<"Transpose", i>>)
  \/ \E i \in Rnd(Slots) : Clear(i, 7) /\ fill' = 0 /\ Rec(<<"Clear", i, 7>>)
  \/ \E i \in Rnd(Slots) : \E s \in Rnd(0..(IF ten[i].s = 0 THEN 0 ELSE ten[i].s - 1)) : ClearSample(i, s, 5) /\ fill' = 0 /\ Rec(<<"ClearSample", i, s, 5>>)
  \/ \E i \in Rnd(Slots) : HasData(i) /\
       LET t == ten[i]
           xx == IF SIM THEN RandomElement(0..(t.w - 1)) ELSE t.w - 1
           yy == IF SIM THEN RandomElement(0..(t.h - 1)) ELSE t.h - 1
           mm == IF SIM THEN RandomElement(0..(t.m - 1)) ELSE 0
           ss == IF SIM THEN RandomElement(0..(t.s - 1)) ELSE t.s - 1
       IN Set(i, xx, yy, mm, ss, -3) /\ fill' = 0 /\ Rec(<<"Set", i, xx, yy, mm, ss, -3>>)
  \/ \E i \in Rnd(Slots) : Release(i) /\ fill' = 0 /\ Rec(<<"Release", i>>)
  \/ \E i \in Rnd(Slots) : Destroy(i) /\ fill' = 0 /\ Rec(<<"Destroy", i>>)

Setup ==   \* copy scenarios start from tensors with distinct contents
  \/ \E i \in Rnd(Slots), s \in SomeShape(hist) : New(i, s[1], s[2], s[3], s[4], Seq0(P(s))) /\ fill' = Fresh(i) /\ Rec(<<"New", i>> \o s)
Idx(n) == IF SIM THEN {RandomElement(0..n)} ELSE 0..n
Copies ==
  \/ \E i \in Rnd(Slots), j \in Rnd(Slots) : HasData(i) /\ HasData(j) /\ \E ss \in Idx(ten[j].s), ts \in Idx(ten[i].s) :
       CopySample(j, ss, i, ts) /\ fill' = 0 /\ Rec(<<"CopySample", j, ss, i, ts>>)
  \/ \E i \in Rnd(Slots), j \in Rnd(Slots) : HasData(i) /\ HasData(j) /\ \E ss \in Idx(ten[j].s), ts \in Idx(ten[i].s), sm \in Idx(ten[j].m - 1), tm \in Idx(ten[i].m - 1) :
       CopyMap(j, ss, sm, i, ts, tm) /\ fill' = 0 /\ Rec(<<"CopyMap", j, ss, sm, i, ts, tm>>)

AllLive == \A i \in Slots : ten[i].live
MNext ==
  \/ DoFill
  \/ fill = 0 /\ OPS = "life" /\ Life
  \/ fill = 0 /\ OPS = "copy" /\ ~AllLive /\ Setup
  \/ fill = 0 /\ OPS = "copy" /\ AllLive /\ Copies
  \/ fill = 0 /\ OPS = "copy" /\ AllLive /\ SIM /\ \E i \in Rnd(Slots) : Clear(i, 9) /\ fill' = 0 /\ Rec(<<"Clear", i, 9>>)
  \/ fill = 0 /\ OPS = "copy" /\ AllLive /\ SIM /\ \E i \in Rnd(Slots) : UNCHANGED <<ten, heap>> /\ ret' = TRUE /\ fill' = i /\ UNCHANGED hist
  \/ fill = 0 /\ OPS = "copy" /\ SIM /\ \E i \in Rnd(Slots) : ten[i].live /\ \E s \in SomeShape(hist) :
       Resize(i, s[1], s[2], s[3], s[4], Seq0(P(s))) /\ fill' = (IF Fits(i,s[1],s[2],s[3],s[4]) THEN 0 ELSE Fresh(i)) /\ Rec(<<"Resize", i>> \o s)

MSpec == MInit /\ [][MNext]_mvars

View == <<ten, heap, fill>>
Bound == Len(hist) < MaxLen
(* one scenario per transition whose target completes an operation (not in the middle of an allocation) *)
Export == (fill' = 0 /\ ~SIM /\ OPS = "life") => PrintT("@@" \o ToJson(hist'))
ExportC == (~SIM /\ OPS = "copy" /\ AllLive /\ fill' = 0 /\ fill = 0) => PrintT("@@" \o ToJson(hist'))
ExportAll == Export /\ ExportC
(* simulation: print the behaviour when it has its full length *)
SimExport == (SIM /\ Len(hist) = MaxLen) => PrintT("@@" \o ToJson(hist))

CopyLocal ==  \* property P02 on the model: a copy changes nothing outside its target region, a refused one nothing at all
  [][ (Len(hist') > Len(hist) /\ hist'[Len(hist')][2][1] = "CopySample") =>
        LET op == hist'[Len(hist')][2]  i == op[4]  n == ten[i].w * ten[i].h * ten[i].m IN
        /\ \A k \in Ids : k # ten[i].st => heap'[k] = heap[k]
        /\ \A e \in 1..Len(heap[ten[i].st]) : heap'[ten[i].st][e] # heap[ten[i].st][e] => (ret' /\ (e - 1) \div n = op[5])
        /\ ten' = ten ]_mvars
=============================================================================

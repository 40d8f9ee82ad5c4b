------------------------------- MODULE Tensor -------------------------------
(* Tensors: handles (slots) onto element storage.  A slot either owns its storage or shares the storage of another
   tensor ("shadow").  Storage is a sequence of elements in sample-major, then map, row, column order.
   One action per public operation of Conv::Tensor.  Freshly allocated elements have unspecified contents, passed to
   the action as parameter c (a sequence of the right length). *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT NSlots
VARIABLES ten, heap, ret
tvars == <<ten, heap, ret>>

Slots == 1..NSlots
None  == [live |-> FALSE, s |-> 0, w |-> 0, h |-> 0, m |-> 0, st |-> 0, own |-> FALSE, dang |-> FALSE]
Empty == [None EXCEPT !.live = TRUE]
Ids   == 1..NSlots

Init == ten = [i \in Slots |-> None] /\ heap = [k \in Ids |-> <<>>] /\ ret = TRUE

Cnt(t)       == t.s * t.w * t.h * t.m
Off(t,x,y,m,s) == s * t.m * t.w * t.h + m * t.w * t.h + y * t.w + x      \* 0-based
Usable(i)    == ten[i].live /\ ~ten[i].dang
HasData(i)   == Usable(i) /\ ten[i].st # 0
Elem(i,x,y,m,s) == heap[ten[i].st][Off(ten[i],x,y,m,s) + 1]
Free(T)      == CHOOSE k \in Ids : (\A i \in Slots : ~(T[i].st = k /\ T[i].own)) /\ \A j \in Ids : j < k => \E i \in Slots : T[i].st = j /\ T[i].own

(* releasing slot i: frees what it owns; tensors sharing that storage are left dangling *)
RelTen(T, i) ==
  [j \in Slots |->
     IF j = i THEN Empty
     ELSE IF T[i].own /\ T[j].st = T[i].st /\ T[i].st # 0 THEN [T[j] EXCEPT !.dang = TRUE, !.st = 0, !.own = FALSE]
     ELSE T[j]]
RelHeap(T, H, i) == IF T[i].own THEN [H EXCEPT ![T[i].st] = <<>>] ELSE H

(* allocate for slot i (already released in T,H) *)
Alloc(T, H, i, s, w, h, m, c) ==
  IF s * w * h * m = 0
  THEN ten' = [T EXCEPT ![i] = Empty] /\ heap' = H
  ELSE LET k == Free(T) IN
       /\ ten'  = [T EXCEPT ![i] = [live |-> TRUE, s |-> s, w |-> w, h |-> h, m |-> m, st |-> k, own |-> TRUE, dang |-> FALSE]]
       /\ heap' = [H EXCEPT ![k] = c]

NewEmpty(i) == ~ten[i].live /\ ten' = [ten EXCEPT ![i] = Empty] /\ UNCHANGED heap /\ ret' = TRUE
New(i,s,w,h,m,c) == ~ten[i].live /\ Alloc(ten, heap, i, s, w, h, m, c) /\ ret' = TRUE

Fits(i,s,w,h,m) == ten[i].st # 0 /\ Cnt(ten[i]) = s * w * h * m

Resize(i,s,w,h,m,c) ==       \* (resizing a tensor whose shared memory is gone is the caller's error: not a behaviour)
  /\ Usable(i)
  /\ ret' = TRUE
  /\ IF Fits(i,s,w,h,m)
     THEN ten' = [ten EXCEPT ![i].s = s, ![i].w = w, ![i].h = h, ![i].m = m] /\ UNCHANGED heap
     ELSE Alloc(RelTen(ten, i), RelHeap(ten, heap, i), i, s, w, h, m, c)

Adopt(i,s,w,h,m,c) ==        \* takes over an array of the caller, which holds c
  /\ Usable(i) /\ s * w * h * m > 0 /\ ret' = TRUE
  /\ Alloc(RelTen(ten, i), RelHeap(ten, heap, i), i, s, w, h, m, c)
(* given its own array again, with another shape *)
Keep(i,s,w,h,m) == Fits(i,s,w,h,m) /\ Resize(i,s,w,h,m,<<>>)

Reshape(i,s,w,h,m) ==
  /\ Usable(i)
  /\ ret' = Fits(i,s,w,h,m)
  /\ ten' = IF Fits(i,s,w,h,m) THEN [ten EXCEPT ![i].s = s, ![i].w = w, ![i].h = h, ![i].m = m] ELSE ten
  /\ UNCHANGED heap

Shadow(i,j) ==
  /\ i # j /\ ten[i].live /\ Usable(j)
  /\ ~(ten[i].own /\ ten[j].st = ten[i].st)
  /\ LET T == RelTen(ten, i) IN ten' = [T EXCEPT ![i] = [T[j] EXCEPT !.own = FALSE]]
  /\ heap' = RelHeap(ten, heap, i)
  /\ ret' = TRUE

Transpose(i) ==
  /\ Usable(i) /\ ret' = TRUE
  /\ IF ten[i].st = 0 THEN UNCHANGED <<ten, heap>>
     ELSE LET t == ten[i]
              n == [t EXCEPT !.w = t.h, !.h = t.w]
              old == heap[t.st]
              a == n.w * n.h
          IN /\ ten' = [ten EXCEPT ![i] = n]
             /\ heap' = [heap EXCEPT ![t.st] = [e \in 1..Len(old) |->
                   LET p == (e - 1) % a  x == p % n.w  y == p \div n.w
                   IN old[((e - 1) \div a) * a + x * t.w + y + 1]]]

Clear(i,v) ==
  /\ Usable(i) /\ ret' = TRUE /\ UNCHANGED ten
  /\ heap' = IF ten[i].st = 0 THEN heap ELSE [heap EXCEPT ![ten[i].st] = [e \in 1..Len(@) |-> IF e <= Cnt(ten[i]) THEN v ELSE @[e]]]

ClearSample(i,s,v) ==
  /\ HasData(i) /\ s < ten[i].s /\ ret' = TRUE /\ UNCHANGED ten
  /\ LET n == ten[i].w * ten[i].h * ten[i].m IN
     heap' = [heap EXCEPT ![ten[i].st] = [e \in 1..Len(@) |-> IF e > n * s /\ e <= n * (s + 1) THEN v ELSE @[e]]]

Set(i,x,y,m,s,v) ==
  /\ HasData(i) /\ x < ten[i].w /\ y < ten[i].h /\ m < ten[i].m /\ s < ten[i].s
  /\ heap' = [heap EXCEPT ![ten[i].st][Off(ten[i],x,y,m,s) + 1] = v]
  /\ UNCHANGED ten /\ ret' = TRUE

Copy(i,j) ==      \* slot i is constructed as a copy of slot j
  /\ ~ten[i].live /\ Usable(j) /\ ret' = TRUE
  /\ Alloc(ten, heap, i, ten[j].s, ten[j].w, ten[j].h, ten[j].m, IF ten[j].st = 0 THEN <<>> ELSE SubSeq(heap[ten[j].st], 1, Cnt(ten[j])))

Move(i,j) ==      \* slot i is constructed by moving from slot j, which stays alive but empty
  /\ i # j /\ ~ten[i].live /\ Usable(j) /\ ret' = TRUE
  /\ ten' = [ten EXCEPT ![i] = ten[j], ![j] = Empty]
  /\ UNCHANGED heap

Release(i) == ten[i].live /\ ten' = RelTen(ten, i) /\ heap' = RelHeap(ten, heap, i) /\ ret' = TRUE
Destroy(i) == ten[i].live /\ ten' = [RelTen(ten, i) EXCEPT ![i] = None] /\ heap' = RelHeap(ten, heap, i) /\ ret' = TRUE

-----------------------------------------------------------------------------
(* Copies between tensors *)
MapsTo(src, dst) == src.w <= dst.w /\ src.h <= dst.h
SampleOk(j,ss,i,ts) == ten[j].m = ten[i].m /\ MapsTo(ten[j], ten[i]) /\ ss < ten[j].s /\ ts < ten[i].s
MapOk(j,ss,i,ts)    == MapsTo(ten[j], ten[i]) /\ ss < ten[j].s /\ ts < ten[i].s

(* storage of slot i after map (ss,sm) of slot j was written to map (ts,tm) of slot i *)
Region(i,ts,tm,e) == LET n == ten[i].w * ten[i].h IN e > (ts * ten[i].m + tm) * n /\ e <= (ts * ten[i].m + tm + 1) * n
Pixel(j,ss,sm,i,e) ==
  LET p == (e - 1) % (ten[i].w * ten[i].h)  x == p % ten[i].w  y == p \div ten[i].w
  IN  IF x < ten[j].w /\ y < ten[j].h THEN Elem(j,x,y,sm,ss) ELSE 0

CopySample(j,ss,i,ts) ==
  /\ HasData(i) /\ HasData(j) /\ ~(ten[i].st = ten[j].st /\ ~(ss # ts /\ ten[i] = ten[j])) 
  /\ ret' = SampleOk(j,ss,i,ts) /\ UNCHANGED ten
  /\ heap' = IF ~SampleOk(j,ss,i,ts) THEN heap
             ELSE [heap EXCEPT ![ten[i].st] = [e \in 1..Len(@) |->
                    LET mm == (e - 1) \div (ten[i].w * ten[i].h) - ts * ten[i].m
                    IN  IF mm >= 0 /\ mm < ten[i].m /\ e <= Cnt(ten[i]) THEN Pixel(j,ss,mm,i,e) ELSE @[e]]]

CopyMap(j,ss,sm,i,ts,tm) ==
  /\ HasData(i) /\ HasData(j) /\ sm < ten[j].m /\ tm < ten[i].m
  /\ ~(ten[i].st = ten[j].st /\ ~(<<ss,sm>> # <<ts,tm>> /\ ten[i] = ten[j]))
  /\ ret' = MapOk(j,ss,i,ts) /\ UNCHANGED ten
  /\ heap' = IF ~MapOk(j,ss,i,ts) THEN heap
             ELSE [heap EXCEPT ![ten[i].st] = [e \in 1..Len(@) |-> IF Region(i,ts,tm,e) THEN Pixel(j,ss,sm,i,e) ELSE @[e]]]

-----------------------------------------------------------------------------
(* What must hold in every state *)
ShapeOk  == \A i \in Slots : ten[i].st # 0 => (ten[i].live /\ ~ten[i].dang /\ Cnt(ten[i]) > 0 /\ Cnt(ten[i]) = Len(heap[ten[i].st]))
OneOwner == \A i, j \in Slots : i # j /\ ten[i].own /\ ten[j].own => ten[i].st # ten[j].st
Owned    == \A i \in Slots : ten[i].st # 0 => \E j \in Slots : ten[j].own /\ ten[j].st = ten[i].st
NoLeak   == \A k \in Ids : heap[k] # <<>> => \E j \in Slots : ten[j].own /\ ten[j].st = k
EmptyOk  == \A i \in Slots : ten[i].live /\ ~ten[i].dang /\ ten[i].st = 0 => Cnt(ten[i]) = 0
Inv      == ShapeOk /\ OneOwner /\ Owned /\ NoLeak /\ EmptyOk
=============================================================================

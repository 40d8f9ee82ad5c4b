----------------------------- MODULE MCStreams -----------------------------
EXTENDS Streams, TLC, Json
CONSTANTS MODE, BIG, MaxLen    \* MODE: "model" (exhaustive), "images", "tensors" (scenario generation)
VARIABLE hist
mvars == <<cat, tgt, ret, hist>>
R(a, b) == RandomElement(a..b)
RECURSIVE RSeq(_, _, _)
RSeq(n, a, b) == IF n = 0 THEN <<>> ELSE <<R(a, b)>> \o RSeq(n - 1, a, b)
Rec(op) == hist' = Append(hist, op)
Same(n, v) == [e \in 1..n |-> v]
MInit == Init /\ hist = <<>>

(* ---- exhaustive *)
Small == {<<1,1,1,1>>, <<2,2,1,1>>, <<1,1,2,2>>}
MNext == UNCHANGED hist /\
  \/ Len(cat) < 2 /\ \E d \in Small : AddTensor(d, [e \in 1..N(d) |-> Len(cat) * 10 + e])
  \/ Len(cat) = 2 /\ \E d \in Small, i \in Targets : tgt[i].v = <<>> /\ SetTarget(i, d, Same(N(d), 7))
  \/ Len(cat) = 2 /\ \E k \in 0..2, ss \in 0..2, ts \in 0..2, i \in Targets : Copy(k, ss, i, ts)
MSpec == MInit /\ [][MNext]_mvars
Sane == \A i \in Targets : Len(tgt[i].v) = N(tgt[i].d)
Refused == [][ ret' = FALSE => tgt' = tgt ]_mvars

(* ---- scenarios *)
(* contents of a large tensor: no short period *)
Mix(n, k, a) == [e \in 1..n |-> (e * k + (e \div 251) * 7 + (e \div 4096) * 3) % a]
MaxCat == IF BIG THEN 4 ELSE IF MODE = "images" THEN 6 ELSE 5
Cls == IF hist = <<>> THEN R(1, 4) ELSE hist[1][2]
DimsFor(k) == IF k > 0 THEN LET c == cat[k].d IN
                CASE R(1, 6) = 1 -> <<R(1,2), c[3], c[2], c[4]>>       \* turned: only fits square tensors
                  []  R(1, 6) <= 3 -> <<R(1,2), c[2], c[3], c[4]>>
                  [] R(1, 6) = 1 -> <<1, c[2], c[3], c[4] + 1>>
                  [] R(1, 6) = 1 -> <<2, IF c[2] > 1 THEN c[2] - 1 ELSE 1, c[3] + 1, c[4]>>
                  [] OTHER -> <<R(1,3), c[2] + R(0,3), c[3] + R(0,3), c[4]>>
              ELSE <<1,1,1,1>>
SNext ==
  \/ MODE = "tensors" /\ hist = <<>> /\ UNCHANGED svars /\ Rec(<<"Kind", 0>>)
  \/ MODE = "images" /\ hist = <<>> /\ UNCHANGED svars /\ Rec(<<"Kind", R(1, 4)>>)
  \/ hist # <<>> /\ MODE = "tensors" /\ Len(cat) < MaxCat /\ hist[Len(hist)][1] \in {"Kind", "Tensor"} /\
       \E d \in {CASE BIG /\ R(1,2) = 1 -> <<1, R(30, 66), R(32, 64), R(1,2)>>
                   [] R(1,5) = 1 -> <<1, 1, 1, 1>> [] OTHER -> <<R(1,3), R(1,6), R(1,5), R(1,3)>>} : \E v \in {TLCEval(IF R(1,3) = 1 THEN Same(N(d), R(0,3)) ELSE IF N(d) > 300 THEN Mix(N(d), 2 * R(1, 100) + 1, 256) ELSE RSeq(N(d), 0, 255))} :
         AddTensor(d, v) /\ Rec(<<"Tensor">> \o d \o v)
  \/ hist # <<>> /\ MODE = "images" /\ Len(cat) < MaxCat /\ hist[Len(hist)][1] \in {"Kind", "Image", "Mismatch"} /\
       \E w \in {IF BIG /\ R(1,2) = 1 THEN R(24, 66) ELSE R(1,7)}, ch \in {IF R(1,4) = 1 THEN 1 ELSE 3} : \E h \in {IF w > 20 THEN R(22, 40) ELSE R(1,5)} :
       \E p \in {TLCEval(IF BIG THEN Mix(w * h * ch, 2 * R(1, 100) + 1, 256) ELSE RSeq(w * h * ch, 0, 255))},
          lb \in {TLCEval(IF BIG THEN Mix(w * h, R(1, 100), Cls + 1) ELSE RSeq(w * h, IF R(1,2) = 1 THEN 0 ELSE 1, Cls))} :
         AddImage(w, h, ch, Cls, p, lb) /\ Rec(<<"Image", w, h, ch>> \o p \o lb)
  (* an image whose label has another size: not part of the data set *)
  \/ hist # <<>> /\ MODE = "images" /\ Len(cat) < MaxCat /\ hist[Len(hist)][1] \in {"Kind", "Image", "Mismatch"} /\ R(1, 3) = 1 /\
       UNCHANGED svars /\ \E w \in {R(1, 5)}, h \in {R(1, 5)}, b \in {R(0, 1)} : Rec(<<"Mismatch", w, h, w + b, h + 1 - b>>)
  \/ Len(cat) >= 2 /\ R(1,2) = 1 /\ \E i \in {R(1, NT)}, d \in {TLCEval(DimsFor(R(1, Len(cat))))} : \E v \in {R(1, 9)} :
       SetTarget(i, d, Same(N(d), v)) /\ Rec(<<"Target", i>> \o d \o <<v>>)
  \/ Len(cat) >= 2 /\ \E b \in 1..5 : \E i \in {R(1, NT)}, kind \in {R(0, IF MODE = "images" THEN 2 ELSE 1)}, k \in {R(0, Len(cat))} :
       \E ss \in {IF R(1,4) = 1 \/ k >= Len(cat) THEN R(0, 2) ELSE R(0, cat[k+1].d[1] - 1)}, ts \in {IF R(1,8) = 1 \/ tgt[i].d[1] = 0 THEN R(0, 3) ELSE R(0, tgt[i].d[1] - 1)} :
         Copy(k, ss, i, ts) /\ Rec(<<"Copy", kind, k, ss, i, ts>>)
  (* a request whose target is made to fit, so that most of them are legal *)
  \/ Len(cat) >= 2 /\ tgt[1].v # <<>> /\ \E k \in {k \in 0..(Len(cat) - 1) : \E i \in Targets : Legal(k, 0, i, 0)} :
       \E i \in {i \in Targets : Legal(k, 0, i, 0)}, kind \in {R(0, IF MODE = "images" THEN 2 ELSE 1)} : \E ss \in {R(0, cat[k+1].d[1] - 1)}, ts \in {R(0, tgt[i].d[1] - 1)} :
         Copy(k, ss, i, ts) /\ Rec(<<"Copy", kind, k, ss, i, ts>>)
  (* requests just outside of the target or of the source *)
  \/ Len(cat) >= 2 /\ \E k \in {k \in 0..(Len(cat) - 1) : \E i \in Targets : Legal(k, 0, i, 0)} :
       \E i \in {i \in Targets : Legal(k, 0, i, 0)}, kind \in {R(0, IF MODE = "images" THEN 2 ELSE 1)}, b \in {R(0, 2)} :
         LET ss == IF b = 0 THEN cat[k+1].d[1] ELSE 0  ts == IF b = 0 THEN 0 ELSE tgt[i].d[1] + b - 1 IN
         R(1, 2) = 1 /\ Copy(k, ss, i, ts) /\ Rec(<<"Copy", kind, k, ss, i, ts>>)
SSpec == MInit /\ [][SNext]_mvars
SimExport == (Len(hist) = MaxLen) => PrintT("@@" \o ToJson(hist))
=============================================================================

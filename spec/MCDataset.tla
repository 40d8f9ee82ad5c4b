----------------------------- MODULE MCDataset -----------------------------
EXTENDS Dataset, TLC, Json, FiniteSets
CONSTANTS MaxImg, MODE, MaxLen    \* MODE: "model", "whole", "patch"
VARIABLE hist
mvars == <<sets, maps, classes, cw, ef, patch, seen, hist>>
R(a, b) == RandomElement(a..b)
RECURSIVE RSeq(_, _, _)
RSeq(n, a, b) == IF n = 0 THEN <<>> ELSE <<R(a, b)>> \o RSeq(n - 1, a, b)
Rec(op) == hist' = Append(hist, op)
MInit == Init /\ hist = <<>>
Img(w, h, b) == [w |-> w, h |-> h, im |-> [e \in 1..(w * h) |-> b + e], lab |-> [e \in 1..(w * h) |-> e % 2]]

(* ---- exhaustive: however the indices are assigned, asking for all of them visits every window exactly once *)
MNext == UNCHANGED hist /\
  \/ seen = <<Empty, Empty>> /\ \E p \in {<<1, 1>>, <<2, 2>>, <<2, 1>>} : patch = <<0, 0>> /\ Configure(1, 1, <<2>>, 1, p)
  \/ patch # <<0, 0>> /\ seen = <<Empty, Empty>> /\ Len(sets[1]) + Len(sets[2]) < 3 /\ PatchCount(1) + PatchCount(2) < 3 /\
       \E s \in {1, 2}, w \in 1..2, h \in 1..2 : \E i \in {Img(w, h, 10 * (Len(sets[1]) + Len(sets[2])))} : AddImage(s, w, h, i.im, i.lab)
  \/ \E s \in {1, 2} : \E ix \in 0..(PatchCount(s) - 1) : ix = Cardinality(DOMAIN seen[s]) /\ (s = 2 => Cardinality(DOMAIN seen[1]) = PatchCount(1)) /\
        \E q \in Positions(s) : Learn(s, ix, q[1], q[2], q[3])
MSpec == MInit /\ [][MNext]_mvars
CountIsPositions == \A s \in {1, 2} : patch # <<0, 0>> => Cardinality(Positions(s)) = PatchCount(s)
FullIsBijective == \A s \in {1, 2} : patch # <<0, 0>> /\ DOMAIN seen[s] = 0..(PatchCount(s) - 1) => AllSeen(s)
(* windows of images with distinct pixels identify their position, so that observing the contents decides the index *)
Distinguishable == \A s \in {1, 2} : \A a, b \in Positions(s) :
   patch # <<0, 0>> /\ Window(sets[s][a[1]], a[2], a[3]) = Window(sets[s][b[1]], b[2], b[3]) => a = b

(* ---- scenarios; the harness makes the pixel values *)
Size(dummy) == IF MODE = "whole" THEN (CASE R(1, 12) = 1 -> R(57, 70) [] R(1, 3) = 1 -> R(1, 2) [] R(1, 8) = 1 -> R(14, 18) [] OTHER -> R(1, 9)) ELSE R(1, 6)
Conf == hist # <<>>
NImg == Len(sets[1]) + Len(sets[2])
Started == Conf /\ hist[Len(hist)][1] \notin {"Conf", "Image"}
SNext ==
  \/ ~Conf /\ \E k \in {R(0, IF MODE = "whole" THEN 2 ELSE 1)}, v \in {R(0, 1)}, m \in {R(1, 3)}, c \in {R(1, 4)}, e \in {R(0, 2)},
              p \in {IF MODE = "whole" THEN <<0, 0>> ELSE <<R(1, 4), R(1, 4)>>} :
        \E w \in {TLCEval(RSeq(c, 0, 5))} : Configure(m, c, w, e, p) /\ Rec(<<"Conf", k, v, m, c, IF e = 0 THEN 0 ELSE 1, p[1], p[2]>> \o w)
  \/ Conf /\ ~Started /\ NImg < MaxImg /\ \E s \in {R(1, 2)}, w \in {Size(hist)}, h \in {Size(hist)}, ls \in {R(1, 1000)} :
        \E one \in {R(0,1)} :
        AddImage(IF NImg = 0 THEN 1 ELSE s, w, h, [e \in 1..(w * h * maps) |-> 0], [e \in 1..(w * h * classes) |-> 0]) /\ Rec(<<"Image", IF NImg = 0 THEN 1 ELSE s, w, h, ls, one>>)
  \/ NImg >= 1 /\ (MODE = "whole" \/ Len(hist) < MaxLen - 1) /\ (Started \/ NImg >= R(1, MaxImg - 1)) /\ UNCHANGED dvars /\ \E s \in {R(1, 2)}, sl \in {R(0, 2)} :
        \E n \in {IF MODE = "whole" THEN WholeCount(s) ELSE PatchCount(s)} : \E ix \in {IF n = 0 \/ R(1, 8) = 1 THEN n + R(0, 3) * R(0, 1) ELSE R(0, n - 1)} : Rec(<<"Get", s, ix, sl>>)
  \/ MODE = "patch" /\ Conf /\ Len(hist) = MaxLen - 1 /\ UNCHANGED dvars /\ Rec(<<"Sweep">>)
SSpec == MInit /\ [][SNext]_mvars
SimExport == (Len(hist) = MaxLen) => PrintT("@@" \o ToJson(hist))
=============================================================================

----------------------------- MODULE MCClassify -----------------------------
EXTENDS Classify, TLC, Json
CONSTANTS MaxLen
VARIABLES hist, seen            \* ghost: <<label positive, weight>> of the pixels passed while enabled since the last reset
mvars == <<cvars, hist, seen>>
MInit == /\ cf = [kind |-> "none", c |-> 1, n |-> 1] /\ cnt = <<>> /\ off = FALSE /\ rec = FALSE /\ rep = <<>> /\ hist = <<>> /\ seen = <<>>
R(a, z) == RandomElement(a..z)
Conf == [kind |-> "conf", c |-> 2, n |-> 0, lo |-> 0, hi |-> 0, d |-> 1, b |-> 1, p |-> 1]
Bin == [kind |-> "bin", c |-> 1, n |-> 3, lo |-> -1, hi |-> 1, d |-> 1, b |-> 1, p |-> 1]
Step == hist # <<>> /\ Len(hist) < MaxLen /\ hist' = Append(hist, 0)
MNext ==
  \/ hist = <<>> /\ (Begin(Conf) \/ Begin(Bin)) /\ hist' = <<0>> /\ seen' = <<>>
  \/ Step /\ \E w \in {1, 4}, o \in {-20, 8, 20}, t \in {-16, 16} :
        /\ LET out == IF cf.kind = "conf" THEN <<o, 0>> ELSE <<o>> lab == IF cf.kind = "conf" THEN <<t, -t>> ELSE <<t>> IN Forward(out, lab, <<w>>)
        /\ seen' = IF off THEN seen ELSE Append(seen, <<o, t, w>>)
  \/ Step /\ (\E b \in BOOLEAN : Disable(b)) /\ UNCHANGED seen
  \/ Step /\ ResetLayer /\ seen' = <<>>
  \/ Step /\ Start /\ UNCHANGED seen
  \/ Step /\ Stop /\ UNCHANGED seen
  \/ Step /\ ResetStats /\ seen' = IF rec THEN seen ELSE <<>>
  \/ Step /\ Update /\ UNCHANGED seen
MSpec == MInit /\ [][MNext]_mvars
RECURSIVE Weight(_, _)
Weight(P(_), k) == IF k > Len(seen) THEN 0 ELSE (IF P(seen[k]) THEN seen[k][3] ELSE 0) + Weight(P, k + 1)
Every(s) == TRUE
Hit(s) == (s[1] >= 0) = (s[2] >= 0)
Posi(s) == s[2] > 0
Bad(s) == s[1] > 0 /\ s[2] < 0
(* every weighted pixel is in exactly one cell; thresholds agree on how many pixels are positive, and a higher one finds no more *)
OneCell ==
  /\ cf.kind = "conf" => Total = Weight(Every, 1) /\ Right(cnt) = Weight(Hit, 1) /\ Actual(cnt, 1) = Weight(Posi, 1)
  /\ cf.kind = "bin" => \A t \in 1..cf.n : /\ cnt[t].tp + cnt[t].fp + cnt[t].fn + cnt[t].tn = Weight(Every, 1)
                                          /\ cnt[t].tp + cnt[t].fn = Weight(Posi, 1)
                                          /\ t > 1 => cnt[t].tp <= cnt[t - 1].tp /\ cnt[t].fp <= cnt[t - 1].fp
  /\ cf.kind = "bin" => cnt[2].fp = Weight(Bad, 1)
(* there is always a best threshold, and every defined measure is a ratio between 0 and 1 *)
Ratios == cf.kind = "bin" => BestT # {} /\ \A i \in 1..6 : rep[i] = <<>> \/ (0 <= rep[i][1][1] /\ rep[i][1][1] <= rep[i][1][2] /\ rep[i][1][2] > 0)
Bounded == cf.kind = "conf" /\ Total > 0 => Arr(cnt) \in 0..100000 /\ Iou(cnt) \in 0..100000 /\ Iou(cnt) <= 100000

(* ---- scenarios *)
Rec(op) == hist' = Append(hist, op)
Ns == <<1, 2, 3, 5, 9, 13>>
SNext ==
  /\ UNCHANGED <<cvars, seen>>
  /\ IF hist = <<>> THEN \E k \in {R(1, 2)}, s \in {R(1, 1000000)}, c \in {<<2, 3, 4, 5, 6, 12>>[R(1, 6)]}, n \in {R(1, 8)}, b \in {R(1, 3)}, w \in {R(1, 3)}, h \in {R(1, 3)}, bef \in {R(0, 1)}, mode \in {R(0, 4)} :
        Rec(<<"Conf", k, s, c, n, b, w, h, bef, mode>>)
     ELSE \E k \in {R(1, 20)} :
       CASE k <= 7 -> Rec(<<"FF">>)
         [] k \in 8..9 -> \E b \in {R(0, 2)} : Rec(<<"Dis", b>>)
         [] k = 10 -> Rec(<<"ResetL">>)
         [] k \in 11..12 -> Rec(<<"Start">>)
         [] k = 13 -> Rec(<<"Stop">>)
         [] k = 14 -> Rec(<<"Clear">>)
         [] k \in 15..16 -> Rec(<<"Update">>)
         [] k \in 17..18 -> Rec(<<"Gen">>)
         [] OTHER -> Rec(<<"Print">>)
SSpec == MInit /\ [][SNext]_mvars
SimExport == (Len(hist) = MaxLen) => PrintT("@@" \o ToJson(hist))
=============================================================================

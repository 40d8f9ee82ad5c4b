------------------------------ MODULE MCCensus ------------------------------
EXTENDS Census, TLC, Json
CONSTANTS MaxLen, MaxC, MaxI, MaxP, Ws
VARIABLE hist
mvars == <<cw, sets, hist>>
MInit == Init /\ hist = <<>>
RECURSIVE Seqs(_, _)
Seqs(Q, n) == IF n = 0 THEN {<<>>} ELSE {Append(s, x) : s \in Seqs(Q, n - 1), x \in Q}
MNext == UNCHANGED hist /\
  \/ cw = <<>> /\ \E n \in 1..MaxC : \E w \in Seqs(Ws, n) : Configure(w)
  \/ cw # <<>> /\ Len(sets[1]) < MaxI /\ \E n \in 1..MaxP : \E px \in Seqs(1..Len(cw), n) : AddImage(1, px)
  \/ cw # <<>> /\ sets[1] = <<>> /\ sets[2] = <<>> /\ AddImage(2, <<1>>)
MSpec == MInit /\ [][MNext]_mvars
RECURSIVE Ex(_, _), Len1(_)
Len1(k) == IF k = 0 THEN 0 ELSE Len(sets[1][k]) + Len1(k - 1)
NoneZero == \A c \in DOMAIN cw : cw[c] > 0
(* every training pixel is counted for exactly one class, testing images are not counted *)
Complete == NoneZero => All(FALSE) = 4 * Len1(Len(sets[1]))
(* equal weights change no share and no factor *)
Even == (\A c, d \in DOMAIN cw : cw[c] = cw[d]) /\ NoneZero =>
          /\ Classes(TRUE) = Classes(FALSE)
          /\ \A c \in DOMAIN cw : Count(c, TRUE) * All(FALSE) = Count(c, FALSE) * All(TRUE)
(* the factors give every class that occurs the same number of pixels, and together the number there was *)
Ex(k, w) == IF k = 0 THEN 0 ELSE (IF Count(k, w) > 0 THEN All(w) ELSE 0) + Ex(k - 1, w)
Balanced == \A w \in BOOLEAN : All(w) > 0 => Ex(Len(cw), w) = Classes(w) * All(w)
(* ---- scenarios *)
R(a, z) == RandomElement(a..z)
RSeq(n, Q) == TLCEval([k \in 1..n |-> RandomElement(Q)])
Size(z) == <<R(1, 7), R(1, 6), R(1, 66)>>[IF R(1, 12) = 1 THEN 3 ELSE R(1, 2)]
Rec(op) == hist' = Append(hist, op)
SNext == UNCHANGED cvars /\ Len(hist) < MaxLen /\
  IF hist = <<>> THEN \E n \in {R(1, 6)} : \E ws \in {RSeq(n, IF R(1, 4) = 1 THEN {4} ELSE IF R(1, 3) = 1 THEN 0..9 ELSE {1, 2, 3, 4, 6, 8, 20})} : Rec(<<"Cls", n, R(0, 5)>> \o ws)
  ELSE IF Len(hist) = MaxLen - 1 THEN Rec(<<"Report">>)
  ELSE \E w \in {Size(Len(hist))} : \E h \in {IF w > 20 THEN R(1, 3) ELSE Size(Len(hist) + 1)} : \E few \in {R(1, 3)} :
         Rec(<<"Image", IF R(1, 4) = 1 THEN 2 ELSE 1, R(0, 1), w, h>> \o RSeq(w * h, IF few = 1 THEN {R(1, hist[1][2])} ELSE 1..hist[1][2]))
SSpec == MInit /\ [][SNext]_mvars
SimExport == (Len(hist) = MaxLen) => PrintT("@@" \o ToJson(hist))
=============================================================================

------------------------------ MODULE MCColour ------------------------------
EXTENDS Colour, TLC, Json, FiniteSetsExt
CONSTANTS MODE, MaxLen
VARIABLES hist, sc, pix
mvars == <<files, classes, hist, sc, pix>>
R(a, b) == RandomElement(a..b)
RECURSIVE RSeq(_, _, _)
RSeq(n, a, b) == IF n = 0 THEN <<>> ELSE <<R(a, b)>> \o RSeq(n - 1, a, b)
Rec(op) == hist' = Append(hist, op)

(* exhaustive: colours over a coarse cube; painting the label of a class colour gives that colour back;
   closeness is monotone in the distance and spans -1000..1000 *)
Levels == {0, 128, 255}
Cols == {<<r, g, b>> : r \in Levels, g \in Levels, b \in Levels}
Scores == -2..2
MInit == files = <<>> /\ hist = <<>> /\ classes \in {<<a>> : a \in Cols} \cup {<<<<255,0,0>>, <<0,255,0>>>>, <<<<0,0,0>>, <<128,0,0>>, <<0,0,255>>>>}
         /\ pix \in Cols /\ sc \in [1..Len(classes) -> Scores]
MSpec == MInit /\ [][UNCHANGED mvars]_mvars
LabelRange == \A c \in DOMAIN LabelOf(pix) : LabelOf(pix)[c] \in -1001..1000
LabelOwn == Len(classes) > 1 => \A c \in DOMAIN classes : \A d \in DOMAIN classes : LabelOf(classes[c])[d] = IF c = d THEN 1000 ELSE 0
LabelFg == Len(classes) = 1 => LabelOf(classes[1]) = <<1000>>
Monotone == Len(classes) = 1 => \A q \in Cols : Dist2(pix, classes[1]) < Dist2(q, classes[1]) => Closeness(pix, classes[1]) >= Closeness(q, classes[1])
BestOne == Best(sc) # {}
PaintOwn == Len(classes) > 1 => \A c \in DOMAIN classes : PaintRight([d \in DOMAIN classes |-> LabelOf(classes[c])[d]], [k \in 1..3 |-> 256 * classes[c][k]])

(* scenarios *)
SInit == files = <<>> /\ hist = <<>> /\ classes = <<>> /\ sc = <<>> /\ pix = <<>>
(* a colour that differs from c in one channel by one, or in the order of its channels *)
Clip(z) == IF z < 0 THEN 1 ELSE IF z > 255 THEN 254 ELSE z
Near(c) == CASE R(1, 4) = 1 -> <<c[2], c[1], c[3]>> [] R(1, 4) = 1 -> <<c[1], c[3], c[2]>>
             [] OTHER -> LET k == R(1, 3)  z == R(0, 1) IN [c EXCEPT ![k] = Clip(@ + 2 * z - 1)]
RECURSIVE Palette(_, _)
Palette(n, acc) == IF n = 0 THEN acc ELSE Palette(n - 1, Append(acc, CASE R(1,3) = 1 -> RandomElement(Cols) [] acc # <<>> /\ R(1,2) = 1 -> Near(acc[Len(acc)]) [] OTHER -> RSeq(3, 0, 255)))
SetC == \E n \in {IF R(1, 4) = 1 THEN R(6, 14) ELSE R(1, 5)} : \E cs \in {TLCEval(Palette(n, <<>>))} :
          Cardinality({cs[c] : c \in 1..n}) = n /\ SetClasses(cs) /\ Rec(<<"Classes", n>> \o [e \in 1..(3 * n) |-> cs[(e - 1) \div 3 + 1][((e - 1) % 3) + 1]])
ColPix(n) == [e \in 1..n |-> CASE R(1,3) = 1 -> RSeq(3, 0, 255) [] R(1,3) = 1 -> Near(classes[R(1, Len(classes))]) [] OTHER -> classes[R(1, Len(classes))]]
Flat3(q) == [e \in 1..(3 * Len(q)) |-> q[(e - 1) \div 3 + 1][((e - 1) % 3) + 1]]
SNext == UNCHANGED <<sc, pix>> /\
  \/ (classes = <<>> \/ R(1, 4) = 1) /\ SetC
  \/ classes # <<>> /\ \E w \in {R(1, 7)}, h \in {R(1, 6)}, ch \in {R(1, 4)} : \E p \in {TLCEval(RSeq(w * h * ch, 0, 255))} :
        Store(w, h, ch, p) /\ Rec(<<"Load", 8, w, h, ch>> \o p)
  \/ classes # <<>> /\ \E w \in {R(1, 5)}, h \in {R(1, 4)}, ch \in {R(1, 4)} : \E p \in {TLCEval(RSeq(w * h * ch, 0, 65535))} :
        Store(w, h, ch, p) /\ Rec(<<"Load", 16, w, h, ch>> \o p)
  \/ classes # <<>> /\ \E w \in {R(1, 9)}, h \in {R(1, 7)} : \E p \in {TLCEval(RSeq(w * h * 3, 0, 255))} :
        Store(w, h, 3, p) /\ Rec(<<"Save", 8, w, h, 3>> \o p)
  \/ classes # <<>> /\ \E w \in {R(1, 40)}, h \in {R(1, 30)}, p \in {TLCEval(RSeq(3, 0, 255))} : UNCHANGED <<files, classes>> /\ Rec(<<"Jpeg", w, h>> \o p)
  \/ classes # <<>> /\ \E b \in 1..2 : \E w \in {R(1, 7)}, h \in {R(1, 6)} : \E p \in {TLCEval(Flat3(ColPix(w * h)))} : UNCHANGED <<files, classes>> /\ Rec(<<"Label", w, h, 3>> \o p)
  \/ classes # <<>> /\ \E w \in {R(1, 7)}, h \in {R(1, 6)} : \E p \in {TLCEval(RSeq(w * h, 0, 255))} : UNCHANGED <<files, classes>> /\ Rec(<<"Label", w, h, 1>> \o p)
  \/ classes # <<>> /\ \E b \in 1..3 : \E s \in {R(1, 2)}, w \in {R(1, 6)}, h \in {R(1, 5)}, hi \in {RandomElement({-1, 0, 3, 8})} :
        \E f \in {R(1, 3)} : \E p \in {TLCEval([e \in 1..(s * w * h * Len(classes)) |-> IF f = 1 THEN R(-128, 16 * hi) ELSE IF f = 2 THEN 16 * R(-8, hi) ELSE 16 * hi - R(0, 3)])} : UNCHANGED <<files, classes>> /\ Rec(<<"Paint", s, w, h>> \o p)
SSpec == SInit /\ [][SNext]_mvars
SimExport == (Len(hist) = MaxLen) => PrintT("@@" \o ToJson(hist))
=============================================================================

------------------------------ MODULE MCDecide ------------------------------
EXTENDS Decide, Json
CONSTANTS Sizes, Deep, MaxLen
QuickSizes == {<<3, 5>>, <<9, 2>>}
DeepSizes == {<<1, 1>>, <<1, 4>>, <<8, 8>>, <<10, 3>>, <<7, 11>>, <<17, 5>>}
VARIABLES img, hist
mvars == <<pal, net, par, img, hist>>
R(a, b) == RandomElement(a..b)
D(kx, ky, n, sx, sy, px, py, d) == <<"conv", kx, ky, n, sx, sy, px, py, d>>
C(kx, ky, n, sx, sy, px, py) == D(kx, ky, n, sx, sy, px, py, 0)
(* ---- exhaustive: all nets of a family, with parameters and images of arbitrary fixed content *)
Some(i, k) == ((i * 37 + k * 11 + ((i * i) % 23)) % 17) - 8
Firsts == {<<>>, <<C(1, 1, 2, 1, 1, 0, 0)>>, <<C(3, 2, 2, 1, 1, 0, 0)>>, <<C(3, 3, 1, 1, 1, 1, 1), <<"relu">>>>, <<C(2, 3, 2, 2, 1, 0, 0)>>, <<C(5, 3, 1, 2, 2, 2, 0)>>}
Seconds == {<<>>, <<<<"relu">>>>, <<<<"pool", 2, 2>>>>, <<<<"pool", 4, 1>>, <<"relu">>>>, <<<<"apool", 3, 2, 2, 2>>>>, <<<<"apool", 2, 3, 1, 1>>>>}
Thirds == {<<>>, <<<<"prior">>>>} \cup (IF Deep THEN {<<C(1, 1, 3, 1, 1, 0, 0), <<"relu">>, <<"prior">>>>, <<C(3, 3, 2, 1, 1, 0, 0)>>, <<<<"prior">>, D(3, 3, 2, 1, 1, 1, 1, 1)>>} ELSE {<<<<"prior">>, D(3, 1, 1, 1, 1, 1, 0, 1)>>})
(* parameters of dropped layers are even *)
ConvsOf(ls) == SelectSeq(ls, LAMBDA la : la[1] = "conv")
Dropped(ls, k) == ConvsOf(ls)[k][9]
Params(ls, m, z) == LET n == Needs(ls, m) IN [k \in DOMAIN n |-> [i \in 1..n[k] |-> (1 + Dropped(ls, k)) * Some(i, k + z)]]
Img(w, h, ch, z) == [w |-> w, h |-> h, ch |-> ch, pix |-> [i \in 1..(w * h * ch) |-> (i * 29 + z * 13 + ((i * i) % 31)) % 256]]
MInit == /\ hist = <<>> /\ pal = <<<<255, 0, 0>>, <<0, 9, 0>>>>
         /\ \E a \in Firsts, b \in Seconds, c \in Thirds, m \in {1, 3} : net = [ls |-> a \o b \o c \o <<C(1, 1, 2, 1, 1, 0, 0)>>, m |-> m]
         /\ img = Img(1, 1, net.m, 0)
         /\ par = Params(net.ls, net.m, 1)
MSpec == MInit /\ [][hist = <<>> /\ hist' = <<1>> /\ UNCHANGED dvars /\ \E s \in Sizes : img' = Img(s[1], s[2], net.m, s[1])]_mvars
Ls == net.ls
Plain == \A k \in DOMAIN Ls : Ls[k][1] = "conv" => Ls[k][7] = 0 /\ Ls[k][8] = 0
Pixelwise == \A k \in DOMAIN Ls : Ls[k][1] \in {"relu", "conv"} /\ (Ls[k][1] = "conv" => Ls[k][2] = 1 /\ Ls[k][3] = 1)
Pixel(x, y) == [w |-> 1, h |-> 1, ch |-> img.ch, pix |-> SubSeq(img.pix, (y * img.w + x) * img.ch + 1, (y * img.w + x + 1) * img.ch)]
(* the image at (dx, dy) of a black one *)
Placed(dx, dy) == [w |-> 16, h |-> 16, ch |-> img.ch, pix |-> [i \in 1..(256 * img.ch) |-> LET p == (i - 1) \div img.ch  x == (p % 16) - dx  y == (p \div 16) - dy IN
                     IF x >= 0 /\ x < img.w /\ y >= 0 /\ y < img.h THEN img.pix[(y * img.w + x) * img.ch + ((i - 1) % img.ch) + 1] ELSE 0]]
Fx == Factor(Ls, 1)
Fy == Factor(Ls, 2)
Evaluated == hist # <<>> => \A r \in {Scores(Ls, par, img)} :
  (* the scores cover the padded image *)
  /\ r.w = Pad8(img.w) /\ r.h = Pad8(img.h) /\ r.m = 2 /\ Len(r.v) = r.w * r.h * r.m
  (* pixels within a pooling block share their scores, unless something else than the image is looked at *)
  /\ (~HasPrior(Ls) => \A x \in 0..(r.w - 1), y \in 0..(r.h - 1), m \in 0..1 : V(r, x, y, m) = V(r, x - (x % Fx), y - (y % Fy), m))
  (* without a neighbourhood, a pixel is decided on its own *)
  /\ (Pixelwise => \A x \in {0, img.w - 1}, y \in {0, img.h \div 2} : \A q \in {Scores(Ls, par, Pixel(x, y))} : \A m \in 0..1 : V(q, 0, 0, m) = V(r, x, y, m))
  (* somebody is the best *)
  /\ \A x \in {0, img.w - 1}, y \in {0, img.h - 1} : LET d == Decided(r, x, y, 255 * Pow8(Convs(Ls))) IN d # {} /\ \A c \in {1, 2} : V(r, x, y, c - 1) >= V(r, x, y, 2 - c) => c \in d
Moved == (hist # <<>> /\ Plain /\ ~HasPrior(Ls) /\ img.w <= 8 /\ img.h <= 8) =>
  \A a \in {Scores(Ls, par, Placed(0, 0))}, b \in {Scores(Ls, par, Placed(8, 8))}, m \in 0..1 : \A x \in 0..7, y \in 0..7 : V(a, x, y, m) = V(b, x + 8, y + 8, m)
(* ---- scenarios *)
RECURSIVE RSeq(_, _, _), Concat(_)
RSeq(n, a, b) == IF n = 0 THEN <<>> ELSE <<R(a, b)>> \o RSeq(n - 1, a, b)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RConv(n, z) == LET kx == R(1, 3)  ky == R(1, 3)  st == R(1, 6) IN
  D(kx, ky, n, IF st = 1 THEN 2 ELSE 1, IF st <= 2 THEN 2 ELSE 1, IF R(1, 4) = 1 THEN (kx - 1) \div 2 ELSE 0, IF R(1, 4) = 1 THEN (ky - 1) \div 2 ELSE 0, IF R(1, 4) = 1 THEN 1 ELSE 0)
RSame(n, z) == LET kx == 1 + 2 * R(0, 1)  ky == 1 + 2 * R(0, 1) IN D(kx, ky, n, 1, 1, (kx - 1) \div 2, (ky - 1) \div 2, IF R(1, 3) = 1 THEN 1 ELSE 0)
RPool(z) == CASE R(1, 4) = 1 -> <<<<"pool", 2, 2>>>> [] R(1, 5) = 1 -> <<<<"pool", 4, 2>>>> [] R(1, 5) = 1 -> <<<<"apool", 3, 2, 2, 1>>>> [] R(1, 5) = 1 -> <<<<"apool", 2, 3, 2, 2>>>> [] R(1, 6) = 1 -> <<<<"pool", 1, 2>>>> [] R(1, 5) = 1 -> <<<<"pool", 8, 8>>>> [] OTHER -> <<>>
RRelu(z) == IF R(1, 3) = 1 THEN <<<<"relu">>>> ELSE <<>>
RNet(classes, z) ==
  LET n == R(1, 4)  last == C(1, 1, classes, 1, 1, 0, 0) IN
  CASE R(1, 6) = 1 -> (IF R(1, 2) = 1 THEN <<>> ELSE <<<<"prior">>>>) \o <<last>>
    [] classes > 1 /\ R(1, 4) = 1 -> <<RConv(n, z)>> \o RPool(z) \o <<<<"prior">>, RSame(classes, z)>>
    [] R(1, 2) = 1 -> <<IF classes = 1 THEN C(1, 1, n, 1, 1, 0, 0) ELSE RConv(n, z)>> \o RRelu(z) \o RPool(z) \o (IF R(1, 3) > 1 THEN <<<<"prior">>>> ELSE <<>>) \o <<last>>
    [] R(1, 3) = 1 -> <<RConv(n, z)>> \o RPool(z) \o RRelu(z) \o <<IF classes = 1 THEN last ELSE RConv(classes, z)>>
    [] OTHER -> <<RConv(n, z)>> \o RRelu(z) \o RPool(z) \o <<RConv(R(1, 3), z + 1)>> \o RRelu(z + 1) \o <<last>>
Twice(p) == [i \in DOMAIN p |-> 2 * p[i]]
RParams(n, classes) == [k \in DOMAIN n |-> TLCEval(IF k = Len(n) /\ classes = 1 THEN RSeq(n[k], -60, 60) ELSE IF Dropped(net.ls, k) = 1 THEN Twice(RSeq(n[k], -8, 8)) ELSE RSeq(n[k], -8, 8))]
SomeColour(z) == CASE R(1, 3) = 1 -> RSeq(3, 0, 255) [] OTHER -> <<255 * R(0, 1), 255 * R(0, 1), 255 * R(0, 1)>>
RECURSIVE SomePal(_)
SomePal(n) == IF n = 0 THEN <<>> ELSE <<SomeColour(n)>> \o SomePal(n - 1)
(* images of few, many or only extreme values *)
RPix(n, k) == IF k = 1 THEN RSeq(n, 0, 255) ELSE IF k = 2 THEN [i \in 1..n |-> 255 * R(0, 1)] ELSE LET a == R(0, 255) IN [i \in 1..n |-> IF R(1, 8) = 1 THEN 255 - a ELSE a]
Side(z) == IF R(1, 4) = 1 THEN R(1, 3) ELSE R(1, 17)
SInit == DInit /\ hist = <<>> /\ img = Img(1, 1, 1, 0)
Rec(h) == hist' = Append(hist, h) /\ UNCHANGED img
SNext ==
  IF hist = <<>> THEN \E n \in {RandomElement({1, 2, 3, 3, 4})}, m \in {RandomElement({1, 3})} : \E p \in {TLCEval(SomePal(n))}, ls \in {TLCEval(RNet(n, Len(hist)))} :
    Factor(ls, 1) <= 8 /\ Factor(ls, 2) <= 8 /\ Describe(p, ls, m) /\ Rec(<<"Describe", m, n>> \o Concat(p) \o <<Len(ls)>> \o Concat(ls))
  ELSE IF Len(hist) % 3 = 1 THEN \E n \in {Needs(net.ls, net.m)} : \E p \in {TLCEval(RParams(n, Len(pal)))} : Train(p) /\ Rec(<<"Train", Len(p)>> \o Concat([k \in DOMAIN p |-> <<Len(p[k])>> \o p[k]]))
  ELSE UNCHANGED dvars /\ \E w \in {Side(Len(hist))}, h \in {Side(Len(hist))}, k \in {R(1, 3)} : \E p \in {TLCEval(RPix(w * h * net.m, k))} : Rec(<<"Label", w, h>> \o p)
SSpec == SInit /\ [][Len(hist) < MaxLen /\ SNext]_mvars
SimExport == (Len(hist) = MaxLen) => PrintT("@@" \o ToJson(hist))
=============================================================================

------------------------------ MODULE MCConfig ------------------------------
(* Paragraphs (setting lines, comments, blocks) in every order: the text read line by line means exactly what its paragraphs
   mean one by one, whatever their order. *)
EXTENDS Config, Json
CONSTANTS MaxLen, Kind
VARIABLES used, hist
mvars == <<used, hist>>
NLS == <<NL>>
(* <<text, key, value>> of settings; key 0: means nothing *)
SP == << <<"lr=0.25", 3, <<25, -2>>>>, <<"lr=1e-4", 3, <<1, -4>>>>, <<"l1=0", 1, <<0, 0>>>>, <<"l2=.5", 2, <<5, -1>>>>, <<"mu=2.50", 8, <<25, -1>>>>, <<"momentum=-0.75", 5, <<-75, -2>>>>,
         <<"sbatchsize=16", 10, 16>>, <<"pbatchsize=8", 11, 8>>, <<"iterations=10000", 9, 10000>>, <<"optimization=quickprop", 12, 1>>, <<"optimization=gradient_descent", 12, 0>>,
         <<"# lr=0.5", 0, 0>>, <<"#gamma=1", 0, 0>>, <<"?hmax mu=0.5 weight=0.25", 0, 0>>, <<"", 0, 0>>, <<"exponent=75E-2", 6, <<75, -2>>>>, <<"eta=12.5e+1", 7, <<125, 0>>>>, <<"gamma=0.00003", 4, <<3, -5>>>> >>
(* blocks of datasets: lines *)
DP == << <<"classes=2", "road", "training">>, <<"colors", "0xFF8000", "10">>, <<"weights", "0.5", "2">>, <<"localized_error=kitti">>, <<"training=a b.Tensor">>, <<"testing=classes">>, <<"# classes=3">>, <<"">>, <<"localized_error=default">>, <<"nommap">> >>
Vocabulary == IF Kind = "settings" THEN 1..Len(SP) ELSE 1..Len(DP)
MInit == used = {} /\ hist = <<>>
MNext == Len(hist) < MaxLen /\ \E p \in Vocabulary \ used : hist' = Append(hist, p) /\ used' = used \cup {p}
MSpec == MInit /\ [][MNext]_mvars
RECURSIVE JoinL(_)
JoinL(ls) == IF ls = <<>> THEN <<>> ELSE IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o NLS \o JoinL(Tail(ls))
SText == JoinL([i \in DOMAIN hist |-> Codes(SP[hist[i]][1])])
SettingsMean == Kind = "settings" =>
  Settings(SText) = [k \in 1..12 |-> LET j == SelectLastInSeq(hist, LAMBDA p : SP[p][2] = k) IN IF j = 0 THEN Defaults[k] ELSE SP[hist[j]][3]]
RECURSIVE Flat(_)
Flat(h) == IF h = <<>> THEN <<>> ELSE [j \in DOMAIN DP[h[1]] |-> Codes(DP[h[1]][j])] \o Flat(Tail(h))
DatasetMeans == (Kind = "dataset" /\ 1 \in used) =>
  LET d == Dataset(JoinL(Flat(hist))) pos(p) == SelectInSeq(hist, LAMBDA x : x = p) IN
  /\ d.classes = 2 /\ d.names = <<Codes("road"), Codes("training")>>
  /\ d.colors = (IF 2 \in used THEN << <<255, 32768>>, <<0, 16>> >> ELSE <<>>)
  /\ d.weights = (IF 3 \in used THEN << <<5, -1>>, <<2, 0>> >> ELSE << <<1, 0>>, <<1, 0>> >>)
  /\ d.error = (IF 4 \in used /\ (9 \in used => pos(9) < pos(4)) THEN 1 ELSE 0)
  /\ d.training = (IF 5 \in used THEN Codes("a b.Tensor") ELSE <<>>)
  /\ d.testing = (IF 6 \in used THEN KClasses ELSE <<>>)

(* ---- scenarios, as tokens to be joined *)
R(a, z) == RandomElement(a..z)
P(z) == R(1, 4)
D(z) == ToString(R(1, 9))
Nat2(z) == IF R(1, 3) = 1 THEN D(0) ELSE ToString(R(0, 9999))
Dec(z) == LET k == R(1, 9) IN
  CASE k = 1 -> Nat2(0) [] k = 2 -> "0." \o Nat2(0) [] k = 3 -> "." \o D(0) [] k = 4 -> D(0) \o "e-" \o D(0) [] k = 5 -> "0.000" \o Nat2(0) [] k = 6 -> D(0) \o "." \o Nat2(0) \o "E+" \o D(0)
    [] k = 7 -> "-" \o D(0) \o "." \o D(0) [] k = 8 -> "00" \o D(0) \o ".50" [] OTHER -> D(0) \o "." \o Nat2(0)
Net == <<"?convolutional size=3x3 kernels=4", "?hmax mu=0.5 weight=0.25", "?lrn size=3 alpha=0.5 beta=0.75 method=across", "?maxpooling size=2x2", "?tanh", "?convolutional size=2x2 kernels=4 llr=0.5", "# ?sigm", "method=patch", "", "#lr=1.5", "#", "# mu=3", " lr=9", "?fullyconnected neurons=(o)">>
SLine(z) == LET k == R(1, 17) IN
  IF k <= 8 THEN <<<<"l1", "l2", "lr", "gamma", "momentum", "exponent", "eta", "mu">>[k], "=", Dec(0)>>
  ELSE IF k <= 11 THEN <<<<"iterations", "sbatchsize", "pbatchsize">>[k - 8], "=", (IF R(1, 3) = 1 THEN <<"0", "00", "0000">>[R(1, 3)] ELSE "") \o (IF R(1, 3) = 1 THEN ToString(R(0, 999999999)) ELSE ToString(R(1, 200)))>>
  ELSE IF k <= 13 THEN <<"optimization=", IF R(1, 2) = 1 THEN "quickprop" ELSE "gradient_descent">>
  ELSE <<Net[R(1, 14)]>>
Names == <<"road", "classes=1", "colors", "weights", "training=x", "# no", "", "a b c", "localized_error=kitti", "car", "sky", "testing", "0x10", "nommap">>
HexT(z) == LET k == R(1, 6) h(n) == LET C == <<"0", "7", "9", "a", "B", "c", "D", "e", "F", "f">> IN C[R(1, 10)] IN
  CASE k = 1 -> "0x" \o h(0) \o h(0) \o h(0) \o h(0) \o h(0) \o h(0) [] k = 2 -> h(0) \o h(0) \o h(0) \o h(0) \o h(0) \o h(0) [] k = 3 -> "0X" \o h(0) [] k = 4 -> "FF" \o h(0) \o h(0) \o h(0) \o h(0) \o h(0) \o h(0) [] k = 5 -> h(0) \o h(0) [] OTHER -> "0x00" \o h(0) \o h(0) \o h(0) \o h(0)
RECURSIVE List(_, _, _)
List(n, what, acc) == IF n = 0 THEN acc ELSE List(n - 1, what, Append(acc, CASE what = 1 -> Names[R(1, 14)] [] what = 2 -> HexT(0) [] OTHER -> Dec(0)))
Files == <<"p1.Tensor", "p2.Tensor", "p3 x.Tensor", "sub/p4.Tensor", "p5=5.Tensor", "", "missing.Tensor">>
File(z) == Files[IF R(1, 12) = 1 THEN 7 ELSE R(1, 6)]
(* n: the number of classes; block b of a description *)
Block(b, n) ==
  CASE b = 1 -> <<"classes=" \o (IF R(1, 3) = 1 THEN "0" ELSE "") \o ToString(n)>> \o List(n, 1, <<>>)
    [] b = 2 -> <<"colors">> \o List(n, 2, <<>>)
    [] b = 3 -> <<"weights">> \o List(n, 3, <<>>)
    [] b = 4 -> <<"localized_error=" \o (IF R(1, 2) = 1 THEN "kitti" ELSE "default")>>
    [] b = 5 -> <<"training=" \o File(0)>>
    [] b = 6 -> <<"testing=" \o File(0)>>
    [] b = 7 -> <<"# training=p1.Tensor">>
    [] b = 8 -> <<"">>
    [] b = 9 -> <<"nommap">>
    [] b = 12 -> <<"training=" \o File(0)>>
    [] b = 13 -> <<"testing=" \o File(0)>>
    [] b = 10 -> <<"#classes=2", "# colors">>
    [] OTHER -> <<"localized_error=" \o (IF R(1, 2) = 1 THEN "kitti" ELSE "default"), "#testing=p2.Tensor">>
SNext == IF Kind = "settings" THEN UNCHANGED used /\ \E x \in {SLine(0)} : hist' = Append(hist, x)
         ELSE \E n \in {IF hist = <<>> THEN R(0, 4) ELSE hist[1]} :
                IF hist = <<>> THEN hist' = <<n, <<R(0, 2), R(0, 1), R(0, 5)>>>> /\ UNCHANGED used
                ELSE \E b \in {RandomElement((1..13) \ used)} :
                      hist' = Append(hist, Block(b, n)) /\ used' = used \cup {b}
SSpec == MInit /\ [][SNext]_mvars
SimExport == (Len(hist) = MaxLen) => PrintT("@@" \o ToJson(hist))
=============================================================================

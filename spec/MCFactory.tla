----------------------------- MODULE MCFactory -----------------------------
(* Exhaustive: all descriptions of up to MaxLines lines over a menu. Simulation: random longer descriptions as scenarios. *)
EXTENDS Factory, TLC, Json
CONSTANTS MaxLines, Menu
VARIABLES lines, cf, tries
mvars == <<lines, cf, tries>>
Conv(kx, ky, s, p, g) == <<1, kx, ky, 2, s, s, p, p, g, 1000, 0>>
MenuQ == {Conv(3, 3, 1, 0, 1), Conv(1, 3, 1, 0, 1), Conv(2, 2, 2, 0, 2), Conv(3, 3, 1, 1, 1), <<4, 2, 2>>, <<5, 2, 1>>, <<6, 3, 2, 2, 1>>, <<9>>, <<11, 1>>, <<12, 1>>, <<13, 1>>, <<14, 1>>, <<15>>, <<2, 2>>, <<20>>, <<16, 2, 2, 1>>, <<19, 0>>}
MenuD == MenuQ \cup {Conv(5, 5, 2, 2, 1), Conv(3, 1, 1, 1, 1), <<18, 4, 4, 2, 2>>, <<11, 2>>, <<13, 2>>, <<3, 1, 3, 100, 750>>, <<10, 100, 0>>}
MInit == lines = <<>> /\ cf \in [c : {1, 2}, loss : {FALSE}, tr : BOOLEAN, w : {1, 2}, h : {1}, m : {2}] /\ tries = 0
MNext == Len(lines) < MaxLines /\ \E ln \in Menu : lines' = Append(lines, ln) /\ UNCHANGED <<cf, tries>>
MSpec == MInit /\ [][MNext]_mvars
Sized(c, ls) == LET r == RF(ls) IN [c EXCEPT !.w = @ * r.fx, !.h = @ * r.fy]
Closed == Append(lines, <<17, -1>>)
Theorems == LET c == Sized(cf, Closed) IN SameSize(c, Closed) /\ SinglePosition(c, Closed) /\ InOrder(c, Closed) /\ Window(lines)
Useful == LET c == Sized(cf, Closed) IN ~(Build(c, Closed).ok /\ Len(Closed) > 3 /\ ~Straight(Closed))      \* reachability probe (must be violated)

(* ---- scenarios *)
R(a, z) == RandomElement(a..z)
K(z) == R(1, 3)
Maps(c, ls) == LET b == Build(Sized(c, ls), ls) IN Dim(b, b.last)[3]
Pick(z, s) == s[R(1, Len(s))]
RConv(z) == LET q == R(1, 4) = 1 k == K(0) g == Pick(0, <<1, 1, 1, 2, 3>>) s == R(1, 5) p == R(1, 6) far == R(1, 15) = 1 IN
  <<1, k, IF q THEN K(0) ELSE k, g * R(1, 3), IF far THEN R(1, 5) ELSE IF s = 1 THEN 2 ELSE 1, IF far THEN R(1, 5) ELSE IF s <= 1 \/ R(1, 12) = 1 THEN 2 ELSE 1, IF p = 1 THEN 1 ELSE 0, IF p = 1 /\ q = FALSE THEN 1 ELSE 0, g,
    Pick(0, <<1000, 1000, 500, 0, 2000, 125>>), Pick(0, <<0, 0, 500, 250>>)>>
RPool(z) == IF R(1, 3) = 1 THEN Pick(0, <<<<2, 1>>, <<1, 2>>, <<3, 3>>, <<1, 1>>, <<3, 2>>>>) ELSE <<2, 2>>
RLine(z) == LET k == R(1, 30) IN
  CASE k <= 8 -> RConv(0)
    [] k <= 10 -> <<2, R(1, 4)>>
    [] k = 11 -> <<3, R(0, 1), Pick(0, <<1, 3, 5>>), Pick(0, <<1000, 500, 100>>), Pick(0, <<1000, 750, 500>>)>>
    [] k <= 13 -> <<4>> \o RPool(0)
    [] k = 14 -> <<5>> \o RPool(0)
    [] k <= 16 -> LET a == TLCEval(LET a == R(1, 3) IN <<a, IF R(1, 3) = 1 THEN R(1, 3) ELSE a>>) IN <<6>> \o a \o (CASE R(1, 3) = 1 -> a [] R(1, 2) = 1 -> <<2, 2>> [] R(1, 3) = 1 -> <<R(1, 5), R(1, 5)>> [] OTHER -> <<R(1, 2), R(1, 2)>>)
    [] k <= 18 -> <<R(7, 9)>>
    [] k = 19 -> <<10, Pick(0, <<1000, 500, 100>>), Pick(0, <<0, 0, 500>>)>>
    [] k <= 22 -> <<11, R(1, 2)>>
    [] k <= 23 -> <<12, R(1, 2)>>
    [] k <= 25 -> <<R(13, 14), R(1, 2)>>
    [] k = 26 -> <<15>>
    [] k = 27 -> IF R(1, 2) = 1 THEN <<16, R(1, 2), R(1, 2), 0>> ELSE <<18, R(1, 6), R(1, 6), R(1, 2), R(1, 2)>>
    [] OTHER -> <<19, R(0, 7)>>
SInit == lines = <<>> /\ tries = -1 /\ cf = [c |-> 1, loss |-> TRUE, tr |-> TRUE, w |-> 1, h |-> 1, m |-> 1]
Small(ls) == LET r == RF(ls) IN r.fx <= 8 /\ r.fy <= 8 /\ r.x <= 24 /\ r.y <= 24 /\ r.x >= -2 /\ r.y >= -2
Try(ls) == Small(ls) /\ LET both == {[cf EXCEPT !.tr = t] : t \in BOOLEAN} IN \A c \in both : Build(Sized(c, ls), ls).ok
(* a branch: both stacks' worth of work in one go, so that sums and concatenations occur often *)
RBranch(z) == LET s == R(1, 2) k == R(1, 3) a == RConv(0) b == RConv(0) k2 == R(1, 2) IN
  IF k = 1 THEN <<<<11, s>>, [a EXCEPT ![2] = 1, ![3] = 1, ![5] = 1, ![6] = 1, ![7] = 0, ![8] = 0], <<11, s>>, <<13, s>>, <<12, s>>, <<12, s>>>>
  ELSE LET t == [[b EXCEPT ![2] = 1, ![3] = 1, ![5] = 1, ![6] = 1, ![7] = 0, ![8] = 0] EXCEPT ![4] = a[4], ![9] = 1] IN
  <<<<11, s>>, a, <<11, 3 - s>>, <<12, s>>, <<11, s>>, t, <<11, 3 - s>>, <<R(13, 14), 3 - s>>, <<12, 3 - s>>, <<12, 3 - s>>>>
Head1(z) == (IF R(1, 2) = 1 THEN <<2, 0>> ELSE [RConv(0) EXCEPT ![2] = 1, ![3] = 1, ![4] = 0, ![5] = 1, ![6] = 1, ![7] = 0, ![8] = 0, ![9] = 1])
Fin(ls) == <<Head1(0), IF R(1, 5) = 1 THEN LET r == RF(ls) IN <<16, r.fx, r.fy, 1>> ELSE <<17, Pick(0, <<-1, 500, 2000, 1000>>)>>>>
SFirst == /\ tries = -1 /\ tries' = 0
          /\ cf' = [c |-> R(1, 4), loss |-> R(1, 5) > 1, tr |-> TRUE, w |-> R(1, 3), h |-> R(1, 3), m |-> R(1, 6)]
          /\ lines' = (IF R(1, 2) = 1 THEN <<<<20>>>> ELSE <<>>)
SMore == /\ tries >= 0 /\ UNCHANGED cf /\ tries' = tries + 1
         /\ \E x \in {IF R(1, 12) = 1 THEN RBranch(tries) ELSE <<RLine(tries)>>} :
              lines' = IF tries + 1 = MaxLines THEN lines \o (LET f == TLCEval(Fin(lines)) IN IF Try(lines \o f) THEN f ELSE <<>>)
                       ELSE IF Try(lines \o x) THEN lines \o x ELSE lines
SNext == SFirst \/ SMore
SSpec == SInit /\ [][SNext]_mvars
Done == tries = MaxLines /\ lines # <<>> /\ (lines[Len(lines)][1] = 17 \/ (lines[Len(lines)][1] = 16 /\ lines[Len(lines)][4] = 1))
SimExport == Done => PrintT("@@" \o ToJson([lines |-> lines, c |-> cf.c, loss |-> cf.loss, w |-> Sized(cf, lines).w, h |-> Sized(cf, lines).h, m |-> cf.m]))
=============================================================================

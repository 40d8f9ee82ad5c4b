---------------------------- MODULE MCDescriptor ----------------------------
(* Every text over a small alphabet that is a prefix of a descriptor followed by at most Slack further characters: the
   declarative grammar agrees with a state machine that reads one character after the other. *)
EXTENDS Descriptor, TLC, Json
CONSTANTS Alphabet, MaxLen, Slack
VARIABLES str, q, over, hist
SK == <<97>>
mvars == <<str, q, over, hist>>
(* 0 start 1 type 2 opened 3 key 4 equals 5 value 6 blank 7 closed 9 wrong *)
Delta(s, c) ==
  CASE s = 0 -> IF c \in Lower THEN 1 ELSE 9
    [] s = 1 -> IF c \in Lower THEN 1 ELSE IF c = OPEN THEN 2 ELSE 9
    [] s = 2 -> IF c \in Lower THEN 3 ELSE IF c = CLOSE THEN 7 ELSE 9
    [] s = 3 -> IF c \in Lower THEN 3 ELSE IF c = EQ THEN 4 ELSE 9
    [] s = 4 -> IF c \in Word THEN 5 ELSE 9
    [] s = 5 -> IF c \in Word THEN 5 ELSE IF c = BLANK THEN 6 ELSE IF c = CLOSE THEN 7 ELSE 9
    [] s = 6 -> IF c \in Lower THEN 3 ELSE 9
    [] OTHER -> 9
MInit == str = <<>> /\ q = 0 /\ over = 0 /\ hist = <<>>
MNext == Len(str) < MaxLen /\ over < Slack /\ \E c \in Alphabet : str' = Append(str, c) /\ q' = Delta(q, c) /\ over' = (IF q' = 9 THEN over + 1 ELSE over) /\ UNCHANGED hist
MSpec == MInit /\ [][MNext]_mvars
Accepts == Valid(str) <=> q \in {1, 7}
One == <<49, 50>>
Two == <<57>>
(* the descriptor consists of its type and configuration; injecting a seed sets it and keeps everything else, in order *)
Parts == Valid(str) => str = Type(str) \o (IF HasParens(str) THEN <<OPEN>> \o Config(str) \o <<CLOSE>> ELSE <<>>)
Others(s) == SelectSeq(Params(s), LAMBDA p : Key(p) # SeedKey)
Injected ==
  LET t == InjectSeed(str, One) IN
  /\ ~Valid(str) => t = str
  /\ Valid(str) => Valid(t) /\ Type(t) = Type(str) /\ Others(t) = Others(str) /\ Get(t, SeedKey) = One /\ (\A i \in DOMAIN Params(t) : Key(Params(t)[i]) = SeedKey => Value(Params(t)[i]) = One)
                   /\ InjectSeed(t, Two) = InjectSeed(str, Two) /\ InjectSeed(t, One) = t
Export == str # <<>> => PrintT("@@" \o ToJson(str))

(* ---- scenarios: realistic descriptors and near misses, as tokens to be joined *)
R(a, z) == RandomElement(a..z)
P(z) == R(1, 4)
Types == <<"convolution", "maxpooling", "amaxpooling", "tanh", "sigm", "relu", "gradientaccumulation", "resize", "hmax", "softmax", "x", "convolutional", "Convolution", "">>
Keys == <<"size", "stride", "pad", "kernels", "group", "dropout", "llr", "seed", "mu", "weight", "outputs", "border", "myseed", "seeds", "s", "seed1", "">>
Values == <<"3x3", "2x1", "1", "0", "12", "0.5", ".", "abc", "A1.b2", "007", "3X3", "", "-1", "4294967295", "1_0", "103x7", "3x120">>
RECURSIVE PS(_, _)
PS(n, acc) == IF n = 0 THEN acc ELSE PS(n - 1, acc \o (IF acc = <<>> THEN <<>> ELSE <<IF R(1, 12) = 1 THEN "  " ELSE " ">>) \o <<Keys[IF P(0) > 1 THEN R(1, 12) ELSE R(1, 17)], IF R(1, 20) = 1 THEN "==" ELSE "=", Values[IF P(0) > 1 THEN R(1, 11) ELSE R(1, 17)]>>)
Text(z) == LET n == R(0, 4) t == <<Types[IF P(0) > 1 THEN R(1, 9) ELSE R(1, 14)]>>
           IN IF R(1, 6) = 1 THEN t ELSE t \o <<IF R(1, 25) = 1 THEN "((" ELSE IF R(1, 25) = 1 THEN " (" ELSE "(">> \o PS(n, <<>>) \o <<IF R(1, 25) = 1 THEN "" ELSE IF R(1, 25) = 1 THEN "))" ELSE IF R(1, 20) = 1 THEN ") " ELSE ")">>
SNext == /\ UNCHANGED <<str, q, over>>
         /\ \E k \in {R(1, 3)} :
              IF k = 1 THEN \E t \in {Text(0)} : hist' = Append(hist, <<"D", t, R(0, 2000000000)>>)
              ELSE \E t \in {R(1, 9)}, s \in {R(1, 1000000)} : hist' = Append(hist, <<"B", t, s>>)
SSpec == MInit /\ [][SNext]_mvars
SimExport == (Len(hist) = MaxLen) => PrintT("@@" \o ToJson(hist))
=============================================================================

----------------------------- MODULE Descriptor -----------------------------
(* Textual layer descriptors: type or type(key=value key=value ...). Texts are sequences of character codes.
     descriptor == type | type "(" ")" | type "(" param (" " param)* ")"
     param      == key "=" value       type, key: lower case letters       value: letters, digits, points *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS SeedKey                                       \* the key "seed"
Lower == 97..122
Digit == 48..57
Word == Lower \cup (65..90) \cup Digit \cup {46}
OPEN == 40
CLOSE == 41
EQ == 61
BLANK == 32
POINT == 46
EX == 120
All(s, S) == \A i \in DOMAIN s : s[i] \in S
From(s, i) == SubSeq(s, i, Len(s))
Find(s, c) == LET k == SelectInSeq(s, LAMBDA x : x = c) IN IF k = 0 THEN Len(s) + 1 ELSE k      \* first position of c; Len + 1 if none
RECURSIVE Split(_, _)                                   \* the parts between occurrences of c
Split(s, c) == LET k == Find(s, c) IN IF k > Len(s) THEN <<s>> ELSE <<SubSeq(s, 1, k - 1)>> \o Split(From(s, k + 1), c)
RECURSIVE Join(_, _)
Join(ps, c) == IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o <<c>> \o Join(Tail(ps), c)
IsName(s) == s # <<>> /\ All(s, Lower)
IsParam(s) == LET k == Find(s, EQ) IN k <= Len(s) /\ IsName(SubSeq(s, 1, k - 1)) /\ Len(s) > k /\ All(From(s, k + 1), Word)
HasParens(s) == Find(s, OPEN) <= Len(s)
Type(s) == SubSeq(s, 1, Find(s, OPEN) - 1)
Config(s) == IF HasParens(s) THEN SubSeq(s, Find(s, OPEN) + 1, Len(s) - 1) ELSE <<>>
Valid(s) ==
  /\ IsName(Type(s))
  /\ HasParens(s) => /\ Len(s) >= Find(s, OPEN) + 1 /\ s[Len(s)] = CLOSE
                     /\ Config(s) = <<>> \/ LET ps == Split(Config(s), BLANK) IN \A i \in DOMAIN ps : IsParam(ps[i])
(* of valid descriptors *)
Params(s) == IF Config(s) = <<>> THEN <<>> ELSE Split(Config(s), BLANK)
Key(p) == SubSeq(p, 1, Find(p, EQ) - 1)
Value(p) == From(p, Find(p, EQ) + 1)
Has(s, key) == \E i \in DOMAIN Params(s) : Key(Params(s)[i]) = key
Get(s, key) == LET ps == Params(s) i == CHOOSE i \in DOMAIN ps : Key(ps[i]) = key /\ \A j \in 1..(i - 1) : Key(ps[j]) # key IN Value(ps[i])
SeedParam(n) == SeedKey \o <<EQ>> \o n
InjectSeed(s, n) ==
  IF ~Valid(s) THEN s
  ELSE LET ps == Params(s)
           qs == IF Has(s, SeedKey) THEN [i \in DOMAIN ps |-> IF Key(ps[i]) = SeedKey THEN SeedParam(n) ELSE ps[i]] ELSE Append(ps, SeedParam(n))
       IN  Type(s) \o <<OPEN>> \o Join(qs, BLANK) \o <<CLOSE>>

(* ---- values *)
RECURSIVE Nat_(_, _)
Nat_(s, acc) == IF s = <<>> THEN acc ELSE Nat_(Tail(s), 10 * acc + s[1] - 48)
IsNat(s) == s # <<>> /\ Len(s) <= 6 /\ All(s, Digit)
IsPair(s) == LET k == Find(s, EX) IN k <= Len(s) /\ IsNat(SubSeq(s, 1, k - 1)) /\ IsNat(From(s, k + 1))
Pair(s) == LET k == Find(s, EX) IN <<Nat_(SubSeq(s, 1, k - 1), 0), Nat_(From(s, k + 1), 0)>>
IsDec(s) == IsNat(s) \/ LET k == Find(s, POINT) IN k <= Len(s) /\ k > 1 /\ IsNat(SubSeq(s, 1, k - 1)) /\ Len(s) - k \in 1..3 /\ All(From(s, k + 1), Digit)
(* in thousandths *)
Dec(s) == IF IsNat(s) THEN 1000 * Nat_(s, 0)
          ELSE LET k == Find(s, POINT) f == From(s, k + 1) IN 1000 * Nat_(SubSeq(s, 1, k - 1), 0) + Nat_(f, 0) * (CASE Len(f) = 1 -> 100 [] Len(f) = 2 -> 10 [] OTHER -> 1)
=============================================================================

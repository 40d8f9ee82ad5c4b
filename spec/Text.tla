-------------------------------- MODULE Text --------------------------------
(* Strings as sequences of character codes. *)
EXTENDS Integers, Sequences, TLC
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |-> 31 + CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c]
Codes(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]
=============================================================================

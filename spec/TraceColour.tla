---------------------------- MODULE TraceColour ----------------------------
EXTENDS Colour, TraceBase
vars == <<files, classes, l>>
Sub(s, i, n) == SubSeq(s, i, i + n - 1)
Keep == UNCHANGED <<files, classes>>
TBegin == IsEvent("Begin") /\ files' = <<>> /\ classes' = <<>>
Classes == IsEvent("Classes") /\ SetClasses([c \in 1..E.n |-> Sub(E.c, 3 * c - 2, 3)])
(* an image file (made with libpng) is loaded: the tensor has exactly its pixels *)
Load == IsEvent("Load") /\ Store(E.w, E.h, E.ch, E.pix) /\ E.d = <<1, E.w, E.h, E.ch>> /\ E.v = Planar(files'[Len(files')])
(* a tensor is saved: the file (read with libpng) has exactly its pixels, and so has the tensor loaded from it *)
Save == IsEvent("Save") /\ Store(E.w, E.h, E.ch, E.pix)
        /\ E.file = E.pix /\ E.fd = <<E.w, E.h, E.ch>>
        /\ E.d = <<1, E.w, E.h, E.ch>> /\ E.v = Planar(files'[Len(files')])
(* a uniformly coloured image survives the lossy format up to a small difference *)
Jpeg == IsEvent("Jpeg") /\ Keep /\ E.d = <<1, E.w, E.h, 3>> /\ \A k \in 1..3 : Abs(E.lo[k] - E.c[k]) <= 4 /\ Abs(E.hi[k] - E.c[k]) <= 4
Label == IsEvent("Label") /\ Keep
         /\ LET n == E.w * E.h IN
            /\ E.d = <<1, E.w, E.h, Len(classes)>>
            /\ \A p \in 1..n : LabelRight(IF E.ch = 3 THEN Sub(E.pix, 3 * p - 2, 3) ELSE <<E.pix[p], E.pix[p], E.pix[p]>>, [c \in 1..Len(classes) |-> E.v[(c - 1) * n + p]])
Paint == IsEvent("Paint") /\ Keep
         /\ LET n == E.w * E.h  C == Len(classes) IN
            \A s \in 0..(E.s - 1) : \A p \in 1..n :
               PaintRight([c \in 1..C |-> E.sc[(s * C + c - 1) * n + p]], [k \in 1..3 |-> E.v[(s * 3 + k - 1) * n + p]])
TNext == TBegin \/ Classes \/ Load \/ Save \/ Jpeg \/ Label \/ Paint
TSpec == Init /\ l = 1 /\ [][TNext]_vars
=============================================================================

------------------------------ MODULE Patches ------------------------------
(* Tensors as values, and the extraction of patches and labels around every pixel of one of their samples.
   A tensor: d = <<samples, width, height, maps>>, v = its elements in storage order. *)
EXTENDS Integers, Sequences, TLC
N(d) == d[1] * d[2] * d[3] * d[4]
(* the value with m = map, x, y, s = sample of element e *)
Sx(d, e) == (e - 1) % d[2]
Sy(d, e) == ((e - 1) \div d[2]) % d[3]
Sm(d, e) == ((e - 1) \div (d[2] * d[3])) % d[4]
Ss(d, e) == (e - 1) \div (d[2] * d[3] * d[4])
At(d, x, y, m, s) == s * d[4] * d[2] * d[3] + m * d[2] * d[3] + y * d[2] + x + 1
Tens(d, F(_, _, _, _)) == [d |-> d, v |-> TLCEval([e \in 1..N(d) |-> F(Sx(d, e), Sy(d, e), Sm(d, e), Ss(d, e))])]

(* a coordinate outside of 0..n-1, mirrored at the borders until it is inside: at the first pixel, behind the last *)
RECURSIVE Mirror(_, _)
Mirror(i, n) == IF i < 0 THEN Mirror(-i, n) ELSE IF i >= n THEN Mirror(2 * n - 1 - i, n) ELSE i
Patches(t, s, pw, ph) ==
  Tens(<<t.d[2] * t.d[3], pw, ph, t.d[4]>>,
       LAMBDA x, y, m, e : t.v[At(t.d, Mirror((e % t.d[2]) + x - pw \div 2, t.d[2]), Mirror((e \div t.d[2]) + y - ph \div 2, t.d[3]), m, s)])
PatchOf(e, w) == <<e % w, e \div w>>                       \* the pixel patch e belongs to
RECURSIVE Sum(_, _, _)
Sum(v, a, b) == IF a > b THEN 0 ELSE v[a] + Sum(v, a + 1, b)
(* E times the patches without their mean, E being the number of elements of a patch *)
Centred(p) == LET E == p.d[2] * p.d[3] * p.d[4]
                  S == TLCEval([e \in 0..(p.d[1] - 1) |-> Sum(p.v, e * E + 1, e * E + E)])
              IN [d |-> p.d, v |-> TLCEval([k \in DOMAIN p.v |-> E * p.v[k] - S[(k - 1) \div E]])]
Clamp(x, hi) == LET a == IF x < hi THEN x ELSE hi IN IF a < 0 THEN 0 ELSE a
(* the position of a patch, in pixels: row then column of its first pixel, confined to the image *)
Positions(t, pw, ph) == [k \in 1..(2 * t.d[2] * t.d[3]) |-> LET q == PatchOf((k - 1) \div 2, t.d[2]) IN
                           IF k % 2 = 1 THEN Clamp(q[2] - ph \div 2, t.d[3] - (ph - 1)) ELSE Clamp(q[1] - pw \div 2, t.d[2] - (pw - 1))]
(* labels of all pixels, read `shift` pixels right of and below the pixel; weight 0 for the ignored class only *)
Labels(t, s, shift) == [k \in 1..(t.d[2] * t.d[3]) |-> LET q == PatchOf(k - 1, t.d[2]) IN t.v[At(t.d, Mirror(q[1] + shift, t.d[2]), Mirror(q[2] + shift, t.d[3]), 0, s)]]
Weights(ls, ignored) == [k \in DOMAIN ls |-> IF ls[k] = ignored THEN 0 ELSE 1]
=============================================================================

------------------------------ MODULE Streams ------------------------------
(* A catalogue of tensors delivered by several streams of different kinds (uncompressed file, compressed file, list of
   images), and target tensors that samples are copied into. *)
EXTENDS Integers, Sequences
CONSTANT NT
VARIABLES cat, tgt, ret
svars == <<cat, tgt, ret>>
Targets == 1..NT
(* a tensor: d = <<samples, width, height, maps>>, v = elements in storage order *)
Off(d, x, y, m, s) == s * d[4] * d[2] * d[3] + m * d[2] * d[3] + y * d[2] + x + 1
N(d) == d[1] * d[2] * d[3] * d[4]
Init == cat = <<>> /\ tgt = [i \in Targets |-> [d |-> <<0,0,0,0>>, v |-> <<>>]] /\ ret = TRUE

AddTensor(d, v) == Len(v) = N(d) /\ cat' = Append(cat, [d |-> d, v |-> v]) /\ UNCHANGED tgt /\ ret' = TRUE
(* an image and its label image; pix are the interleaved colour bytes, lab the class (0: none) of each pixel, cls the
   number of classes.  The image keeps its channels, the label has one channel per class. *)
AddImage(w, h, ch, cls, pix, lab) ==
  /\ Len(pix) = w * h * ch /\ Len(lab) = w * h
  /\ cat' = cat \o <<
       [d |-> <<1, w, h, ch>>, v |-> [e \in 1..(w * h * ch) |-> LET m == (e - 1) \div (w * h)  p == (e - 1) % (w * h) IN pix[p * ch + m + 1]]],
       [d |-> <<1, w, h, cls>>, v |-> [e \in 1..(w * h * cls) |-> LET m == (e - 1) \div (w * h)  p == (e - 1) % (w * h) IN
                                        IF cls = 1 THEN (IF lab[p + 1] = 1 THEN 255 ELSE -255) ELSE IF lab[p + 1] = m + 1 THEN 255 ELSE 0]] >>
  /\ UNCHANGED tgt /\ ret' = TRUE

SetTarget(i, d, v) == Len(v) = N(d) /\ tgt' = [tgt EXCEPT ![i] = [d |-> d, v |-> v]] /\ UNCHANGED cat /\ ret' = TRUE

Legal(k, ss, i, ts) ==
  /\ k < Len(cat)
  /\ LET c == cat[k + 1].d  t == tgt[i].d IN ss < c[1] /\ ts < t[1] /\ c[4] = t[4] /\ c[2] <= t[2] /\ c[3] <= t[3]
Delivered(c, ss, t, ts) ==
  [e \in DOMAIN t.v |->
     LET q == t.d[2] * t.d[3]  s == (e - 1) \div (q * t.d[4])  m == ((e - 1) \div q) % t.d[4]  y == ((e - 1) % q) \div t.d[2]  x == (e - 1) % t.d[2] IN
     IF s # ts THEN t.v[e] ELSE IF x < c.d[2] /\ y < c.d[3] THEN c.v[Off(c.d, x, y, m, ss)] ELSE 0]
(* a request to a stream of kind "file" may also ask for samples the list kind cannot have *)
Copy(k, ss, i, ts) ==
  /\ tgt[i].v # <<>>
  /\ ret' = Legal(k, ss, i, ts)
  /\ tgt' = IF Legal(k, ss, i, ts) THEN [tgt EXCEPT ![i].v = Delivered(cat[k + 1], ss, tgt[i], ts)] ELSE tgt
  /\ UNCHANGED cat
Shape(k) == IF k < Len(cat) THEN cat[k + 1].d ELSE <<0,0,0,0>>
=============================================================================

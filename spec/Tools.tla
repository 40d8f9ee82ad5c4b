------------------------------- MODULE Tools -------------------------------
(* The conversion tools: named stream files, either uncompressed ("raw") or compressed ("comp"), made from lists of images and
   label images, compressed, truncated and edited.  Values are in 1/255.
   A tensor: d = <<samples, width, height, maps>>, v = its elements in storage order. *)
EXTENDS Patches
CONSTANT NF
VARIABLES pal,     \* the colours of the classes, <<r, g, b>>
          img,     \* the images: w, h, ch, pix (bytes, channels interleaved)
          file,    \* the stream files
          bin      \* the 8 bit file
tvars == <<pal, img, file, bin>>
Files == 1..NF
NoFile == [k |-> "none", ts |-> <<>>]
Init == pal = <<>> /\ img = <<>> /\ file = [f \in Files |-> NoFile] /\ bin = <<>>

Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
(* ---- images *)
Byte(i, x, y, c) == i.pix[(y * i.w + x) * i.ch + (IF i.ch = 1 THEN 0 ELSE c) + 1]
Colour(i, x, y) == <<Byte(i, x, y, 0), Byte(i, x, y, 1), Byte(i, x, y, 2)>>
ImageTensor(i) == Tens(<<1, i.w, i.h, i.ch>>, LAMBDA x, y, m, s : Byte(i, x, y, m))
(* one class: 1 for its colour, falling linearly with the distance to -1 for the opposite colour *)
Distance(p, q) == Abs(p[1] - q[1])              \* of colours which differ equally in every channel
Equidistant(p, q) == Abs(p[1] - q[1]) = Abs(p[2] - q[2]) /\ Abs(p[1] - q[1]) = Abs(p[3] - q[3])
LabelTensor(i, direct) ==
  IF direct THEN Tens(<<1, i.w, i.h, 3>>, LAMBDA x, y, m, s : Byte(i, x, y, m))
  ELSE IF Len(pal) = 1 THEN Tens(<<1, i.w, i.h, 1>>, LAMBDA x, y, m, s : 255 - 2 * Distance(Colour(i, x, y), pal[1]))
  ELSE Tens(<<1, i.w, i.h, Len(pal)>>, LAMBDA x, y, m, s : IF Colour(i, x, y) = pal[m + 1] THEN 255 ELSE 0)
(* the pairs of two lists of image numbers: a list ends at its first empty line (0) *)
Upto(l) == LET z == {k \in DOMAIN l : l[k] = 0} IN IF z = {} THEN Len(l) ELSE (CHOOSE k \in z : \A j \in z : k <= j) - 1
Pairs(il, ll) == Min(Upto(il), Upto(ll))
RECURSIVE Converted(_, _, _, _)
Converted(il, ll, direct, k) ==
  IF k > Pairs(il, ll) THEN <<>>
  ELSE (IF img[il[k]].w = img[ll[k]].w /\ img[il[k]].h = img[ll[k]].h THEN <<ImageTensor(img[il[k]]), LabelTensor(img[ll[k]], direct)>> ELSE <<>>)
       \o Converted(il, ll, direct, k + 1)
Known(il, ll) == \A k \in 1..Pairs(il, ll) : il[k] \in DOMAIN img /\ ll[k] \in DOMAIN img
(* labels the specification speaks about: the only class is compared with colours at a definite distance *)
Clear(ll, n, direct) == ~direct /\ Len(pal) = 1 => \A k \in 1..n : LET i == img[ll[k]] IN \A x \in 0..(i.w - 1), y \in 0..(i.h - 1) : Equidistant(Colour(i, x, y), pal[1])

Palette(p) == pal = <<>> /\ p # <<>> /\ pal' = p /\ UNCHANGED <<img, file, bin>>
NewImage(w, h, ch, pix) == Len(pix) = w * h * ch /\ img' = Append(img, [w |-> w, h |-> h, ch |-> ch, pix |-> pix]) /\ UNCHANGED <<pal, file, bin>>
(* a stream written by something else; reading one ends at its first tensor without elements, though the tools work on all *)
Empty == [d |-> <<0, 0, 0, 0>>, v |-> <<>>]
RECURSIVE Seen(_)
Seen(ts) == IF ts = <<>> THEN 0 ELSE IF N(Head(ts).d) = 0 THEN 0 ELSE 1 + Seen(Tail(ts))
Put(f, ts) == (\A k \in DOMAIN ts : Len(ts[k].v) = N(ts[k].d) /\ (N(ts[k].d) = 0 => ts[k].d = Empty.d)) /\ file' = [file EXCEPT ![f] = [k |-> "raw", ts |-> ts]] /\ UNCHANGED <<pal, img, bin>>
Make(f, kind, il, ll, direct) ==
  /\ pal # <<>> /\ Known(il, ll) /\ Clear(ll, Pairs(il, ll), direct)
  /\ file' = [file EXCEPT ![f] = [k |-> kind, ts |-> Converted(il, ll, direct, 1)]]
  /\ UNCHANGED <<pal, img, bin>>
Compress(f, g) ==
  /\ f # g /\ file[f].k = "raw"
  (* a file of nothing may become one of a tensor of nothing: neither shows any *)
  /\ \E ts \in {file[f].ts} \cup (IF file[f].ts = <<>> THEN {<<Empty>>} ELSE {}) : file' = [file EXCEPT ![g] = [k |-> "comp", ts |-> ts]]
  /\ UNCHANGED <<pal, img, bin>>
(* truncation: a file which doesn't have that many tensors stays as it is *)
Keep(f, n) ==
  /\ file[f].k # "comp"
  /\ file' = IF n < Len(file[f].ts) THEN [file EXCEPT ![f].ts = SubSeq(@, 1, n)] ELSE file
  /\ UNCHANGED <<pal, img, bin>>

(* ---- editing one tensor of a file *)
Transposed(t) == Tens(<<t.d[1], t.d[3], t.d[2], t.d[4]>>, LAMBDA x, y, m, s : t.v[At(t.d, y, x, m, s)])
Reshaped(t, w, h, m, s) == IF s * w * h * m = N(t.d) THEN [t EXCEPT !.d = <<s, w, h, m>>] ELSE t
(* eight bit values, the maps of three-map tensors interleaved *)
Eight(k) == (127 * 255 + 127 * k) \div 255
Bytes(t) ==
  IF t.d[4] = 3
  THEN [e \in 1..N(t.d) |-> LET p == (e - 1) \div 3  q == t.d[2] * t.d[3] IN Eight(t.v[(p \div q) * 3 * q + ((e - 1) % 3) * q + (p % q) + 1])]
  ELSE [e \in 1..N(t.d) |-> Eight(t.v[e])]
EightBit(t) == \A e \in DOMAIN t.v : t.v[e] >= -255 /\ t.v[e] <= 256
(* commands: <<"transpose">>, <<"reshape", w, h, m, s>>, <<"patches", s, pw, ph>>, <<"write">>, <<"bin">>, <<"size">>
   State of an editing session: the tensor, the file, the 8 bit file and the sizes displayed. *)
Step(z, c) ==
  CASE c[1] = "transpose" -> [z EXCEPT !.t = Transposed(@)]
    [] c[1] = "reshape" -> [z EXCEPT !.t = Reshaped(@, c[2], c[3], c[4], c[5])]
    [] c[1] = "patches" -> [z EXCEPT !.t = Patches(@, c[2], c[3], c[4])]
    [] c[1] = "write" -> [z EXCEPT !.f = <<z.t>>]
    [] c[1] = "bin" -> [z EXCEPT !.b = Bytes(z.t)]
    [] c[1] = "size" -> [z EXCEPT !.out = Append(@, z.t.d)]
RECURSIVE Steps(_, _)
Steps(z, cs) == IF cs = <<>> THEN z ELSE Steps(Step(z, Head(cs)), Tail(cs))
Legal(t, c) == (c[1] = "patches" => c[2] < t.d[1]) /\ (c[1] = "bin" => EightBit(t))
RECURSIVE AllLegal(_, _)
AllLegal(z, cs) == IF cs = <<>> THEN TRUE ELSE Legal(z.t, Head(cs)) /\ AllLegal(Step(z, Head(cs)), Tail(cs))
Opened(f, n) == [t |-> file[f].ts[n + 1], f |-> file[f].ts, b |-> bin, out |-> <<>>]
Edit(f, n, cs) ==
  /\ file[f].k = "raw" /\ n < Len(file[f].ts)
  /\ N(file[f].ts[n + 1].d) > 0 /\ AllLegal(Opened(f, n), cs)
  /\ LET z == Steps(Opened(f, n), cs) IN file' = [file EXCEPT ![f].ts = z.f] /\ bin' = z.b
  /\ UNCHANGED <<pal, img>>
=============================================================================

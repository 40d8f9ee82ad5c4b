------------------------------ MODULE MCTools ------------------------------
EXTENDS Tools, TLC, Json
CONSTANTS MaxLen, MaxDepth, MaxList, MakeInto
VARIABLES hist, made       \* made: for every file the list conversion it comes from, and how many tensors were kept of it
mvars == <<pal, img, file, bin, hist, made>>
R(a, b) == RandomElement(a..b)
Rec(op) == hist' = Append(hist, op)

(* ---- exhaustive: three images, all palettes and lists over them *)
W == <<255, 255, 255>>
K == <<0, 0, 0>>
RED == <<255, 0, 0>>
Pool == << [w |-> 2, h |-> 1, ch |-> 1, pix |-> <<0, 255>>], [w |-> 2, h |-> 1, ch |-> 3, pix |-> <<255, 255, 255, 0, 0, 0>>],
           [w |-> 2, h |-> 1, ch |-> 3, pix |-> <<255, 0, 0, 0, 0, 0>>], [w |-> 1, h |-> 2, ch |-> 1, pix |-> <<255, 0>>] >>
Lists == UNION {[1..n -> 0..3] : n \in 1..MaxList} \cup {<<4, 1>>, <<1, 4>>}
NoMade == [il |-> <<>>, ll |-> <<>>, direct |-> FALSE, kept |-> -1]
MInit == Init /\ hist = <<>> /\ made = [f \in Files |-> NoMade]
MNext == TLCGet("level") < MaxDepth /\ UNCHANGED hist /\
  \/ pal = <<>> /\ \E p \in {<<W>>, <<W, K>>, <<W, RED>>, <<W, W>>} : pal' = p /\ img' = Pool /\ UNCHANGED <<file, bin, made>>
  \/ \E f \in MakeInto, il, ll \in Lists, kind \in {"raw", "comp"}, direct \in BOOLEAN :
       Make(f, kind, il, ll, direct) /\ made' = [made EXCEPT ![f] = [il |-> il, ll |-> ll, direct |-> direct, kept |-> Len(Converted(il, ll, direct, 1))]]
  \/ \E f, g \in Files : Compress(f, g) /\ made' = [made EXCEPT ![g] = made[f]]
  \/ \E f \in Files, n \in 0..3 : Keep(f, n) /\ made' = [made EXCEPT ![f].kept = Min(@, n)]
  \/ \E f \in Files, n \in 0..1, c \in {<<"transpose">>, <<"reshape", 1, 1, 2, 1>>, <<"patches", 0, 3, 2>>} : Edit(f, n, <<c>>) /\ UNCHANGED made
MSpec == MInit /\ [][MNext]_mvars
(* every way to a file gives the same tensors: those of the direct conversion, up to truncation *)
Shown(f) == SubSeq(file[f].ts, 1, Seen(file[f].ts))
Agree == \A f \in Files : file[f].k # "none" => Shown(f) = SubSeq(Converted(made[f].il, made[f].ll, made[f].direct, 1), 1, made[f].kept)
PairsWhole == \A f \in Files : file[f].k # "none" /\ made[f].kept % 2 = 0 =>
  \A k \in DOMAIN Shown(f) : k % 2 = 1 => file[f].ts[k].d[2] = file[f].ts[k + 1].d[2] /\ file[f].ts[k].d[3] = file[f].ts[k + 1].d[3]
OneClass == \A f \in Files : file[f].k # "none" /\ ~made[f].direct /\ Len(pal) = 2 /\ pal[1] # pal[2] =>
  \A k \in DOMAIN Shown(f) : k % 2 = 0 => \A p \in 1..(file[f].ts[k].d[2] * file[f].ts[k].d[3]) :
     {file[f].ts[k].v[p], file[f].ts[k].v[p + file[f].ts[k].d[2] * file[f].ts[k].d[3]]} # {255}
Reversible == \A f \in Files : \A k \in DOMAIN Shown(f) : LET t == file[f].ts[k] IN
  /\ Transposed(Transposed(t)) = t
  /\ \A m \in {1, t.d[4]}, s \in {1} : Reshaped(Reshaped(t, N(t.d), 1, 1, 1), t.d[2], t.d[3], t.d[4], t.d[1]) = t
  /\ \A e \in 0..(t.d[2] * t.d[3] - 1), m \in 0..(t.d[4] - 1) : LET p == Patches(t, 0, 3, 2) IN p.v[At(p.d, 1, 1, m, e)] = t.v[m * t.d[2] * t.d[3] + e + 1]   \* the centre
(* editing without writing doesn't touch the file *)
Untouched == [][ bin' = bin /\ made' = made => \A f \in Files : file'[f] = file[f] \/ \E g \in Files : file'[f].ts = file[g].ts \/ (file[g].ts = <<>> /\ file'[f].ts = <<Empty>>) ]_mvars

(* ---- scenarios *)
RECURSIVE RSeq(_, _, _)
RSeq(n, a, b) == IF n = 0 THEN <<>> ELSE <<R(a, b)>> \o RSeq(n - 1, a, b)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Grey(v) == <<v, v, v>>
SomeColour(z) == CASE R(1, 5) = 1 -> Grey(R(0, 255)) [] R(1, 4) = 1 -> RSeq(3, 0, 255) [] OTHER -> <<255 * R(0, 1), 255 * R(0, 1), 255 * R(0, 1)>>
RECURSIVE SomePal(_)
SomePal(n) == IF n = 0 THEN <<>> ELSE <<SomeColour(n)>> \o SomePal(n - 1)
(* sometimes the same colour twice *)
Dup(p) == IF Len(p) > 2 /\ R(1, 3) = 1 THEN [p EXCEPT ![Len(p)] = p[1]] ELSE p
(* colours of label images: mostly those of classes, sometimes one channel off *)
Near(c) == LET k == R(1, 3) IN [c EXCEPT ![k] = IF @ = 255 THEN 254 ELSE @ + 1]
LabelColour(z) ==
  IF Len(pal) = 1 THEN (IF pal[1] = Grey(pal[1][1]) THEN IF R(1, 3) = 1 THEN Grey(R(0, 255)) ELSE Grey(255 * R(0, 1))
                        ELSE CASE R(1, 3) = 1 -> pal[1] [] OTHER -> IF \A k \in 1..3 : pal[1][k] \in {0, 255} THEN [k \in 1..3 |-> 255 - pal[1][k]] ELSE LET d == R(0, 255) IN
                                IF \A k \in 1..3 : pal[1][k] + d \in 0..255 \/ pal[1][k] - d \in 0..255 THEN [k \in 1..3 |-> IF pal[1][k] + d \in 0..255 THEN pal[1][k] + d ELSE pal[1][k] - d] ELSE pal[1])
  ELSE CASE R(1, 8) = 1 -> SomeColour(z) [] R(1, 8) = 1 -> Near(pal[R(1, Len(pal))]) [] OTHER -> pal[R(1, Len(pal))]
RECURSIVE LabelPix(_)
LabelPix(n) == IF n = 0 THEN <<>> ELSE LabelColour(n) \o LabelPix(n - 1)
RECURSIVE GreyPix(_)
GreyPix(n) == IF n = 0 THEN <<>> ELSE <<LabelColour(n)[1]>> \o GreyPix(n - 1)
Sizes == <<<<1, 1>>, <<3, 2>>, <<2, 3>>, <<5, 1>>, <<4, 4>>, <<7, 3>>>>
RECURSIVE RTs(_)
RTs(n) == IF n = 0 THEN <<>> ELSE <<LET d == IF R(1, 10) = 1 THEN Empty.d ELSE <<R(1, 3), R(1, 5), R(1, 4), RandomElement({1, 1, 2, 3, 3, 4})>> IN
                                    [d |-> d, v |-> IF R(1, 3) = 1 THEN LET q == R(-255, 255) IN (IF N(d) = 0 THEN <<>> ELSE [e \in 1..N(d) |-> q]) ELSE RSeq(N(d), -255, 255)]>> \o RTs(n - 1)
Flat(ts) == Concat([k \in DOMAIN ts |-> ts[k].d \o ts[k].v])
SomeList(n, from) == LET l == [k \in 1..n |-> from[R(1, Len(from))]] IN IF R(1, 3) = 1 THEN Append(l, 0) \o (IF R(1, 2) = 1 THEN <<from[1]>> ELSE <<>>) ELSE l
(* images of even number are label images *)
Evens(z) == SelectSeq([k \in DOMAIN img |-> k], LAMBDA k : k % 2 = 0)
Odds(z) == SelectSeq([k \in DOMAIN img |-> k], LAMBDA k : k % 2 = 1)
(* mostly images with their own label image *)
Own(n, z) == LET l == SomeList(n, Odds(z)) IN l
SomeEdit(t, z) ==
  LET d == t.d  k == R(1, 9) IN
  CASE k <= 2 -> <<"transpose">>
    [] k = 3 -> RandomElement({<<"reshape", d[3], d[2], d[4], d[1]>>, <<"reshape", d[2] * d[3], 1, d[4], d[1]>>, <<"reshape", d[2], d[3], d[1], d[4]>>, <<"reshape", 1, d[4], d[1], d[2] * d[3]>>, <<"reshape", d[2] + 1, d[3], d[4], d[1]>>})
    [] k \in {4, 9} /\ N(d) < 60 -> <<"patches", IF R(1, 2) = 1 THEN d[1] - 1 ELSE R(0, d[1] - 1), R(1, 5), R(1, 5)>>
    [] k = 5 -> <<"write">>
    [] k = 6 /\ EightBit(t) -> <<"bin">>
    [] OTHER -> <<"size">>
RECURSIVE SomeEdits(_, _)
SomeEdits(z, n) == IF n = 0 THEN <<>> ELSE LET c == TLCEval(SomeEdit(z.t, n)) IN <<c>> \o SomeEdits(Step(z, c), n - 1)
Phase(n) == Len(hist) >= n
SNext == UNCHANGED made /\
  \/ hist = <<>> /\ \E p \in {TLCEval(Dup(SomePal(RandomElement({1, 1, 2 + Len(hist), 3, 5}))))} : Palette(p) /\ Rec(<<"Palette">> \o Concat(p))
  \/ Phase(1) /\ ~Phase(7) /\ \E s \in {IF img # <<>> /\ (Len(img) % 2 = 1 \/ R(1, 2) = 1) /\ R(1, 5) > 1 THEN <<img[Len(img)].w, img[Len(img)].h>> ELSE Sizes[R(1, Len(Sizes))]}, ch \in {IF R(1, 3) = 1 THEN 1 ELSE 3} :
       \E p \in {TLCEval(IF Len(img) % 2 = 0 THEN RSeq(s[1] * s[2] * ch, 0, 255)
                         ELSE IF ch = 3 THEN LabelPix(s[1] * s[2]) ELSE GreyPix(s[1] * s[2]))} :
         NewImage(s[1], s[2], ch, p) /\ Rec(<<"Image", s[1], s[2], ch>> \o p)
  \/ Phase(7) /\ \E f \in {R(1, NF)}, direct \in {R(1, 4) = 1}, n \in {R(1, 4)} :
       \E il \in {TLCEval(Own(n, f))} : \E ll \in {TLCEval(IF R(1, 6) = 1 THEN SomeList(R(1, 4), Evens(f)) ELSE [k \in DOMAIN il |-> IF il[k] = 0 THEN 0 ELSE IF R(1, 6) = 1 THEN Evens(0)[R(1, Len(Evens(0)))] ELSE il[k] + 1])} :
         \E kind \in {"raw", "comp"} : Make(f, kind, il, ll, direct) /\ Rec(<<"Make", f, kind, IF direct THEN 1 ELSE 0, Len(il)>> \o il \o ll)
  \/ Phase(8) /\ \E f \in {R(1, NF)}, n \in {R(1, 4)} : \E ts \in {TLCEval(RTs(n))} : Put(f, ts) /\ Rec(<<"Put", f>> \o Flat(ts))
  \/ Phase(8) /\ \E f \in {f \in Files : file[f].k = "raw"}, g \in {R(1, NF)} : Compress(f, g) /\ Rec(<<"Compress", f, g>>)
  \/ Phase(8) /\ \E f \in {f \in Files : file[f].k # "comp"} : \E n \in {R(0, Len(file[f].ts) + 1)} : R(1, 2) = 1 /\ Keep(f, n) /\ Rec(<<"Keep", f, n>>)
  \/ Phase(8) /\ \E f \in {f \in Files : file[f].k = "raw" /\ Seen(file[f].ts) > 0} : \E n \in {RandomElement({k - 1 : k \in {k \in DOMAIN file[f].ts : N(file[f].ts[k].d) > 0}})} : \E cs \in {TLCEval(SomeEdits(Opened(f, n), R(1, 5)))} :
       Edit(f, n, cs) /\ Rec(<<"Edit", f, n, IF R(1, 6) = 1 THEN 0 ELSE 1>> \o Concat(cs))
SSpec == MInit /\ [][SNext]_mvars
SimExport == (Len(hist) = MaxLen) => PrintT("@@" \o ToJson(hist))
=============================================================================

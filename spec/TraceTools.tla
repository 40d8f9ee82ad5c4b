----------------------------- MODULE TraceTools -----------------------------
EXTENDS Tools, TraceBase
vars == <<pal, img, file, bin, l>>
(* what all files hold after the operation, and how many of their tensors (the same ones) the library's streams show *)
Hold == file' = E.file /\ \A f \in Files : file'[f].k # "none" => E.seen[f] = Seen(file'[f].ts)
Observed == Hold /\ E.rc = 0
TBegin == IsEvent("Begin") /\ pal' = <<>> /\ img' = <<>> /\ file' = [f \in Files |-> NoFile] /\ bin' = <<>>
TNext ==
  \/ TBegin
  \/ IsEvent("Palette") /\ Palette(E.p)
  \/ IsEvent("Image") /\ NewImage(E.w, E.h, E.ch, E.pix)
  \/ IsEvent("Put") /\ Put(E.f, E.ts) /\ Observed
  \/ IsEvent("Make") /\ Make(E.f, E.kind, E.il, E.ll, E.direct) /\ Observed
                     (* the same lists opened as a list stream *)
                     /\ (E.list # <<-1>> => E.list = file'[E.f].ts)
  \/ IsEvent("Compress") /\ Compress(E.f, E.g) /\ Observed
  \/ IsEvent("Keep") /\ Keep(E.f, E.n) /\ Hold /\ (file[E.f].k # "none" => E.rc = 0)
  \/ IsEvent("Edit") /\ Edit(E.f, E.n, E.cs) /\ Observed /\ E.bin = bin' /\ E.out = Steps(Opened(E.f, E.n), E.cs).out
TSpec == Init /\ l = 1 /\ [][TNext]_vars
=============================================================================

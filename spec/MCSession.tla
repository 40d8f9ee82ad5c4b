----------------------------- MODULE MCSession -----------------------------
EXTENDS Session, TLC, Json
CONSTANTS MaxOps, Files, Names, Epochs
VARIABLE hist
vars == <<progs, run, disk, logs, book, done, hist>>
P == <<[node |-> <<2, 2, 4, 4>>, nodes |-> 8, iters |-> 2, its |-> 3, hybrid |-> FALSE],
       [node |-> <<1, 1, 3, 3>>, nodes |-> 7, iters |-> 2, its |-> 4, hybrid |-> TRUE]>>
Init0 == progs = P /\ disk = <<>> /\ book = <<>> /\ done = TRUE /\ run = [log |-> Default] /\ logs = <<>> /\ hist = <<>>
H(x) == hist' = Append(hist, x)
Going == ~done
(* ---- exhaustive *)
MNext ==
  /\ Len(hist) < MaxOps
  /\ \/ done /\ \E g \in 1..2 : Start(g) /\ H(<<"start", g>>)
     \/ Going /\ \E n \in 0..2, a \in BOOLEAN : Train(n, a) /\ H(<<"train", n, IF a THEN 1 ELSE 0>>)
     \/ Going /\ Test /\ H(<<"test">>)
     \/ Going /\ \E f \in Files : Save(f) /\ H(<<"save", f>>)
     \/ Going /\ \E f \in Files, l \in {0, 2} : Load(f, l) /\ H(<<"load", f, l>>)
     \/ Going /\ Reset /\ H(<<"reset">>)
     \/ Going /\ \E e \in Epochs : SetEpoch(e) /\ H(<<"epoch", e>>)
     \/ Going /\ \E n \in Names : SetExperiment(n) /\ H(<<"exp", n>>)
     \/ Going /\ Quit /\ H(<<"quit">>)
MSpec == Init0 /\ [][MNext]_vars
Last == hist[Len(hist)]
LastRow == logs[run.log][Len(logs[run.log])]
(* a log has one row per epoch trained and test run since it was opened *)
RECURSIVE Owed(_, _)
Owed(i, n) == IF i = 0 THEN n ELSE LET h == hist[i] IN
  IF h[1] \in {"start", "exp"} THEN n ELSE Owed(i - 1, n + (CASE h[1] = "test" -> 1 [] h[1] = "train" -> IF h[3] = 1 THEN 1 ELSE h[2] [] OTHER -> 0))
Rows == hist # <<>> => Len(logs[run.log]) = Owed(Len(hist), 0)
(* the epoch of a running program is the number of epochs trained since it was set *)
RECURSIVE EpochOf(_, _)
EpochOf(i, n) == LET h == hist[i] IN
  CASE h[1] = "start" -> n [] h[1] = "epoch" -> h[2] + n [] h[1] = "train" -> EpochOf(i - 1, n + h[2]) [] OTHER -> EpochOf(i - 1, n)
EpochRight == hist # <<>> => run.epoch = EpochOf(Len(hist), 0)
(* what was saved last under a name is what loading it completely restores, and what a test then reports on *)
Restores == (Len(hist) > 1 /\ Last[1] = "test" /\ hist[Len(hist) - 1][1] = "load" /\ hist[Len(hist) - 1][3] = 0 /\ hist[Len(hist) - 1][2] \in DOMAIN disk)
  => LastRow.v = <<"test", disk[hist[Len(hist) - 1][2]]>>
(* epochs are told apart: no identity is listed twice, and the results of two trainings differ *)
Distinct == \A i, j \in DOMAIN book : i # j => book[i] # book[j]
Harmless == [][\A x \in {"test", "save", "exp"} : (hist' # hist /\ hist'[Len(hist')][1] = x) => run'.p = run.p /\ run'.epoch = run.epoch /\ run'.mem = run.mem /\ run'.drawn = run.drawn]_vars
Kept == [][(hist' # hist /\ hist'[Len(hist')][1] = "start") => disk' = disk]_vars
Advances == [][(hist' # hist /\ hist'[Len(hist')][1] = "train" /\ hist'[Len(hist')][2] > 0) => \A b \in DOMAIN run.p : run'.p[b] # run.p[b]]_vars
(* ---- simulation: scripts *)
Rnd(S) == RandomElement(S)
Sim ==
  \/ done /\ \E g \in {Rnd({h \in 1..2 : Len(hist) > 0 \/ TRUE})} : Start(g) /\ H(<<"start", g>>)
  \/ Going /\ \E n \in {Rnd({0, 1, 1, 1, 2, 3})}, a \in {Rnd({0, 0, 1})} : Train(n, a = 1) /\ H(<<"train", n, a>>)
  \/ Going /\ run.epoch < 4 /\ Train(1, FALSE) /\ H(<<"train", 1, 0>>)
  \/ Going /\ Test /\ H(<<"test">>)
  \/ Going /\ \E f \in {Rnd(Files)} : Save(f) /\ H(<<"save", f>>)
  \/ Going /\ \E f \in {Rnd(Files)}, l \in {Rnd({0, 0, 1, 2, 3, 4, 9})} : Load(f, l) /\ H(<<"load", f, l>>)
  \/ Going /\ run.inits < 4 /\ Reset /\ H(<<"reset">>)
  \/ Going /\ \E e \in {Rnd({run.epoch, 0, 1, 2, 7})} : SetEpoch(e) /\ H(<<"epoch", e>>)
  \/ Going /\ \E n \in {Rnd(Names)} : SetExperiment(n) /\ H(<<"exp", n>>)
  \/ Going /\ \E s \in {Rnd({0, 1})} : SetStats(s = 1) /\ H(<<"tstat", s>>)
  \/ Going /\ \E k \in {Rnd(1..12)} : Noop /\ H(<<"noop", k>>)
  \/ Going /\ Len(hist) % 7 = 6 /\ Quit /\ H(<<"quit">>)
SNext == Len(hist) < MaxOps /\ Sim
SSpec == Init0 /\ [][SNext]_vars
SimExport == Len(hist) = MaxOps => PrintT("@@" \o ToJson(hist))
=============================================================================

---------------------------- MODULE TraceSession ----------------------------
EXTENDS Session, TraceBase
VARIABLES known                                         \* observed values of terms: <<term, value>>
vars == <<progs, run, disk, logs, book, done, known, l>>
Same(t, v) == \A x \in known : x[1] = t => x[2] = v
T0 == IsEvent("Begin") /\ progs' = E.progs /\ run' = [g |-> 0] /\ disk' = <<>> /\ logs' = <<>> /\ book' = <<>> /\ done' = TRUE /\ known' = {}
T1 == IsEvent("Clean") /\ disk' = <<>> /\ logs' = <<>> /\ done' = TRUE /\ UNCHANGED <<progs, run, book, known>>
T2 == IsEvent("Start") /\ Start(E.g) /\ UNCHANGED known
Do(op) ==
  IF done THEN Noop                                     \* nothing is executed after quit
  ELSE CASE op[1] = "train" -> Train(op[2], op[3] = 1) [] op[1] = "test" -> Test [] op[1] = "save" -> Save(op[2]) [] op[1] = "load" -> Load(op[2], op[3])
         [] op[1] = "reset" -> Reset [] op[1] = "epoch" -> SetEpoch(op[2]) [] op[1] = "exp" -> SetExperiment(op[2]) [] op[1] = "tstat" -> SetStats(op[2] = 1)
         [] op[1] = "quit" -> Quit [] OTHER -> Noop
Terms(p, v) == {<<p[b], v[b]>> : b \in DOMAIN p}
Agree(S) == (\A x \in S, y \in known \cup S : x[1] = y[1] => x[2] = y[2]) /\ known' = known \cup S
(* weights (not biases, which start at zero) of different initializations differ; training changes some of the parameters *)
Fresh(S) == \A x \in S, y \in known \cup S : (x[1][1] = "init" /\ y[1][1] = "init" /\ x[1][2] = y[1][2] /\ x[1][4] = y[1][4] /\ x[1][3] # y[1][3] /\ x[1][4] % 2 = 1) => x[2] # y[2]
Changed(op, S) == (op[1] = "train" /\ op[2] > 0 /\ ~done) =>
  ((\A b \in DOMAIN run.p : \E y \in known : y[1] = run.p[b]) => \E b \in DOMAIN run.p : \E y \in known : y[1] = run.p[b] /\ y[2] # E.obs[b])
T3 == /\ IsEvent("Op") /\ Do(E.op)
      /\ IF E.obs = <<>> THEN UNCHANGED known
         ELSE IF done THEN E.obs = <<0 - 2>> /\ UNCHANGED known
         ELSE LET S == Terms(run'.p, E.obs) IN Len(E.obs) = Len(run'.p) /\ Agree(S) /\ Fresh(S) /\ Changed(E.op, S)
(* values of a test depend on the parameters only, whatever the program: measures of recognition; the loss: per program *)
RowValues(r, o) ==
  IF r.v[1] = "test" THEN {<<r.v, o.m>>, <<<<"loss", run.g, r.v[2]>>, o.a>>} ELSE {<<<<"measures", r.v>>, o.m>>, <<<<"loss", r.v>>, o.a>>}
(* a row of a training has measures of recognition if they are enabled (and some pixel counted), one of a test always *)
RowFits(r, o) == o.tr = r.tr /\ (r.ep = Any \/ o.ep = r.ep) /\ o.it = r.it
                 /\ CASE r.v[1] = "train" -> IF r.v[5] THEN (o.lossy => o.n > 0) ELSE o.n = 0 [] r.v[1] = "test" -> o.lossy => o.n > 0 [] OTHER -> TRUE
Logged == {x[1] : x \in {E.logs[i] : i \in DOMAIN E.logs}}
LogOf(n) == LET i == CHOOSE i \in DOMAIN E.logs : E.logs[i][1] = n IN E.logs[i][2]
Filed == {E.disk[i][1] : i \in DOMAIN E.disk}
FileOf(n) == LET i == CHOOSE i \in DOMAIN E.disk : E.disk[i][1] = n IN E.disk[i][2]
T4 == /\ IsEvent("Exit") /\ E.rc = 0
      /\ Logged = DOMAIN logs /\ Filed = DOMAIN disk
      /\ \A n \in DOMAIN logs : Len(LogOf(n)) = Len(logs[n]) /\ \A i \in DOMAIN logs[n] : RowFits(logs[n][i], LogOf(n)[i])
      /\ \A n \in DOMAIN disk : Len(FileOf(n)) = Len(disk[n])
      /\ E.graphs[1] \in {0, progs[run.g].nodes} /\ E.graphs[2] \in {0, progs[run.g].tnodes}
      /\ Agree(UNION {Terms(disk[n], FileOf(n)) : n \in DOMAIN disk} \cup UNION {UNION {RowValues(logs[n][i], LogOf(n)[i]) : i \in DOMAIN logs[n]} : n \in DOMAIN logs})
      /\ UNCHANGED sessionvars
TNext == T0 \/ T1 \/ T2 \/ T3 \/ T4
TSpec == progs = <<>> /\ run = <<>> /\ disk = <<>> /\ logs = <<>> /\ book = <<>> /\ done = TRUE /\ known = {} /\ l = 1 /\ [][TNext]_vars
=============================================================================

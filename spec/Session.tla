------------------------------ MODULE Session ------------------------------
(* The training program: started on a dataset, a network description and a script, it executes commands in order. Its state
   is the parameters, the epoch, the optimizer's memory, the generators of weights and samples, and the log it writes to.
   Parameters and reported values are terms, i.e. what they are computed from: equal terms stand for equal values.
     block of parameters: <<"init", program, k, b>>  the k-th initialization
                          <<"trained", c, j, b>>     after the j-th epoch of the training identified by number c
   A training is identified by all it may depend on; `book` numbers these identities. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Default                                        \* name of the log before one is chosen
VARIABLES progs, run, disk, logs, book, done
(* progs: configurations of the same network and dataset: node[b] the node a block belongs to, nodes the number of nodes, iters
   iterations of an epoch, its iterations of a test, hybrid whether it is tested by a graph of its own
   run: the running program; disk: parameter files; logs: written logs; done: whether the script is over *)
sessionvars == <<progs, run, disk, logs, book, done>>
Blocks(g) == DOMAIN progs[g].node
Num(k) == IF \E i \in DOMAIN book : book[i] = k THEN CHOOSE i \in DOMAIN book : book[i] = k ELSE Len(book) + 1
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Any == 0 - 1

Start(g) ==                                             \* a new process; files remain
  /\ run' = [g |-> g, p |-> [b \in Blocks(g) |-> <<"init", g, 1, b>>], mem |-> <<>>, drawn |-> 0, epoch |-> 0, inits |-> 1,
             stats |-> TRUE, log |-> Default, said |-> 0]
  /\ logs' = Put(logs, Default, <<>>) /\ done' = FALSE /\ UNCHANGED <<progs, disk, book>>
Row(tr, ep, it, v) == [tr |-> tr, ep |-> ep, it |-> it, v |-> v]
Report(rows) == logs' = [logs EXCEPT ![run.log] = @ \o rows]
(* n epochs; one row for each, or one for all *)
Identity == [g |-> run.g, p |-> run.p, mem |-> run.mem, drawn |-> run.drawn, epoch |-> run.epoch]
Train(n, acc) ==
  LET c == Num(Identity) it == progs[run.g].iters
      last == IF n = 0 THEN Any ELSE run.epoch + n - 1
  IN /\ book' = IF c > Len(book) /\ n > 0 THEN Append(book, Identity) ELSE book
     /\ run' = IF n = 0 THEN run
               ELSE [run EXCEPT !.p = [b \in DOMAIN run.p |-> <<"trained", c, n, b>>], !.mem = Append(@, <<c, n>>), !.drawn = @ + n, !.epoch = @ + n, !.said = last]
     /\ Report(IF acc THEN <<Row(TRUE, last, n * it, IF n = 0 THEN <<"none", run.g>> ELSE <<"train", c, 1, n, run.stats>>)>>
               ELSE [j \in 1..n |-> Row(TRUE, run.epoch + j - 1, it, <<"train", c, j, j, run.stats>>)])
     /\ UNCHANGED <<progs, disk, done>>
Test ==                                                 \* reports; changes nothing
  /\ Report(<<Row(FALSE, run.said, progs[run.g].its, <<"test", run.p>>)>>) /\ UNCHANGED <<progs, run, disk, book, done>>
Save(f) == disk' = Put(disk, f, run.p) /\ UNCHANGED <<progs, run, logs, book, done>>
(* layers up to node l (0: all) *)
Loaded(f, l) == [b \in DOMAIN run.p |-> IF l = 0 \/ l >= progs[run.g].nodes \/ progs[run.g].node[b] <= l THEN disk[f][b] ELSE run.p[b]]
Load(f, l) ==
  /\ run' = IF f \in DOMAIN disk THEN [run EXCEPT !.p = Loaded(f, l)] ELSE run
  /\ UNCHANGED <<progs, disk, logs, book, done>>
Reset ==                                                \* new weights, no memory; the epoch remains
  /\ run' = [run EXCEPT !.inits = @ + 1, !.mem = <<>>, !.p = [b \in DOMAIN @ |-> <<"init", run.g, run.inits + 1, b>>]]
  /\ UNCHANGED <<progs, disk, logs, book, done>>
SetEpoch(e) == run' = [run EXCEPT !.epoch = e, !.mem = <<>>, !.said = Any] /\ UNCHANGED <<progs, disk, logs, book, done>>
SetExperiment(n) == run' = [run EXCEPT !.log = n] /\ logs' = Put(logs, n, <<>>) /\ UNCHANGED <<progs, disk, book, done>>
SetStats(on) == run' = [run EXCEPT !.stats = on] /\ UNCHANGED <<progs, disk, logs, book, done>>
(* commands which change nothing: unknown ones, help, those that write or print the network, and those that cannot be executed *)
Noop == UNCHANGED sessionvars
Quit == done' = TRUE /\ UNCHANGED <<progs, run, disk, logs, book>>
=============================================================================

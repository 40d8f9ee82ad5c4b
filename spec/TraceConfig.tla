---------------------------- MODULE TraceConfig ----------------------------
EXTENDS Config, TraceBase
FileNames == <<"p1.Tensor", "p2.Tensor", "p3 x.Tensor", "sub/p4.Tensor", "p5=5.Tensor">>
Pairs(path) == IF path = <<>> THEN 0 ELSE LET k == SelectInSeq(FileNames, LAMBDA f : Codes(f) = path) IN IF k = 0 THEN -1 ELSE k      \* -1: no such file
T0 == IsEvent("Begin")
T1 == IsEvent("Settings") /\ E.v = Settings(E.text) /\ E.rest
T2 == /\ IsEvent("Dataset")
      /\ LET d == Dataset(E.text)
             tr == IF E.dont \/ E.sel = 2 THEN 0 ELSE Pairs(d.training)
             te == IF E.dont \/ E.sel = 1 THEN 0 ELSE Pairs(d.testing)
         IN /\ E.ok = (Described(E.text) /\ tr >= 0 /\ te >= 0)
            /\ E.ok => /\ E.classes = d.classes /\ E.names = d.names /\ E.colors = d.colors /\ E.weights = d.weights
                       /\ d.error \in ToSet(E.errors) /\ E.training = tr /\ E.testing = te
TNext == T0 \/ T1 \/ T2
TSpec == l = 1 /\ [][TNext]_l
=============================================================================

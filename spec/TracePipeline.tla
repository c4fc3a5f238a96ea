---------------------------- MODULE TracePipeline ----------------------------
EXTENDS Pipeline, TraceLib
VARIABLES l, s
(* s: the set of specification states that explain the events of the run so far; "x" after a violation *)
Diagnose(z, e) ==
  \* the stage of e is not due for any data at all, or it is due but got something else
  IF \A c \in z : Succ(c, e) = {} /\ \A d \in DOMAIN c.ds : c.ds[d].st # e.c THEN "stage-order-or-input" ELSE "stage-input"
Zeros(n) == [i \in 1..n |-> 0]
StatOf(c, t, st) == [k \in 1..Cardinality(Members(c, t)) |-> c.stat[(IF t = "train" THEN 0 ELSE c.nt) + k][st]]
PerSet == <<"handle", "impute", "sm", "w1", "f1", "expand", "w2", "f2">>
GroupStats == <<"fit", "remove", "w3", "f3">>
StatsOk(c, e) ==
  /\ \A i \in DOMAIN PerSet : e.train[PerSet[i]] = StatOf(c, "train", PerSet[i])
  /\ \A i \in DOMAIN GroupStats : e.train[GroupStats[i]] = c.gstat["train"][GroupStats[i]]
  /\ e.train.inj = c.gstat["train"].inj /\ e.train.extend = c.gstat["train"].extend /\ e.train.check = c.gstat["train"].check
  /\ IF c.en.test
     THEN /\ \A i \in DOMAIN PerSet : e.test[PerSet[i]] = StatOf(c, "test", PerSet[i])
          /\ \A st \in {"remove", "w3", "f3"} : e.test[st] = c.gstat["test"][st]
     ELSE \A i \in DOMAIN PerSet : e.test[PerSet[i]] = <<>>
Bad(z, e) ==
  IF e.c = "run" THEN {}
  ELSE IF e.c = "end" THEN
    IF e.out = "err:RuntimeError" THEN Clause("refused-without-need", \E c \in z : EmptyTraining(c) /\ c.fin = "no")
    ELSE Clause("result", e.out = "ok")
         \cup (IF e.out # "ok" THEN {} ELSE
               Clause("every-enabled-stage-ran", \E c \in z : Finished(c))
               \cup Clause("diagram-of-extension", \E c \in z : e.pd = c.gstat["train"].extend)
               \* microseconds, by a different clock than that of the pipeline
               \cup Clause("execution-time", e.took > 0 /\ e.took >= e.span - 2000 - e.span \div 10
                                              /\ e.took <= e.wall + 2000 + e.wall \div 10)
               \cup Clause("statistics", \E c \in z : StatsOk(c, e)))
  ELSE IF \A c \in z : Succ(c, e) = {} THEN {Diagnose(z, e)} ELSE {}
Init == l = 1 /\ s = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.c = "run" THEN s' = {Start(e.en, e.nt, e.ne)}
           ELSE IF s = {} THEN s' = s
           ELSE /\ Report(l, Bad(s, e))
                /\ s' = IF e.c = "end" THEN {} ELSE UNION { Succ(c, e) : c \in s }
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================

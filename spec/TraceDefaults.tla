----------------------------- MODULE TraceDefaults -----------------------------
(* one event per unit and input: the runs with the configurations tried          *)
EXTENDS Defaults, TraceLib
VARIABLES l
Bad(e) == Clause("documented-unit", <<e.unit, e.names>> \in Units)
          \cup Clause("defaults", SameInEffect(e.runs))
          \cup Clause("answers", \A i \in DOMAIN e.runs : e.runs[i].c = [k \in DOMAIN e.names |-> "omitted"] => e.runs[i].got[1] # -1)
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Bad(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
===============================================================================

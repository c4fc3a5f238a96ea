--------------------------- MODULE TraceModelFun ---------------------------
EXTENDS ModelFun, TraceLib
VARIABLES l
Bad(e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE IF e.op = "refuse" THEN Clause("refused", e.out # "ok")
  ELSE Clause("evaluated", e.out = "ok")
       \cup Clause("inputs-unchanged", ~e.changed)
       \cup Clause("same-shape", e.out = "ok" => e.shape)
       \cup Clause("documented-formula", e.out = "ok" => \A i \in DOMAIN e.v : Abs(e.v[i] - Val(e.f, e.x[i], e.y[i], e.p)) <= Tol(e.f, e.x[i], e.y[i]))
Init == l = 1
Next == /\ l <= Len(Trace) /\ Report(l, Bad(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

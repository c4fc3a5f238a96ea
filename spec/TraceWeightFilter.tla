-------------------------- MODULE TraceWeightFilter --------------------------
EXTENDS WeightFilter, TraceLib
VARIABLES l
Valid(e) == IF e.op = "bound" THEN e.lo <= e.hi ELSE 0 <= e.p /\ e.p <= 1000
Want(e) == IF e.op = "bound" THEN Bound(e.w, e.lo, e.hi) ELSE Quantile(e.w, e.p)
Count(r, x) == Cardinality({ i \in DOMAIN r : r[i] = x })
Bad(e) ==
  IF ~Valid(e) THEN Clause("invalid-configuration-is-refused", e.out = "err:ValueError")
  ELSE IF e.out # "ok" THEN {"filters"}
  ELSE Clause("decisions", e.res = Want(e))
       \cup Clause("input-kept", e.after = e.w)
       \cup Clause("statistics", e.w = <<>> \/ e.stat = <<Count(Want(e), FALSE), Count(Want(e), TRUE)>>)
Init == l = 1
Next == /\ l <= Len(Trace) /\ Report(l, Bad(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

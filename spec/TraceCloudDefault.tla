-------------------------- MODULE TraceCloudDefault --------------------------
(* the default evaluation of a cloud: stored at its points, otherwise a mean   *)
EXTENDS Cloud, TraceLib
VARIABLES l
Bad(e) == LET h == HitsC(e.pts, e.ws, e.wa) IN
  IF e.out # "ok" THEN {"default-call"}
  ELSE IF h # {} THEN Clause("default-at-a-point", \E i \in h : e.v = 1024 * e.pts[i][3])
  ELSE Clause("default-in-range", 1024 * MinOf(ColC(e.pts, 3)) - 2 <= e.v /\ e.v <= 1024 * MaxOf(ColC(e.pts, 3)) + 2)
Init == l = 1
Next == /\ l <= Len(Trace) /\ Report(l, Bad(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

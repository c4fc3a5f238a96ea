----------------------------- MODULE TraceImpute -----------------------------
EXTENDS Impute, TraceLib
VARIABLES l
SC == 1024
Want(e) == IF e.op = "remove" THEN RemoveOnly(e.tab) ELSE Local(e.tab, e.max, e.mode)
(* o / SC is r[1] / r[2], without leaving 32 bits *)
ValOk(o, r) == LET q == r[1] \div r[2] m == r[1] % r[2] x == o - q * SC IN
  Abs(x) <= 2 * SC /\ Abs(x * r[2] - m * SC) <= r[2]
Bad(e) ==
  IF e.op = "local" /\ (NotNone(e.tab.dt) = {}) THEN Clause("no-datetime-is-refused", e.out \notin {"ok", "hang"})
  ELSE IF e.out # "ok" THEN {"imputes"}
  ELSE LET r == Want(e) IN
    Clause("columns", e.names = r.names)
    \cup Clause("rows", e.dt = r.dt)
    \cup (IF e.names # r.names \/ Len(e.dt) # Len(r.dt) THEN {}
          ELSE Clause("nothing-missing", \A c \in DOMAIN e.vals : \A k \in DOMAIN e.vals[c] : e.vals[c][k] # N)
               \cup Clause("values", \A c \in DOMAIN r.vals : Len(e.vals[c]) = Len(r.vals[c])
                                        /\ \A k \in DOMAIN r.vals[c] : ValOk(e.vals[c][k], r.vals[c][k])))
    \cup Clause("removed-columns", e.stat[1] = r.stat.cols)
    \cup Clause("removed-rows", e.stat[2] = r.stat.rows)
    \cup Clause("filled-fields", e.stat[3] = r.stat.filled)
    \cup Clause("size-statistics", e.stat[4] = Len(r.dt) /\ e.stat[5] = Len(r.names) + 1)
Init == l = 1
Next == /\ l <= Len(Trace) /\ Report(l, Bad(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

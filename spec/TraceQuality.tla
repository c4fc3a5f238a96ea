---------------------------- MODULE TraceQuality ----------------------------
(* metrics in fixed point: errors e.sc per quarter; -99999999 = not a number   *)
EXTENDS Quality, TraceLib
VARIABLES l
NaNum == -99999999
About(v, sc, n, d) == Abs(v * d - n * sc) <= d
Bad(e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE Clause("test-data-unchanged", ~e.changed)
  \cup Clause("checked", e.out = "ok")
  \cup (IF e.out # "ok" THEN {} ELSE
     LET T == e.T n == Len(T) r == Residuals(e.d, T) z == Ahead(e.d) IN
     Clause("order-independent", e.shuffled)
     \cup (IF n = 0 THEN Clause("nothing-from-nothing", \A k \in {"mx", "mn", "av", "sq"} : e[k] = NaNum)
        ELSE Clause("max-error", e.mx = Hi(r) * e.sc)
        \cup Clause("min-error", e.mn = Lo(r) * e.sc)
        \cup Clause("average-error", About(e.av, e.sc, QSum(r), n))
        \cup Clause("average-quadratic-error", About(e.sq, e.sc, QSum(Sqr(r)), n)))
     \cup (IF e.kind = "minimal" THEN {} ELSE
        Clause("covering", e.cover = Cardinality(Cells(T)))
        \cup Clause("local-difference", IF n = 0 THEN e.local = NaNum ELSE About(e.local, e.sc, SpreadSum(T, Cells(T)), Cardinality(Cells(T))))
        \cup Clause("max-zero-val", About(e.zmx, e.sc, Hi(z), 19))
        \cup Clause("min-zero-val", About(e.zmn, e.sc, Lo(z), 19))
        \cup Clause("average-zero-val", About(e.zav, e.sc, QSum(z), 760))
        \cup Clause("average-quadratic-zero-val", About(e.zsq, 1, QSum([j \in DOMAIN z |-> (z[j] * z[j]) \div 361]), 40) \/ Abs(e.zsq * 40 - QSum([j \in DOMAIN z |-> (z[j] * z[j]) \div 361])) <= 80)))
Init == l = 1
Next == /\ l <= Len(Trace) /\ Report(l, Bad(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

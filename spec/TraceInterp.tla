----------------------------- MODULE TraceInterp -----------------------------
(* Events: one query each.  v is the value returned in fixed point (e.sc per
   unit), reps the values for permuted data / rescaled weights / repeated calls. *)
EXTENDS Interp, TraceLib
VARIABLES l
Near(v, sc, n, d, slack) == Abs(v * d - n * sc) <= d * slack
InRange(v, sc, data, slack) == v >= ZLo(data) * sc - slack /\ v <= ZHi(data) * sc + slack
AllSame(e) == \A i \in DOMAIN e.reps : Abs(e.reps[i] - e.v) <= 1
Bad(e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE Clause("data-unchanged", ~e.changed) \cup
  CASE e.op = "grid" ->
         IF e.cols # 3 \/ ~Inside(e.data, e.g) \/ ~CellComplete(e.data, e.g)
         THEN Clause("outside-or-no-grid-refused", e.out # "ok")
         ELSE Clause("value-returned", e.out = "ok")
              \cup Clause("bilinear", e.out = "ok" => Near(e.v, e.sc, GridNum(e.data, e.g), GridDen(e.data, e.g), 1))
              \cup Clause("order-independent", e.out = "ok" => AllSame(e))
    [] e.op = "empty" -> Clause("no-data-refused", e.out # "ok")
    [] e.op = "near" -> \* a query next to data point e.i and far from all others
         Clause("finite-value", e.out = "ok" /\ e.v # -99999999)
         \cup Clause("continuous-at-data", e.out = "ok" => Abs(e.v - e.data[e.i][3] * e.sc) <= 1)
    [] OTHER ->
         LET hits == Hits(e.data, e.g) IN
         Clause("finite-value", e.out = "ok" /\ e.v # -99999999)
         \cup (IF e.out # "ok" \/ e.v = -99999999 THEN {} ELSE
           Clause("exact-hit", hits # {} => \E i \in hits : e.v = e.data[i][3] * e.sc)
           \cup Clause("within-range", ~e.over /\ e.s = 1 => InRange(e.v, e.sc, e.data, 1))
           \cup Clause("order-independent", Cardinality(hits) <= 1 => AllSame(e))
           \cup Clause("shepard-formula", hits = {} /\ e.over /\ e.formula =>
                    LET m == Shepard(e.norm, e.data, e.nb, e.slope, e.g) IN Abs(e.v * 100 - m * e.sc) <= e.sc * (4 + (ZHi(e.data) - ZLo(e.data)) \div 2))
           \cup Clause("bounded-overshoot", e.over /\ e.bounded => InRange(e.v, e.sc, e.data, 1 + (e.sc * e.slope * (ZHi(e.data) - ZLo(e.data))) \div 10))
           \cup Clause("formula", hits = {} /\ e.formula /\ ~e.over =>
                  Near(e.v, e.sc, e.s * Num(e.kind, e.p, e.norm, e.data, e.ws, e.g), Den(e.kind, e.p, e.norm, e.data, e.ws, e.g), IF e.kind = "improved" THEN 12 ELSE IF e.kind = "gauss" THEN 2 ELSE 1)))
Init == l = 1
Next == /\ l <= Len(Trace) /\ Report(l, Bad(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

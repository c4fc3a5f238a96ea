----------------------------- MODULE TraceWeigh -----------------------------
EXTENDS Weigh, TraceLib
VARIABLES l
Col(e, k) == (CHOOSE c \in { e.cols[i] : i \in DOMAIN e.cols } : c.k = k)
Named(e, ks) == [i \in DOMAIN ks |-> Col(e, ks[i])]
Scales(ks) == [i \in DOMAIN ks |-> Scale(ks[i])]
But(q, x) == SelectSeq(q, LAMBDA y : y # x)
Front(q) == SubSeq(q, 1, Len(q) - 1)
(* dims: the attributes that span the space, in order; arrays without attributes are (TWS, TWA, speed) *)
N(e) == Len(e.cols[1].v)
ScOf(e, ks) == IF e.anon THEN <<18, 1>> ELSE Scales(ks)
Values(e) ==
  CASE e.op = "one" -> Clause("weights", e.w = [i \in 1..N(e) |-> 1000])
    [] e.op = "member" -> LET ks == Front(e.dims) m == MemberWeights(Named(e, ks), Col(e, e.dims[Len(e.dims)]), ScOf(e, ks), e.norm, e.r, e.h) IN
          Clause("weights", \A i \in 1..N(e) : Abs(e.w[i] * m[i][2] - 1000 * m[i][1]) <= m[i][2])
    [] e.op = "mean" -> LET sp == IF e.anon THEN e.dims[Len(e.dims)] ELSE IF "BSP" \in Range(e.dims) THEN "BSP" ELSE "SOG"
                            ks == But(e.dims, sp) IN
          LET d == MeanDevs(Named(e, ks), Col(e, sp).v, ScOf(e, ks), e.norm, e.r) IN
          Clause("weights", \A i \in 1..N(e) : MeanOk(d, i, e.w[i]))
    [] e.op = "fluct" -> LET cs == [c \in DOMAIN e.dims |-> [v |-> Col(e, e.dims[c]).v, ub |-> e.ubs[c]]] IN
          Clause("weights", \A i \in 1..N(e) : Abs(e.w[i] - Fluctuation(cs, e.t, e.tb, e.ta, i)) <= 15)
    [] e.op = "arith" -> Clause("weights", \A i \in 1..N(e) : LET v == EvalAt(e.ex, i) IN v # BIG => Abs(e.w[i] * v[2] - 1000 * v[1]) <= v[2])
(* the average weight and the share (in hundredths of a percent) of weights in every tenth of their span;
   weights within a rounding of the border of a tenth may count on either side *)
InTenth(e, i, m) == LET a == MinOf(Range(e.w)) sp == MaxOf(Range(e.w)) - a IN
  Cardinality({ j \in DOMAIN e.w : 10 * a + sp * (i - 1) - 10 * m <= 10 * e.w[j] /\ 10 * e.w[j] <= 10 * a + sp * i + 10 * m })
Tenths(e) == \A i \in 1..10 : LET n == Len(e.w) IN
  \E k \in InTenth(e, i, -2)..InTenth(e, i, 2) : Abs(e.tenths[i] * n - 10000 * k) <= n
Bad(e) ==
  IF e.out # "ok" THEN {"weighs"}
  ELSE Clause("one-weight-per-point", Len(e.w) = N(e))
       \cup Clause("points-kept", e.kept)
       \cup (IF Len(e.w) # N(e) \/ N(e) = 0 THEN {}
             ELSE Values(e)
                  \cup Clause("unit-range", e.op = "arith" \/ \A i \in DOMAIN e.w : 0 <= e.w[i] /\ e.w[i] <= 1000)
                  \cup Clause("statistics", (e.op # "one" /\ \A i \in DOMAIN e.w : Abs(e.w[i]) < 90000000) => e.stat = <<MinOf(Range(e.w)), MaxOf(Range(e.w))>>)
                  \cup Clause("average", (e.op # "one" /\ \A i \in DOMAIN e.w : Abs(e.w[i]) < 90000000) => Abs(Len(e.w) * e.avg - SumSeq(e.w)) <= Len(e.w))
                  \cup Clause("tenths", (e.op # "one" /\ \A i \in DOMAIN e.w : Abs(e.w[i]) < 90000000) => Len(e.tenths) = 10 /\ Tenths(e)))
Init == l = 1
Next == /\ l <= Len(Trace) /\ Report(l, Bad(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

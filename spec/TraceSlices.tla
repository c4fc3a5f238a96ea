----------------------------- MODULE TraceSlices -----------------------------
EXTENDS Slices, TraceLib
VARIABLES l
Near(a, b) == SAbs(a - b) <= 1
Rows(o, want) == Len(o) = Len(want) /\ \A i \in DOMAIN want : Len(o[i]) = 3 /\ Near(o[i][1], want[i][1]) /\ Near(o[i][2], want[i][2]) /\ SAbs(o[i][3] - want[i][3]) <= 8
Offs(e) == IF e.ws # <<>> /\ e.n = 0 THEN {0} ELSE {0, 1, -1}
Slow(e) == Speeds(e.d, e.ws, e.n)
Bad(e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE CASE e.op = "slices" ->
         LET W == Slow(e) IN
         IF e.invalid # "" THEN Clause("invalid-request-refused", e.out = e.invalid)
         ELSE IF \E i \in DOMAIN W : Refused(e.d, W[i], e.o) THEN Clause("impossible-wind-refused", e.out = "err:ValueError")
         ELSE IF e.out # "ok" THEN {"answers"}
         ELSE Clause("wind-speeds", Len(e.labels) = Len(W) /\ \A i \in DOMAIN W : Near(e.labels[i], W[i]))
         \cup Clause("one-slice-per-wind-speed", Len(e.slices) = Len(W))
         \cup Clause("slice", Len(e.slices) = Len(W) => \A i \in DOMAIN W : \E k \in Offs(e) : Rows(e.slices[i], Slice(e.d, W[i], [e.o EXCEPT !.off = k])))
         \cup Clause("info", e.full => IF e.d.kind = "multi" THEN Len(e.info) = Len(W) /\ \A i \in DOMAIN W : \E k \in Offs(e) : e.info[i] = Labels(e.d, W[i], [e.o EXCEPT !.off = k]) ELSE e.info = <<"none">>)
         \cup Clause("diagram-unchanged", ~e.changed)
       [] e.op = "points" ->
         IF e.out # "ok" THEN {"answers"}
         ELSE Clause("points", Rows(e.pts, [i \in DOMAIN e.wind |-> <<e.wind[i][1], e.wind[i][2], At(e.d, e.wind[i][1], e.wind[i][2])>>]))
         \cup Clause("diagram-unchanged", ~e.changed)
       [] e.op = "combos" ->
         IF e.out # "ok" THEN {"answers"}
         ELSE LET w == Combos(e.W, e.A) IN Clause("points", Rows(e.pts, [i \in DOMAIN w |-> <<w[i][1], w[i][2], At(e.d, w[i][1], w[i][2])>>]))
         \cup Clause("diagram-unchanged", ~e.changed)
       [] OTHER -> \* default points; those of curves sampled at the places e.at
         IF e.out # "ok" THEN {"answers"}
         ELSE LET w == Stored(e.d) IN
              Clause("points", IF e.d.kind = "curve" THEN e.len = Len(w) /\ \A i \in DOMAIN e.at : LET p == w[e.at[i]] o == e.pts[i] IN Near(o[1], p[1]) /\ Near(o[2], p[2]) /\ SAbs(o[3] - Curve(e.d, o[1], o[2])) <= 4 * (e.d.a + e.d.b)
                               ELSE Rows(e.pts, w))
         \cup Clause("diagram-unchanged", ~e.changed)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Bad(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================

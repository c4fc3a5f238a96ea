--------------------------- MODULE TraceInfluence ---------------------------
EXTENDS Influence, WindTriangle, TraceLib
VARIABLES l, s
S0 == [kind |-> "none", shift |-> 0]
Tol == 2
SameRows(got, want) == Len(got) = Len(want) /\ \A i \in DOMAIN want : got[i][1] = want[i][1] /\ (got[i][2] = want[i][2] \/ Circular(got[i][2], want[i][2]) <= Tol) /\ got[i][3] = want[i][3]
SameWind(got, want) == Len(got) = Len(want) /\ \A i \in DOMAIN want : got[i][1] = want[i][1] /\ Circular(got[i][2], want[i][2]) <= Tol
(* a vector <<u, v, b>> seen from a heading turned by quarter turns *)
Turn(r, k) == CASE k = 0 -> r [] k = 1 -> <<r[2], -r[1], r[3]>> [] k = 2 -> <<-r[1], -r[2], r[3]>> [] OTHER -> <<-r[2], r[1], r[3]>>
Bad(m, e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE CASE e.op = "make" -> Clause("made", e.out = "ok")
         [] e.op = "remove" ->
              Clause("data-unchanged", ~e.changed)
              \cup Clause("removed", e.out = "ok")
              \cup Clause("one-row-per-data-row", e.out = "ok" => e.shape = <<Len(e.rows), 3>>)
              \cup Clause("removal", e.out = "ok" => SameRows(e.got, Remove(m, e.rows)))
              \cup Clause("normalised", e.out = "ok" /\ Shifts(m) => \A i \in DOMAIN e.got : e.got[i][2] >= 0 /\ e.got[i][2] <= Full)
         [] e.op = "removeApparent" -> \* rows and results as wind vectors
              Clause("data-unchanged", ~e.changed)
              \cup Clause("removed", e.out = "ok")
              \cup Clause("apparent-to-true", e.out = "ok" => e.got = [i \in DOMAIN e.rows |-> Turn(ConvRow(e.rows[i], "true"), Norm(m.shift) \div 90000)])
         [] e.op = "noWind" -> Clause("missing-wind-refused", e.out # "ok")
         [] e.op = "add" ->
              Clause("data-unchanged", ~e.changed)
              \cup Clause("added", e.out = "ok")
              \cup Clause("same-shape", e.out = "ok" => e.single = (e.form = "value"))
              \cup Clause("addition", e.out = "ok" => SameWind(e.got, Add(m, e.rows)))
         [] e.op = "fitDensity" -> \* scattered angles at one wind speed
              Clause("data-unchanged", ~e.changed)
              \cup Clause("fitted", e.out = "ok")
              \cup Clause("lowest-density", e.out = "ok" => Lowest(e.angles, e.shift, e.interval))
              \cup Clause("reported", e.out = "ok" => e.stat = e.shift)
         [] OTHER -> \* fit
              Clause("data-unchanged", ~e.changed)
              \cup Clause("fitted", e.out = "ok")
              \cup Clause("gap-middle", e.out = "ok" /\ Shifts(m) => Circular(e.shift, GapMiddle(Range(e.angles))) <= 1100)
              \cup Clause("reported", e.out = "ok" /\ Shifts(m) => e.stat = e.shift)
Step(m, e) == CASE e.op = "make" -> [kind |-> e.kind, shift |-> e.shift]
                [] e.op \in {"fit", "fitDensity"} /\ Shifts(m) /\ e.out = "ok" -> [m EXCEPT !.shift = e.shift]
                [] OTHER -> m
Init == l = 1 /\ s = S0
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] p == IF e.new THEN S0 ELSE s IN Report(l, Bad(p, e)) /\ s' = Step(p, e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================

------------------------- MODULE TraceWindTriangle -------------------------
(* state: the rows as last observed; each event converts them once more.  The
   observation gives the resulting vectors in 1/SC of the unit.                *)
EXTENDS WindTriangle, TraceLib
VARIABLES l, s
SC == 256
S0 == <<>>
Close(a, b, t) == Abs(a - b) <= t
Bad(st, e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE Clause("caller-data-kept", e.same)
   \cup (IF ~e.valid THEN Clause("invalid-refused", e.out # "ok")
     ELSE IF e.out # "ok" THEN {"converts"}
     ELSE LET from == IF e.new THEN e.rows ELSE st want == ConvRows(from, e.dir) IN
       IF Len(e.res) # Len(from) THEN {"one-row-per-row"}
       ELSE IF Has(e, "floats") THEN
        Clause("wind-triangle", \A i \in DOMAIN want : \A k \in 1..3 : Close(e.res[i][k], want[i][k], 6))
        \cup Clause("angle-in-range", \A i \in DOMAIN want : e.ang[i] \in 0..359999)
        \cup Clause("speed-not-negative", \A i \in DOMAIN want : e.res[i][4] >= 0)
       ELSE Clause("wind-triangle", \A i \in DOMAIN want : Close(e.res[i][1], SC * want[i][1], 1) /\ Close(e.res[i][2], SC * want[i][2], 1))
        \cup Clause("boat-speed-kept", \A i \in DOMAIN want : e.res[i][3] = want[i][3])
        \cup Clause("angle-in-range", \A i \in DOMAIN want : e.ang[i] \in 0..359999)
        \cup Clause("speed-not-negative", \A i \in DOMAIN want : e.res[i][4] >= 0))
Step(st, e) == IF ~e.valid \/ e.out # "ok" THEN st ELSE ConvRows(IF e.new THEN e.rows ELSE st, e.dir)
Init == l = 1 /\ s = S0
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] p == IF e.new THEN S0 ELSE s IN Report(l, Bad(p, e)) /\ s' = Step(p, e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================

---------------------------- MODULE TraceSymmetry ----------------------------
(* Every event of a history carries both diagrams as observed afterwards: x the
   original, y the symmetrised one (equal to x before "sym").                  *)
EXTENDS Symmetry, TraceLib
VARIABLES l, s
S0 == [x |-> <<>>, y |-> <<>>]
Ed(d, e) == [d EXCEPT ![e.part] = EditPart(d[e.part], e.e)]
Bad(st, e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE CASE e.op = "make" -> Clause("made", e.out = "ok" /\ SameD(e.x, e.d))
         [] e.op = "sym" ->
              Clause("symmetrised", e.out = "ok") \cup Clause("original-unchanged", e.x = st.x)
              \cup Clause("mirror-images", e.out = "ok" => SameD(e.y, SymD(st.x)))
              \cup Clause("new-instance", e.new2)
              \cup Clause("names-kept", e.names = e.names0)
              \cup Clause("mirrored-reads", \A i \in DOMAIN e.r1 : e.r1[i] = e.r2[i])
         [] e.op = "edit" -> Clause("edited", e.out = "ok")
              \cup Clause("original-independent", e.who = "y" => e.x = st.x)
              \cup Clause("symmetrised-independent", e.who = "x" => e.y = st.y)
              \cup Clause("edit", e.out = "ok" => IF e.who = "x" THEN SameD(e.x, Ed(st.x, e)) ELSE SameD(e.y, Ed(st.y, e)))
         [] e.op = "fine" ->
              LET n == Len(e.x) IN
              Clause("symmetrised", e.out = "ok")
              \cup Clause("mirror-images", e.out = "ok" => e.y = e.x \o [i \in 1..n |-> <<e.turn - e.x[n + 1 - i][1], e.x[n + 1 - i][2]>>])
         [] OTHER -> \* "curve": doubled values of the symmetrised curve at a and its mirror, and the curve's
              Clause("symmetrised", e.out = "ok")
              \cup Clause("mean-of-both-sides", e.out = "ok" => Abs(e.s1 - (e.v1 + e.v2)) <= 2)
              \cup Clause("mirror-images", e.out = "ok" => Abs(e.s1 - e.s2) <= 2)
Step(st, e) == IF e.op \in {"curve", "fine"} THEN st ELSE [x |-> e.x, y |-> e.y]
Init == l = 1 /\ s = S0
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] p == IF e.new THEN S0 ELSE s IN Report(l, Bad(p, e)) /\ s' = Step(p, e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================

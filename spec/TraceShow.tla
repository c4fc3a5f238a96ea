------------------------------ MODULE TraceShow ------------------------------
(* make / entry / point / part: the diagram and every edit of it with the lines
   printed afterwards; direction, data, fuzzy: single printed objects.         *)
EXTENDS Show, TraceLib
VARIABLES l, s
S0 == [kind |-> "none"]
Single == {"direction", "data", "fuzzy"}
Post(st, e) == IF e.op = "make" THEN e.d ELSE EditD(st, e.o)
Bad(st, e) ==
  Clause("printed-at-all", e.out = "ok") \cup
  (IF e.out # "ok" THEN {}
   ELSE CASE e.op = "direction" -> Clause("direction", e.text = DirectionText(e.a, e.p, e.sail))
          [] e.op = "data" -> Clause("data", e.text = DataText(e.fs))
          [] e.op = "fuzzy" -> Clause("statement", e.text = Statement(e.f))
          [] OTHER -> Clause("lines", e.lines = Lines(Post(st, e)))
                 \cup Clause("printing-changes-nothing", e.again = e.lines))
Step(st, e) == IF e.op \in Single THEN st ELSE Post(st, e)
Init == l = 1 /\ s = S0
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN Report(l, Bad(s, e)) /\ s' = Step(s, e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================

---------------------------- MODULE TraceRegress ----------------------------
EXTENDS Regress, TraceLib
VARIABLES l, s
S0 == [fam |-> "", p |-> <<>>, fitted |-> FALSE]
Bad(st, e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE CASE e.op = "make" -> Clause("made", e.out = "ok") \cup Clause("unfitted", e.out = "ok" => ~e.fitted)
                         \cup Clause("model-func", e.out = "ok" => e.func)
         [] e.op = "refuse" -> Clause("invalid-data-refused", e.out # "ok")
                         \cup Clause("refusal-keeps-params", e.p = st.p)
         [] e.op = "nonlinear" -> Clause("fitted", e.out = "ok")
                         \cup Clause("reproduces-own-family", e.out = "ok" => e.res <= 20)
         [] OTHER ->
              Clause("fitted", e.out = "ok")
              \cup Clause("inputs-unchanged", ~e.changed)
              \cup (IF e.out # "ok" THEN {} ELSE
                   Clause("optimal", Optimal(st.fam, e.p, e.T))
                   \cup Clause("reproduces-own-family", e.exact => \A i \in DOMAIN e.T : Abs(Residual(st.fam, e.p, e.T[i])) <= RSum([j \in DOMAIN e.p |-> Abs(Phi(st.fam, e.T[i])[j])]) + 1)
                   \cup Clause("order-independent", Len(e.perm) = Len(e.p) /\ \A j \in DOMAIN e.p : Abs(e.perm[j] - e.p[j]) <= 1)
                   \cup Clause("independent-of-history", Len(e.fresh) = Len(e.p) /\ \A j \in DOMAIN e.p : Abs(e.fresh[j] - e.p[j]) <= 1))
Step(st, e) == CASE e.op = "make" -> [fam |-> e.fam, p |-> <<>>, fitted |-> FALSE]
                 [] e.op = "fit" /\ e.out = "ok" -> [st EXCEPT !.p = e.p, !.fitted = TRUE]
                 [] OTHER -> st
Init == l = 1 /\ s = S0
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] p == IF e.new THEN S0 ELSE s IN Report(l, Bad(p, e)) /\ s' = Step(p, e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================

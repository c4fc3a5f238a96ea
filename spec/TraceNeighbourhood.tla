-------------------------- MODULE TraceNeighbourhood -------------------------
EXTENDS Neighbourhood, TraceLib
VARIABLES l, s
S0 == [sh |-> [kind |-> "none"]]
Bad(st, e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE CASE e.op = "make" -> Clause("valid-shape-made", e.valid => e.out = "ok")
                         \cup Clause("invalid-shape-refused", ~e.valid => e.out # "ok")
         [] e.op = "norm" ->
              Clause("norm-defined", (\E i \in DOMAIN e.allowed : e.allowed[i] = e.dims) = (e.out = "ok"))
              \cup Clause("one-norm-per-vector", e.out = "ok" => Len(e.norms) = Len(e.vecs))
              \cup Clause("norm-value", e.out = "ok" /\ Len(e.norms) = Len(e.vecs) =>
                    \A i \in DOMAIN e.vecs : IsLength(e.norms[i], LengthSq(e.vecs[i], e.factors), 1))
              \cup Clause("vectors-unchanged", ~e.changed)
         [] OTHER ->
              Clause("decided", e.out = "ok")
              \cup Clause("one-boolean-per-point", e.out = "ok" => e.bool /\ Len(e.mask) = Len(e.pts))
              \cup Clause("membership", e.out = "ok" /\ Len(e.mask) = Len(e.pts) => e.mask = Mask(st.sh, e.pts))
              \cup Clause("points-unchanged", e.after = e.pts)
Step(st, e) == IF e.op = "make" THEN [sh |-> e.shape] ELSE st
Init == l = 1 /\ s = S0
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] p == IF e.new THEN S0 ELSE s IN Report(l, Bad(p, e)) /\ s' = Step(p, e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================

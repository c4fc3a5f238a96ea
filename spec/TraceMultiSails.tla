--------------------------- MODULE TraceMultiSails ---------------------------
(* Events carry, besides the observation of the multi-sail diagram, what its
   parts answer on their own.                                                  *)
EXTENDS MultiSails, TraceLib
VARIABLES l, s
S0 == [names |-> <<>>, ids |-> <<>>]
Bad(st, e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE Clause("names-and-diagrams-kept", e.op = "make" \/ (e.names = st.names /\ e.ids = st.ids))
  \cup (CASE e.op = "make" -> LET r == Make(e.given, e.has, e.made) IN
              Clause("made", e.out = "ok") \cup Clause("names", e.out = "ok" => e.names = r.names) \cup Clause("diagrams", e.out = "ok" => e.ids = r.ids)
         [] e.op = "lookup" -> LET r == Lookup(st, e.n) IN
              Clause("lookup-refused", r.ok = (e.out = "ok")) \cup Clause("lookup", (r.ok /\ e.out = "ok") => e.id = r.id)
         [] e.out # "ok" -> {"answers"}
         [] e.op = "call" -> Clause("maximum", \A i \in DOMAIN e.v : e.v[i] = MaxSeq(e.parts[i]))
         [] e.op = "slices" ->
              Clause("slice-labels", e.lab = e.w)
              \cup Clause("slices", Len(e.sl) = Len(e.w) /\ \A k \in DOMAIN e.sl : e.sl[k] = Concat(e.parts[k]))
              \cup Clause("sail-of-points", e.info = [k \in DOMAIN e.parts |-> Labels(st, e.parts[k])])
         [] e.op = "points" -> Clause("points", e.pts = Concat(e.parts))
              \cup Clause("default-slices", Len(e.ds) = 20 /\ \A k \in 1..20 : LET D == Range(Concat(e.dparts)) IN
                     Abs(e.ds[k] * 19 - (MinOf(D) * 19 + (k - 1) * (MaxOf(D) - MinOf(D)))) <= 40)
         [] OTHER -> \* symmetrize: a new diagram, the same names, every part symmetrised
              Clause("sym-names", e.snames = st.names)
              \cup Clause("sym-parts", e.v = e.parts))
Step(st, e) == [names |-> e.names, ids |-> e.ids]
Init == l = 1 /\ s = S0
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] p == IF e.new THEN S0 ELSE s IN Report(l, Bad(p, e)) /\ s' = Step(p, e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================

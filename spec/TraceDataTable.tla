-------------------------- MODULE TraceDataTable --------------------------
(* Decides recorded histories of the real data container against DataTable. *)
EXTENDS DataTable, TraceLib
VARIABLES l, s
S0 == Empty
Derived == {"slice", "mask", "concat"}
Pre(e) == IF e.new THEN Empty ELSE s

ReadBad(d, e) ==
  LET ks == e.ks all == Keys(d) IN
     Clause("read-refused", e.out = "ok")
     \cup (IF e.out # "ok" THEN {} ELSE
        Clause("rows-list", e.rl = Rows(d, ks))
        \cup Clause("rows-tuple", e.rt = Rows(d, ks))
        \cup Clause("rows-dict", e.rd = Rows(d, ks))
        \cup Clause("rows-default", e.r0 = Rows(d, all))
        \cup Clause("iteration", e.it = Rows(d, all))
        \cup Clause("row-by-index", e.ix = Rows(d, all))
        \cup Clause("slice", e.sl = SliceKeys(d, RangeOf(e.sk)).d)
        \cup Clause("keys", e.keys = all /\ e.ncols = Len(all))
        \cup Clause("contains", e.inn = [i \in DOMAIN e.probe |-> HasKey(d, e.probe[i])])
        \cup Clause("data-property", e.dat = [i \in DOMAIN d.cols |-> d.cols[i].v])
        \cup LET fl == SelectSeq(all, LAMBDA k : Col(d, k).t = "f") IN
             Clause("by-type", e.fk = fl /\ e.fv = [i \in DOMAIN fl |-> Col(d, fl[i]).v])
             \cup Clause("by-each-type", \A j \in DOMAIN e.by : LET q == SelectSeq(all, LAMBDA k : Col(d, k).t = e.by[j][1]) IN
                                              e.by[j][2] = q /\ e.by[j][3] = [i \in DOMAIN q |-> Col(d, q[i]).v])
             \cup Clause("numerical", e.nk = fl /\ (fl = <<>> \/ e.nv = Rows(d, fl)))
        \cup Clause("read-changes", e.obs = d))

Bad(d, e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE IF e.op = "read" THEN ReadBad(d, e)
  ELSE LET r == Apply(d, e) IN
     Clause("refused-exactly-when-inconsistent", r.ok = (e.out = "ok"))
     \cup Clause("row-count", e.obs.n = r.d.n)
     \cup Clause("columns", e.obs.cols = r.d.cols)
     \cup (IF e.op \in Derived THEN Clause("original-unchanged", e.orig = d) ELSE {})
     \cup Clause("table-invariant", NamesUnique(e.obs) /\ ColsBounded(e.obs) /\ Typed(e.obs))
Step(d, e) == e.obs

Init == l = 1 /\ s = S0
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] p == Pre(e) IN Report(l, Bad(p, e)) /\ s' = Step(p, e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================

--------------------------- MODULE TraceDataFormat ---------------------------
(* Standard format (op "std"), csv files (op "csv") and arrays or frames (op
   "array"): the result is the standard format of the source's cells.           *)
EXTENDS DataFormat, TraceLib
VARIABLE l
ResSet(e) == { [k |-> e.res[i].k, v |-> e.res[i].v] : i \in DOMAIN e.res }
Bad(e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE IF e.op = "refuse" THEN Clause("refused", e.out # "ok")
  ELSE IF e.op = "dup" THEN Clause("equal-names-not-mixed", e.out = "ok" => e.n = e.rows /\ e.col = e.want)
  ELSE IF e.op = "extra" /\ e.out # "ok" THEN {} \* rows longer than the header may be refused
  ELSE IF e.out # "ok" THEN {"accepted"}
  ELSE LET want == Std(e.cols) IN
     Clause("column-names", { c.k : c \in want } = { e.res[i].k : i \in DOMAIN e.res } /\ Len(e.res) = Cardinality(want))
     \cup Clause("cells", ResSet(e) = want)
     \cup Clause("row-count", e.n = e.rows)
     \cup Clause("idempotent", e.again = e.res)
     \cup Clause("takes-more-values", e.grown)
     \cup Clause("statistics", e.stat = <<e.n, Len(e.res)>>)
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Bad(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

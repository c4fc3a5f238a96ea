------------------------------ MODULE TraceNMEA ------------------------------
EXTENDS NMEA, TraceLib
VARIABLES l
SetOf(q) == { q[i] : i \in DOMAIN q }
Bad(e) ==
  IF e.op # "stream" THEN {"outside"} ELSE
  LET t == Records(e.ss, e.smode, SetOf(e.types), e.mode, SetOf(e.names))
      full == Table(t)
      want == IF e.post THEN Filtered(full) ELSE full
      got == SetOf(e.cols)
      names == { c.k : c \in want }
      col(S, k) == (CHOOSE c \in S : c.k = k).v
  IN Clause("terminates", e.out # "hang")
     \cup Clause("stream-is-read", e.out = "ok")
     \cup (IF e.out # "ok" THEN {} ELSE
        Clause("columns", { c.k : c \in got } = names /\ Len(e.cols) = Cardinality(names))
        \cup Clause("number-of-records", names # {} => e.n = Len(t.recs))
        \cup UNION { Clause("values-in-their-record", k \in { c.k : c \in got } => col(got, k) = col(want, k)) : k \in names }
        \cup Clause("statistics", e.stat = <<e.n, Len(e.cols)>>))
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Bad(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

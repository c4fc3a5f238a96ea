---------------------------- MODULE TraceConfig ----------------------------
(* out: whether the call was accepted, use: whether the accepted component did its work *)
EXTENDS Config, TraceLib
VARIABLES l
Bad(e) == LET v == Valid(e.c, e.p) IN
  (IF e.out = "hang" THEN {"terminates"} ELSE {})
  \cup Clause("unsupported-refused", ~v => e.out # "ok")
  \cup Clause("supported-accepted", v => e.out = "ok")
  \cup Clause("accepted-works", v /\ e.out = "ok" => e.use = "ok")
  \cup Clause("arguments-kept", e.kept)
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Bad(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

----------------------------- MODULE TraceTable -----------------------------
(* Recorded histories of the real table against Table.                        *)
EXTENDS Table, TraceLib
VARIABLES l, s
S0 == NoTable
Near(p, e) == LET dw == Abs(p[1] - e.ws) da == Abs(p[2] - (e.wa % FULL)) IN Max2(dw, da) <= e.r
Bad(t, e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE IF e.op \in {"make", "change"} THEN
     LET r == ApplyT(t, e) IN
       Clause("refused-exactly-when-invalid", r.ok = (e.out = "ok"))
       \cup Clause("resolutions", e.out # "ok" \/ (e.obs.ws = r.t.ws /\ e.obs.wa = r.t.wa))
       \cup Clause("entries", (e.op = "make" /\ e.out # "ok") \/ e.obs.bsp = r.t.bsp)
       \cup Clause("grid-invariant", e.obs = NoTable \/ GridOK(e.obs))
  ELSE IF e.op = "get" THEN
     LET r == Get(t, e.ws, e.wa) IN
       Clause("get-refused", r.ok = (e.out = "ok")) \cup Clause("get-value", e.out # "ok" \/ e.v = r.v)
       \cup Clause("get-changes", e.obs = t)
  ELSE IF e.op = "call" THEN
     LET r == Get(t, e.ws, e.wa)
         want == SelectSeq(FlatPoints(t), LAMBDA p : Near(p, e)) IN
       IF r.ok THEN Clause("call-at-grid-pair", e.out = "ok" /\ e.v = r.v)
       ELSE Clause("call-returns-interpolation", e.out = "ok" /\ e.v = e.iv)
            \cup Clause("call-neighbourhood", e.out = "ok" =>
                    (IsPermutation(e.pts, want) /\ e.gp = <<e.ws, e.wa % FULL>>))
            \cup Clause("call-weights", \A i, j \in DOMAIN e.wts : e.wts[i] = e.wts[j] /\ e.wts[i] > 0)
       \cup Clause("call-changes", e.obs = t)
  ELSE \* read
       Clause("read-refused", e.out = "ok")
       \cup (IF e.out # "ok" THEN {} ELSE
          Clause("default-points", e.dp = FlatPoints(t) /\ e.gp0 = FlatPoints(t))
          \cup Clause("get-points", e.gp = [k \in DOMAIN e.q |-> <<e.q[k][1], e.q[k][2], Get(t, e.q[k][1], e.q[k][2]).v>>])
          \cup Clause("get-points-grid", \A i \in DOMAIN e.gpg :
                 e.gpg[i] = <<e.gpg[i][1], e.gpg[i][2], Get(t, e.gpg[i][1], e.gpg[i][2]).v>>)
          \cup Clause("get-points-grid-count", Len(e.gpg) = Len(t.ws) * Len(t.wa) /\ Cardinality(RangeT(e.gpg)) = Len(e.gpg))
          \cup Clause("slices", e.lab = t.ws /\ e.sl = [j \in DOMAIN t.ws |-> ColSlice(t, t.ws[j])])
          \cup Clause("read-changes", e.obs = t))
Step(t, e) == e.obs
Init == l = 1 /\ s = S0
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] p == IF e.new THEN S0 ELSE s IN Report(l, Bad(p, e)) /\ s' = Step(p, e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================

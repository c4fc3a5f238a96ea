----------------------------- MODULE TraceCloud -----------------------------
EXTENDS Cloud, TraceLib
VARIABLES l, s
S0 == <<>>
(* apparent wind equal to the boat speed is calm: the angle is then arbitrary *)
SamePt(p, q) == p = q \/ (p[1] = 0 /\ q[1] = 0 /\ p[3] = q[3] /\ q[2] \in 0..(CFULL - 1))
SameC(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SamePt(a[i], b[i])
Bad(c, e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE Clause("caller-data-kept", e.same)
   \cup (IF e.op \in {"make", "add"} THEN
     LET r == ApplyC(c, e) IN
       Clause("refused-exactly-when-invalid", r.ok = (e.out = "ok"))
       \cup Clause("points", (e.op = "make" /\ e.out # "ok") \/ (IF e.app THEN SameC(r.c, e.obs) ELSE r.c = e.obs))
       \cup Clause("cloud-invariant", CloudOK(e.obs))
  ELSE IF e.op = "call" THEN
     LET h == HitsC(c, e.ws, e.wa) want == BoxC(c, e.ws, e.wa, e.r) IN
       (IF e.ws <= 0 THEN Clause("call-refused", e.out # "ok")
        ELSE IF h # {} THEN Clause("call-at-a-point", e.out = "ok" /\ \E i \in h : e.v = c[i][3])
        ELSE Clause("call-interpolates", e.out = "ok" /\ e.v = e.iv)
             \cup Clause("call-neighbourhood", e.out = "ok" => (IsPermutation(e.pts, want) /\ e.gp = <<e.ws, e.wa % CFULL>>))
             \cup Clause("call-weights", \A i, j \in DOMAIN e.wts : e.wts[i] = e.wts[j] /\ e.wts[i] > 0))
       \cup Clause("call-changes", e.obs = c)
  ELSE IF e.op = "slice" THEN
     Clause("slice-made", e.out = "ok")
     \cup Clause("slice-labels", e.out = "ok" => e.lab = e.w)
     \cup Clause("slice-points", e.out = "ok" => (Len(e.sl) = Len(e.w) /\ \A k \in DOMAIN e.w : IsPermutation(e.sl[k], SliceC(c, e.w[k], e.r))))
     \cup Clause("slice-changes", e.obs = c)
  ELSE IF e.op = "islice" THEN   \* slices by interpolation: n angles from 0 to 360 evenly
     Clause("islice-made", e.out = "ok")
     \cup (IF e.out # "ok" THEN {} ELSE
       Clause("islice-shape", Len(e.sl) = Len(e.w) /\ \A k \in DOMAIN e.sl : Len(e.sl[k]) = e.n)
       \cup Clause("islice-points", \A k \in DOMAIN e.sl : \A i \in DOMAIN e.sl[k] :
              LET p == e.sl[k][i] a == (CFULL \div (e.n - 1)) * (i - 1) h == HitsC(c, e.w[k], a) IN
              /\ p[1] = e.w[k] /\ p[2] = a
              /\ IF h # {} THEN \E j \in h : p[3] = c[j][3] ELSE p[3] = e.iv + e.w[k] + (a % CFULL)))
     \cup Clause("islice-changes", e.obs = c)
  ELSE \* read
     Clause("read-refused", e.out = "ok")
     \cup (IF e.out # "ok" THEN {} ELSE
        Clause("wind-speeds", e.ws = SortedC(ColC(c, 1))) \cup Clause("wind-angles", e.wa = SortedC(ColC(c, 2)))
        \cup Clause("boat-speeds", e.bsp = [i \in DOMAIN c |-> c[i][3]])
        \cup Clause("points-read", e.pts = c /\ e.dp = c)
        \cup Clause("default-slices", c = <<>> \/ (Len(e.ds) = 20 /\ \A k \in 1..20 :
               Abs(e.ds[k] * 19 - 16 * (MinOf(ColC(c, 1)) * 19 + (k - 1) * (MaxOf(ColC(c, 1)) - MinOf(ColC(c, 1))))) <= 20))
        \cup Clause("read-changes", e.obs = c)))
Step(c, e) == e.obs
Init == l = 1 /\ s = S0
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] p == IF e.new THEN S0 ELSE s IN Report(l, Bad(p, e)) /\ s' = Step(p, e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================

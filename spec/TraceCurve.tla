----------------------------- MODULE TraceCurve -----------------------------
EXTENDS Curve, TraceLib
VARIABLES l
Bad(e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE IF e.op = "make" THEN Clause("refused-exactly-when-invalid", e.valid = (e.out = "ok"))
  ELSE IF e.op = "eval" THEN
    (IF \E i \in DOMAIN e.q : e.q[i][1] < 0 THEN Clause("negative-wind-refused", e.out # "ok")
     ELSE Clause("evaluates", e.out = "ok")
          \cup Clause("value", e.out = "ok" => e.v = [i \in DOMAIN e.q |-> At(e.cv, e.q[i][1], e.q[i][2])])
          \cup Clause("arguments-kept", e.same))
  ELSE IF e.out # "ok" THEN {"reads"}
  ELSE IF e.op = "fine" THEN     \* the identity of the angle, in 2^-22 degree
    Clause("value", Len(e.v) = Len(e.a) /\ \A i \in DOMAIN e.a : Abs(e.v[i] - e.a[i]) <= 1)
  ELSE IF e.op = "slices" THEN
    Clause("slice-labels", e.lab = e.w)
    \cup Clause("slice-points", e.sl = [k \in DOMAIN e.w |-> SliceU(e.cv, e.w[k], e.n)])
  ELSE IF e.op = "points" THEN   \* get_points at given winds; default points (sampled)
    Clause("points", e.pts = [i \in DOMAIN e.q |-> <<e.q[i][1], e.q[i][2], At(e.cv, e.q[i][1], e.q[i][2])>>])
  ELSE IF e.op = "default" THEN  \* everything in 1/64, rounded; here p[4] = 0
    Clause("default-points", e.n > 0 /\ \A i \in DOMAIN e.d :
       Abs(e.d[i][3] - (64 * e.cv.p[1] + e.cv.p[2] * e.d[i][1] + e.cv.p[3] * e.d[i][2])) <= 1 + Abs(e.cv.p[2]) + Abs(e.cv.p[3]))
  ELSE Clause("attributes", e.params = e.cv.p /\ e.rad = e.cv.rad)
Init == l = 1
Next == /\ l <= Len(Trace) /\ Report(l, Bad(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

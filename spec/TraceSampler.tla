---------------------------- MODULE TraceSampler ----------------------------
(* event "sample": kind, data (integers), n, samples (fixed point), and for the
   spiral samplers polar: for each sample the radius around the midpoint e.mid
   (fixed point, 1000 = one unit of the spiral parameter: theta for the
   Archimedean, the index k for the Fibonacci spiral, from radius = T*theta or
   radius^2 = T*k with one common T found by the recorder) and the angle in the
   same unit (thousandths of a radian / of a turn).                            *)
EXTENDS Sampler, TraceLib
VARIABLES l
TwoPi == 6283185   \* millionths
Circ(x, m, tol) == LET r == x % m IN r <= tol \/ r >= m - tol
Bad(e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE IF e.op = "make" THEN Clause("non-positive-refused", (e.n <= 0) <=> (e.out # "ok"))
  ELSE IF ~Spans(Pts(e.data)) THEN Clause("points-unchanged", ~e.changed)
  ELSE LET S == Pts(e.data) E == Edges(S) IN
     Clause("points-unchanged", ~e.changed)
     \cup Clause("sampled", e.out = "ok")
     \cup (IF e.out # "ok" THEN {} ELSE
        Clause("exactly-n", Len(e.samples) = e.n)
        \cup Clause("pairs", e.cols = 2)
        \cup (IF e.cols # 2 THEN {} ELSE
           Clause("inside-hull", \A i \in DOMAIN e.samples : InHull(E, e.samples[i]))
           \cup Clause("distinct", e.distinct)
           \cup Clause("varies", e.kind = "uniform" => e.varies)
           \cup (IF e.mid = <<>> THEN {} ELSE
               Clause("enclosing-circle-witness", IsCircle(S, e.mid, e.r2))
               \cup Clause("on-spiral", e.kind # "uniform" => e.fit /\ \A i \in DOMAIN e.par :
                      IF e.kind = "archimedean" THEN Circ(e.par[i] - e.ang[i], TwoPi, e.tol)
                      ELSE Circ(e.par[i], 1000000, e.tol))
               \cup Clause("golden-angle", e.kind = "fibonacci" => \A i \in DOMAIN e.ang : Circ(e.ang[i], 1000000, e.tol)))))
Init == l = 1
Next == /\ l <= Len(Trace) /\ Report(l, Bad(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

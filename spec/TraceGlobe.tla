------------------------------ MODULE TraceGlobe ------------------------------
EXTENDS Globe, TraceLib
VARIABLES l
Near(a, b, t) == Len(a) = Len(b) /\ \A i \in DOMAIN a : GAbs(a[i] - b[i]) <= t
(* positions in 1/1000 degree                                                    *)
At(p, o) == GAbs(o[1] - 1000 * p[1]) <= 1 /\ (GAbs(p[1]) >= 90 \/ LET d == (o[2] - 1000 * p[2]) % 360000 IN d <= 1 \/ d >= 359999)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Bad(e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE IF e.out # "ok" THEN {"answers"}
  ELSE CASE e.op = "project" ->
         \* proj in 1/10000 of the radius, back in 1/1000 degree
         Clause("one-row-per-position", Len(e.proj) = Len(e.pts) /\ Len(e.back) = Len(e.pts))
         \cup Clause("projection", e.virtual \/ \A i \in DOMAIN e.proj : Near(e.proj[i], Project(e.model, e.pts[i]), 3))
         \cup Clause("round-trip", \A i \in DOMAIN e.back : At(e.pts[i], e.back[i]))
         \cup Clause("positions-unchanged", ~e.changed)
       [] e.op = "dist" ->
         \* pq, qp, pr, rq, pp in 1/10000 of the radius; m: the same in another unit of radius
         Clause("distance", e.virtual \/ (DistOk(e.model, e.p, e.q, e.pq) /\ DistOk(e.model, e.p, e.r, e.pr)))
         \cup Clause("symmetric", e.pq = e.qp)
         \cup Clause("non-negative", e.pq >= 0 /\ e.pr >= 0 /\ e.rq >= 0)
         \cup Clause("zero", e.pp = 0 /\ (Same(e.p, e.q) => e.pq = 0) /\ (e.pq <= 1 => Same(e.p, e.q)))
         \cup Clause("triangle", e.pq <= e.pr + e.rq + 2)
         \cup Clause("positions-unchanged", ~e.changed)
       [] e.op = "near" ->
         \* positions dlat, dlon millionths of a degree apart; d in millionths of a degree of a great circle
         LET x == RDiv(e.dlon * Cos(e.p[1]), One) IN
         Clause("short-distance", GAbs(e.d * e.d - (e.dlat * e.dlat + x * x)) <= 6 * e.d + 4)
       [] e.op = "fine" ->
         \* positions relative to the first one in 1/1000 or 1e-9 degrees; the second one is at d; lengths in 1e-7 of the distance
         Clause("round-trip", Len(e.back) = 2 /\ Near(e.back[1], <<0, 0>>, 2) /\ Near(e.back[2], e.d, 2))
         \cup Clause("number-of-points", Len(e.path) = e.n)
         \cup (IF Len(e.path) # e.n THEN {} ELSE
            Clause("starts", Near(e.path[1], <<0, 0>>, 2)) \cup Clause("ends", Near(e.path[e.n], e.d, 2))
            \cup Clause("equal-steps", e.total = 0 \/ \A i \in DOMAIN e.steps : GAbs(e.steps[i] * (e.n - 1) - e.total) <= 20000)
            \* nearby positions: the way is straight
            \cup Clause("short-way", e.straight => \A i \in DOMAIN e.path : \A k \in 1..2 : GAbs(e.path[i][k] * (e.n - 1) - e.d[k] * (i - 1)) <= 4 * e.n))
       [] OTHER ->
         \* path: positions in 1/1000 degree, steps between them and length in 1/10000 of the radius / 100
         Clause("number-of-points", Len(e.path) = e.n)
         \cup Clause("starts", At(e.p, e.path[1]))
         \cup Clause("ends", e.n >= 2 => At(e.q, e.path[Len(e.path)]))
         \cup Clause("equal-steps", \A i \in DOMAIN e.steps : GAbs(e.steps[i] - e.steps[1]) <= 3 + (e.steps[1] \div 5000))
         \cup Clause("total-length", e.n >= 2 => GAbs(Sum(e.steps) - e.total) <= 3 + e.n + (e.total \div 5000))
         \cup Clause("positions-unchanged", ~e.changed)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Bad(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================

------------------------------ MODULE TraceCourse ------------------------------
(* Legs are <<index of the heading (0 if none), is the desired direction itself,
   proportion in millionths, sail>>.                                            *)
EXTENDS Course, TraceLib
VARIABLES l
One == 1000000
(* millionths of a fraction, computed in two steps (32 bits) *)
Ratio(fr) == ((fr[1] * 1000) \div fr[2]) * 1000 + (((fr[1] * 1000) % fr[2]) * 1000) \div fr[2]
Near(a, fr) == Abs(a - Ratio(fr)) <= 4
Leg(pts, g) == g[1] \in DOMAIN pts
Two(e, a, b) == /\ Leg(e.pts, a) /\ Leg(e.pts, b) /\ Between(e.pts[a[1]], e.u, e.pts[b[1]])
Bad(e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE IF ~Supported(e.pts, e.u) THEN Clause("unsupported-refused", e.out # "ok")
  ELSE IF e.out # "ok" THEN Clause("answers", Flat(e.pts))
  ELSE Clause("unchanged", e.same) \cup
    IF Len(e.legs) = 1 THEN LET g == e.legs[1] IN
      Clause("proportion", g[3] = One) \cup Clause("heads-there", g[2]) \cup Clause("direct-is-best", DirectOk(e.pts, e.u, g[4]))
    ELSE IF Len(e.legs) # 2 THEN {"legs"}
    ELSE LET a == e.legs[1] b == e.legs[2]
             p == IF Two(e, a, b) THEN a ELSE b
             r == IF Two(e, a, b) THEN b ELSE a IN
      Clause("headings-of-the-diagram", Leg(e.pts, a) /\ Leg(e.pts, b))
      \cup Clause("sails-of-the-headings", (Leg(e.pts, a) /\ Leg(e.pts, b)) => (e.pts[a[1]].s = a[4] /\ e.pts[b[1]].s = b[4]))
      \cup Clause("proportions-sum", Abs(a[3] + b[3] - One) <= 2 /\ a[3] >= 0 /\ b[3] >= 0)
      \cup (IF ~Two(e, p, r) THEN {"heads-there"}
            ELSE Clause("heads-there", Near(p[3], Share(e.pts[p[1]], e.u, e.pts[r[1]])))
                 \cup Clause("best", IsBest(e.pts, e.u, Made(e.pts, e.u, <<p[1], r[1]>>))))
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Bad(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l>>
===============================================================================

------------------------------ MODULE Sampler ------------------------------
(* Sampling of the plane from given points (integers).  A sampler asked for n
   samples returns exactly n points of the convex hull; the spiral samplers put
   them on a spiral around the midpoint of the smallest circle enclosing the
   given points.  Sample coordinates are in fixed point, SC per unit.          *)
EXTENDS Integers, Sequences, FiniteSets

Sc == 100
Cross(o, a, b) == (a[1] - o[1]) * (b[2] - o[2]) - (a[2] - o[2]) * (b[1] - o[1])
SAbs(x) == IF x < 0 THEN -x ELSE x
Up(p) == <<p[1] * Sc, p[2] * Sc>>
(* the hull as the intersection of the half planes left of its edges; an edge is
   an ordered pair of distinct points with all points on its left               *)
Pts(data) == { <<data[i][1], data[i][2]>> : i \in DOMAIN data }
Edges(S) == { e \in S \X S : e[1] # e[2] /\ \A p \in S : Cross(e[1], e[2], p) >= 0 }
Spans(S) == \E a \in S : \E b \in S : \E p \in S : Cross(a, b, p) # 0
L1(a, b) == SAbs(a[1] - b[1]) + SAbs(a[2] - b[2])
(* sample p (fixed point) within the hull up to rounding of its coordinates *)
InHull(E, p) == \A e \in E : Cross(Up(e[1]), Up(e[2]), p) >= -(Sc * L1(e[1], e[2]))

(* ---- smallest enclosing circle: a circle containing all points is the
   smallest one iff its centre is in the convex hull of the points on it       *)
D2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
OnCircle(S, m, r2) == { p \in S : D2(p, m) = r2 }
(* m in the hull of B: no open half plane through m contains all of B *)
CentreHeld(B, m) ==
  \/ \E a \in B : \E b \in B : a # b /\ Cross(m, a, b) = 0 /\ (a[1] - m[1]) * (b[1] - m[1]) + (a[2] - m[2]) * (b[2] - m[2]) < 0
  \/ \E a \in B : \E b \in B : \E c \in B : Cross(m, a, b) > 0 /\ Cross(m, b, c) > 0 /\ Cross(m, c, a) > 0
IsCircle(S, m, r2) == /\ \A p \in S : D2(p, m) <= r2
                      /\ IF r2 = 0 THEN S = {m} ELSE CentreHeld(OnCircle(S, m, r2), m)
InCircle(m, r2, p) == D2(Up(m), p) <= (Sc * Sc * r2) + 4 * Sc * r2 + 400
=============================================================================

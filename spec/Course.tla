-------------------------------- MODULE Course --------------------------------
(* The fastest course made of the headings of a polar diagram.  pts is a sequence
   of [x, y, s]: the velocity <<x, y>> on a heading (integers) and its sail; u is
   an integer vector in the desired direction.  Sailing P for a share of the time
   and Q for the rest makes the velocity rho * u, rho = Num / Den (exact).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Crs(p, q) == p.x * q.y - p.y * q.x
Dot(p, q) == p.x * q.x + p.y * q.y
Moves(p) == p.k /\ (p.x # 0 \/ p.y # 0)
Along(p, u) == Moves(p) /\ Crs(p, u) = 0 /\ Dot(p, u) > 0
(* u strictly between the headings of p and q (p clockwise first), less than 180 degrees apart *)
Between(p, u, q) == Moves(p) /\ Moves(q) /\ Crs(p, q) > 0 /\ Crs(p, u) > 0 /\ Crs(u, q) > 0
Num(p, q) == Crs(p, q)
Den(p, u, q) == Crs(p, u) + Crs(u, q)
(* the made good speeds as fractions <<num, den>> in units of |u|               *)
Singles(pts, u) == { <<Dot(pts[i], u), Dot(u, u)>> : i \in { i \in DOMAIN pts : Along(pts[i], u) } }
PairsOf(pts, u) == { ij \in (DOMAIN pts) \X (DOMAIN pts) : Between(pts[ij[1]], u, pts[ij[2]]) }
Made(pts, u, ij) == <<Num(pts[ij[1]], pts[ij[2]]), Den(pts[ij[1]], u, pts[ij[2]])>>
Speeds(pts, u) == Singles(pts, u) \cup { Made(pts, u, ij) : ij \in PairsOf(pts, u) }
Supported(pts, u) == Speeds(pts, u) # {}
Leq(a, b) == a[1] * b[2] <= b[1] * a[2]
Best(pts, u) == CHOOSE a \in Speeds(pts, u) : \A b \in Speeds(pts, u) : Leq(b, a)
IsBest(pts, u, a) == Leq(Best(pts, u), a)
(* everything on one line through the origin: there is no area to take a hull of *)
Flat(pts) == \A i, j \in DOMAIN pts : (pts[i].k /\ pts[j].k) => Crs(pts[i], pts[j]) = 0
(* share of the first heading                                                   *)
Share(p, u, q) == <<Crs(u, q), Den(p, u, q)>>
(* no heading of the same sail between p and q                                  *)
Adjacent(pts, i, j) == pts[i].s = pts[j].s /\ \A k \in DOMAIN pts : pts[k].s = pts[i].s => ~Between(pts[i], [pts[k] EXCEPT !.k = TRUE], pts[j])
DirectOk(pts, u, s) == \/ \E i \in DOMAIN pts : Along(pts[i], u) /\ pts[i].s = s /\ IsBest(pts, u, <<Dot(pts[i], u), Dot(u, u)>>)
                       \/ \E ij \in PairsOf(pts, u) : /\ pts[ij[1]].s = s /\ Adjacent(pts, ij[1], ij[2])
                                                      /\ IsBest(pts, u, Made(pts, u, ij))
===============================================================================

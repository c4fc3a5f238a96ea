-------------------------------- MODULE Voyage --------------------------------
(* Sailing a straight way through zones of weather.  Distances are in 1/100 nm,
   times in 1/10000 h.  zones[i] = [n, inv]: a zone of length n, where inv[p] is
   the time a unit of distance takes in period p; period p ends at ends[p] (the
   last period never ends).  Beyond the last zone its weather continues.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE ZoneAt(_, _, _)
ZoneAt(zs, s, i) == IF i = Len(zs) \/ s < zs[i].n THEN [i |-> i, left |-> zs[i].n - s, last |-> i = Len(zs)] ELSE ZoneAt(zs, s - zs[i].n, i + 1)
RECURSIVE PerAt(_, _, _)
PerAt(es, t, p) == IF p > Len(es) \/ t < es[p] THEN p ELSE PerAt(es, t, p + 1)
VMin(a, b) == IF a < b THEN a ELSE b
(* the moment s is reached, and how often weather changed on the way            *)
RECURSIVE Walk(_, _, _, _, _, _)
Walk(zs, es, s, t, goal, k) ==
  IF s >= goal THEN [t |-> t, changes |-> k]
  ELSE LET z == ZoneAt(zs, s, 1) p == PerAt(es, t, 1) inv == zs[z.i].inv[p]
           d == IF z.last THEN goal - s ELSE VMin(z.left, goal - s)
           far == IF p <= Len(es) THEN (es[p] - t) \div inv ELSE d
       IN IF d <= far THEN Walk(zs, es, s + d, t + d * inv, goal, IF s + d >= goal THEN k ELSE k + 1)
          ELSE Walk(zs, es, s + far, es[p], goal, k + 1)
TimeTo(zs, es, goal) == Walk(zs, es, 0, 0, goal, 0)
Slowest(zs) == LET S == UNION { { zs[i].inv[p] : p \in DOMAIN zs[i].inv } : i \in DOMAIN zs } IN CHOOSE x \in S : \A y \in S : y <= x
(* where the way first enters a zone that cannot be sailed in any period        *)
Stuck == 100000
(* The same way sailed in steps of a length up to `step`, each with the weather
   found somewhere in the step, arrives between two bounds: along the way the
   time a unit takes lies between the least and the greatest one within bk
   lengths back and ah ahead (and the time such a step takes).                   *)
RECURSIVE Cum(_, _)
Cum(zs, i) == IF i = 0 THEN 0 ELSE zs[i].n + Cum(zs, i - 1)
Moving(zs) == LET S == { x \in UNION { { zs[i].inv[p] : p \in DOMAIN zs[i].inv } : i \in DOMAIN zs } : x # Stuck } IN
  IF S = {} THEN 50 ELSE CHOOSE x \in S : \A y \in S : y <= x
ZonesIn(zs, a, b) == { i \in DOMAIN zs : Cum(zs, i - 1) <= b /\ (i = Len(zs) \/ Cum(zs, i) > a) }
PersIn(es, a, b) == { p \in 1..(Len(es) + 1) : (p = 1 \/ es[p - 1] <= b) /\ (p > Len(es) \/ es[p] > a) }
Pick(S, fast) == IF fast THEN CHOOSE x \in S : \A y \in S : x <= y ELSE CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE Bound(_, _, _, _, _, _, _, _)
Bound(zs, es, s, t, goal, bk, ah, fast) ==
  IF s >= goal \/ t > 200000 THEN t
  ELSE LET m == Moving(zs)
           inv == Pick({ zs[i].inv[p] : i \in ZonesIn(zs, s - bk, s + ah), p \in PersIn(es, t - bk * m, t + ah * m) }, fast)
           d == Pick({ goal } \cup { x \in UNION { { Cum(zs, i) - ah, Cum(zs, i) + bk + 1 } : i \in 1..(Len(zs) - 1) } : x > s }, TRUE) - s
           tb == { x \in UNION { { es[p] - ah * m, es[p] + bk * m + 1 } : p \in DOMAIN es } : x > t }
           far == IF tb = {} THEN d ELSE (Pick(tb, TRUE) - t) \div inv
       IN IF d <= far THEN Bound(zs, es, s + d, t + d * inv, goal, bk, ah, fast)
          ELSE Bound(zs, es, s + far, Pick(tb, TRUE), goal, bk, ah, fast)
Earliest(zs, es, goal, bk, ah) == Bound(zs, es, 0, 0, goal, bk, ah, TRUE)
Latest(zs, es, goal, bk, ah) == Bound(zs, es, 0, 0, goal, bk, ah, FALSE)
(* sailing in equal steps, each with the weather at its beginning                *)
RECURSIVE Stepwise(_, _, _, _, _, _)
Stepwise(zs, es, s, t, goal, step) ==
  IF s >= goal THEN t
  ELSE LET d == VMin(step, goal - s) IN Stepwise(zs, es, s + d, t + d * zs[ZoneAt(zs, s, 1).i].inv[PerAt(es, t, 1)], goal, step)
RECURSIVE Wall(_, _, _)
Wall(zs, i, s) == IF i > Len(zs) THEN -1 ELSE IF \A p \in DOMAIN zs[i].inv : zs[i].inv[p] = Stuck THEN s ELSE Wall(zs, i + 1, s + zs[i].n)
(* wind: (u, v) is where the air moves (east, north); it comes from the opposite *)
Dirs == << [d |-> 0, e |-> 0, n |-> 1], [d |-> 45, e |-> 1, n |-> 1], [d |-> 90, e |-> 1, n |-> 0], [d |-> 135, e |-> 1, n |-> -1],
           [d |-> 180, e |-> 0, n |-> -1], [d |-> 225, e |-> -1, n |-> -1], [d |-> 270, e |-> -1, n |-> 0], [d |-> 315, e |-> -1, n |-> 1] >>
DirOf(e, n) == LET i == CHOOSE i \in DOMAIN Dirs : Dirs[i].e = e /\ Dirs[i].n = n IN Dirs[i].d
From(u, v) == DirOf(-u, -v)
Unit(d) == LET i == CHOOSE i \in DOMAIN Dirs : Dirs[i].d = d IN Dirs[i]
Twa(hdt, u, v) == (hdt - From(u, v)) % 360
===============================================================================

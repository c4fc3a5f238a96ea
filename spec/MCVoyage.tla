------------------------------- MODULE MCVoyage -------------------------------
EXTENDS Voyage, TraceLib
CONSTANTS Emitting
VARIABLES c
None == [zs |-> <<>>, es |-> <<>>, hdt |-> 0, u |-> 0, v |-> 1]
Invs == { <<20>>, <<50>>, <<10, 25>>, <<50, 5>>, <<Stuck>> }
Zone == [n : {100, 250}, inv : Invs]
Same(zs) == \A i \in DOMAIN zs : Len(zs[i].inv) = Len(zs[1].inv)
Ways == { zs \in UNION { [1..k -> Zone] : k \in 1..3 } : Same(zs) /\ zs[1].inv # <<Stuck>> }
Init == c = None
Next == /\ c = None
        /\ \E zs \in Ways, d \in {0, 90, 225}, w \in {<<0, 1>>, <<-1, 1>>} :
             c' = [zs |-> zs, es |-> IF Len(zs[1].inv) = 2 THEN <<4000>> ELSE <<>>, hdt |-> d, u |-> w[1], v |-> w[2]]
        /\ (Emitting => Emit(c'))
Spec == Init /\ [][Next]_c
T(g) == TimeTo(c.zs, c.es, g).t
Inv == c # None =>
  /\ T(0) = 0
  /\ \A g \in {1, 90, 100, 101, 249, 250, 350, 600} : T(g) > T(g - 1)
  \* additive: sailing on from where one is takes the rest
  /\ \A g \in {90, 250} : Walk(c.zs, c.es, g, T(g), 600, 0).t - T(600) \in -60..60
  \* bounds of ways sailed in steps
  /\ \A g \in {249, 600} : \A st \in {20} :
       LET w == Stepwise(c.zs, c.es, 0, 0, g, st) lo == Earliest(c.zs, c.es, g, st, 0) hi == Latest(c.zs, c.es, g, st, 0) IN
         \/ \E i \in DOMAIN c.zs : c.zs[i].inv[1] = Stuck
         \/ lo - 200 <= w /\ w <= hi + 200 /\ lo - 200 <= T(g) /\ T(g) <= hi + 200
  /\ Twa(c.hdt, c.u, c.v) \in 0..359
===============================================================================

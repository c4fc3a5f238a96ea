---------------------------- MODULE WindTriangle ----------------------------
(* A row is <<u, v, b>>: the wind as a vector relative to the bow (u from ahead,
   v from starboard; eighths) and the boat speed.  Motion adds a headwind b.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Sign(dir) == IF dir = "apparent" THEN 1 ELSE -1
ConvRow(r, dir) == <<r[1] + Sign(dir) * r[3], r[2], r[3]>>
ConvRows(rows, dir) == [i \in DOMAIN rows |-> ConvRow(rows[i], dir)]
Other(dir) == IF dir = "apparent" THEN "true" ELSE "apparent"
Sq(r) == r[1] * r[1] + r[2] * r[2]
Dot(r) == r[1] * r[3]
=============================================================================

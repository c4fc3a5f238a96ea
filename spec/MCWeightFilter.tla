--------------------------- MODULE MCWeightFilter ---------------------------
EXTENDS WeightFilter, TraceLib
CONSTANTS MaxLen, Emitting
VARIABLES w, p, lo, hi
Init == /\ \E n \in 0..MaxLen : w \in [1..n -> 0..3]
        /\ p \in {0, 100, 250, 333, 500, 875, 1000} /\ lo = p % 4 /\ hi \in {lo, lo + 1, 3}
        /\ lo <= hi
        /\ (Emitting => Emit([w |-> w, p |-> p, lo |-> lo, hi |-> hi]))
Next == UNCHANGED <<w, p, lo, hi>>
Spec == Init /\ [][Next]_<<w, p, lo, hi>>
Inv == /\ ByWeight(w, Quantile(w, p)) /\ Monotone(w, Quantile(w, p)) /\ SomeKept(w, p) /\ AllKeptAtZero(w)
       /\ ByWeight(w, Bound(w, lo, hi)) /\ Convex(w, lo, hi)
=============================================================================

------------------------------ MODULE MCSmooth ------------------------------
EXTENDS Smooth, TraceLib
CONSTANTS MaxRows, Emitting
VARIABLES d, y, T
Init == /\ \E n \in 1..MaxRows : d \in [1..n -> {1, 4}] /\ y \in [1..n -> {0, 3, 8}]
        /\ T \in {0, 1, 3}
        /\ (Emitting => Emit([d |-> d, y |-> y, T |-> T]))
RECURSIVE X(_)
X(i) == IF i = 1 THEN 0 ELSE X(i - 1) + d[i]
Xs == [i \in DOMAIN d |-> X(i)]
Next == UNCHANGED <<d, y, T>>
Spec == Init /\ [][Next]_<<d, y, T>>
Inv == Between(Xs, y, T) /\ ConstantStays(Xs, y, T) /\ Covers(Xs, y, T) /\ Continuous(Xs, y, T) /\ ZeroSpanKeeps(Xs, y)
=============================================================================

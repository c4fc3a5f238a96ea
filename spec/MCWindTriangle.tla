--------------------------- MODULE MCWindTriangle ---------------------------
EXTENDS WindTriangle, TraceLib
CONSTANTS N, Rows, Emitting
VARIABLES rows, start, k
V == -N..N
Init == /\ \E n \in 1..Rows : rows \in [1..n -> { <<u, v, b>> : u \in V, v \in V, b \in {0, 1, N} }]
        /\ start = rows /\ k = 0
        /\ (Emitting => Emit(rows))
Next == k < 3 /\ k' = k + 1 /\ UNCHANGED start /\ \E d \in {"apparent", "true"} : rows' = ConvRows(rows, d)
Spec == Init /\ [][Next]_<<rows, start, k>>
Inv == \A d \in {"apparent", "true"} :
   /\ ConvRows(ConvRows(rows, d), Other(d)) = rows
   /\ \A i \in DOMAIN rows : LET c == ConvRow(rows[i], d) IN
        /\ Sq(c) = Sq(rows[i]) + rows[i][3] * rows[i][3] + 2 * Sign(d) * Dot(rows[i])     \* law of cosines
        /\ c[2] = rows[i][2] /\ c[3] = start[i][3]                                          \* side and boat speed kept
=============================================================================

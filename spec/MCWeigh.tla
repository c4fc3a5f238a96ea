------------------------------- MODULE MCWeigh -------------------------------
EXTENDS Weigh, TraceLib
CONSTANTS MaxRows, Emitting
VARIABLES x, b, r
(* small clouds in one position coordinate and one height coordinate *)
Init == /\ \E n \in 1..MaxRows : x \in [1..n -> {0, 2, 5}] /\ b \in [1..n -> {0, 2, 17}]
        /\ r \in {1, 2, 3} /\ (Emitting => Emit([x |-> x, b |-> b, r |-> r]))
Cs == <<[k |-> "TWS", v |-> x]>>
L == [k |-> "BSP", v |-> b]
Next == UNCHANGED <<x, b, r>>
Spec == Init /\ [][Next]_<<x, b, r>>
W == MemberWeights(Cs, L, <<18>>, "max", r, 40)
Perm(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
Inv == /\ MembersInRange(W)
       /\ MemberWeights(<<[k |-> "TWS", v |-> Perm(x)]>>, [k |-> "BSP", v |-> Perm(b)], <<18>>, "max", r, 40) = Perm(W)
       /\ \A i \in DOMAIN b : Members(Cs, L, <<18>>, "max", r, 40, i) <= Members(Cs, L, <<18>>, "max", r + 1, 60, i)
       /\ \A i \in DOMAIN b : Factor(b, Window(x, r, 0, i), 4) \in 0..1000
=============================================================================

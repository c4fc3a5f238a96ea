---------------------------- MODULE MCMultiSails ----------------------------
EXTENDS MultiSails, TraceLib
CONSTANTS Emitting
VARIABLES s, given, has, k
Names == {"a", "b", "Sail 0", "Sail 1"}
Init == /\ \E n \in 1..3, m \in 0..3 :
             /\ given \in [1..m -> Names] /\ has \in BOOLEAN /\ (m > 0 => has)
             /\ s = Make(given, has, [i \in 1..n |-> i])
        /\ k = 0
        /\ (Emitting => Emit([n |-> Len(s.ids), given |-> given, has |-> has]))
Next == k < 1 /\ k' = 1 /\ UNCHANGED <<s, given, has>>
Spec == Init /\ [][Next]_<<s, given, has, k>>
Inv == /\ Len(s.names) = Len(s.ids)
       /\ \A i \in DOMAIN s.names : i <= Len(given) => s.names[i] = given[i]
       /\ \A n \in Names : LET r == Lookup(s, n) IN r.ok => s.names[r.id] = n
       /\ (\A i, j \in DOMAIN s.names : i # j => s.names[i] # s.names[j]) => \A i \in DOMAIN s.names : Lookup(s, s.names[i]).id = i
=============================================================================

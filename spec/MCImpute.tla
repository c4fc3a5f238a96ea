------------------------------ MODULE MCImpute ------------------------------
EXTENDS Impute, TraceLib
CONSTANTS MaxRows, Emitting
VARIABLES st, v, w
(* step: 0 no datetime, 1 near the row before, 2 far from it *)
Init == /\ \E n \in 0..MaxRows : /\ st \in [1..n -> 0..2] /\ v \in [1..n -> 0..1]
                                 /\ w \in {[i \in 1..n |-> 1], [i \in 1..n |-> i % 2], [i \in 1..n |-> 0]}
        /\ (Emitting => Emit([st |-> st, v |-> v, w |-> w]))
RECURSIVE TimeOf(_)
TimeOf(i) == IF i = 0 THEN 0 ELSE TimeOf(i - 1) + (IF st[i] = 2 THEN 4200 ELSE 420)
Tab == [dt |-> [i \in DOMAIN st |-> IF st[i] = 0 THEN N ELSE TimeOf(i)],
        cols |-> <<[k |-> "a", v |-> [i \in DOMAIN v |-> IF v[i] = 0 THEN N ELSE 40 + i * i]],
                   [k |-> "b", v |-> [i \in DOMAIN w |-> IF w[i] = 0 THEN N ELSE 7 * i]]>>]
Next == UNCHANGED <<st, v, w>>
Spec == Init /\ [][Next]_<<st, v, w>>
Good(r) == NothingMissing(r) /\ OriginalsKept(Tab, r) /\ TimesKept(Tab, r) /\ OrderKept(r) /\ CompleteRowsKept(Tab, r)
Inv == /\ \A max \in {421, 900, 2000} : \A m \in {"copy", "line"} :
            (\E i \in DOMAIN Tab.dt : Tab.dt[i] # N) => NothingMissing(Local(Tab, max, m)) /\ OriginalsKept(Tab, Local(Tab, max, m))
               /\ TimesKept(Tab, Local(Tab, max, m)) /\ OrderKept(Local(Tab, max, m))
               /\ ((\A c \in DOMAIN Tab.cols : NotNone(Tab.cols[c].v) # {}) => CompleteRowsKept(Tab, Local(Tab, max, m)))
       /\ ((\A i \in DOMAIN Tab.dt : Tab.dt[i] # N) => \A c \in DOMAIN Tab.cols : LocalOnly(Tab.dt, Tab.cols[c].v, 900, "line"))
       /\ Good(RemoveOnly(Tab))
=============================================================================

------------------------------ MODULE MCPersist ------------------------------
EXTENDS Persist, TraceLib
CONSTANTS Depth, Emitting, Rests
VARIABLES fs, last, hist
Paths == {<<"", "a", ".csv">>, <<"d", "a", ".csv">>, <<"", "b", ".csv">>} \cup { <<"", "a", r>> : r \in Rests }
Plain(c) == [kind |-> "plain", c |-> c]
Diagrams == {Plain(<<"t1">>), Plain(<<"t2">>)}
            \cup { [kind |-> "multi", names |-> <<"m", "j">>, subs |-> <<Plain(<<x>>), Plain(<<y>>)>>] : x \in {"t1", "t3"}, y \in {"t2"} }
            \cup { [kind |-> "multi", names |-> <<"g">>, subs |-> <<Plain(<<"t4">>)>>] }
Init == fs = <<>> /\ last = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E p \in Paths, d \in Diagrams : /\ fs' = Save(fs, p, d) /\ last' = (p :> d) @@ last
                                            /\ hist' = Append(hist, [p |-> p, d |-> d])
        /\ (Emitting /\ Len(hist') = Depth => Emit(hist'))
Spec == Init /\ [][Next]_<<fs, last, hist>>
Inv == /\ \A p \in DOMAIN last : LET r == Load(fs, p) IN r.ok /\ r.d = last[p]
       /\ \A p \in Paths \ DOMAIN last : ~Load(fs, p).ok
=============================================================================

---------------------------- MODULE MCWeatherUse ----------------------------
(* All lists of up to three models over all kinds of answers; and all tables of
   up to three rows over all patterns of available weather.                     *)
EXTENDS WeatherUse, TraceLib
VARIABLES kind, ans, opt
W1 == {<<>>, <<[a |-> "u", v |-> <<"f", 1>>]>>, <<[a |-> "v", v |-> <<"f", 2>>], [a |-> "u", v |-> <<"f", 3>>]>>}
Ans == [k : {"ok"}, w : W1] \cup [k : Ignorable \cup {"RuntimeError"}, w : {<<>>}]
Ans2 == [k : {"ok"}, w : W1] \cup [k : {"ValueError"}, w : {<<>>}]
Lists(S, n) == UNION { [1..m -> S] : m \in 0..n }
Init == \/ kind = "multi" /\ ans \in Lists(Ans, 3) /\ opt \in {"sens", "lax"} /\ Emit([kind |-> kind, ans |-> ans, opt |-> opt])
        \/ kind = "expand" /\ ans \in Lists(Ans2, 4) /\ opt \in {"delete", "ignore"} /\ Emit([kind |-> kind, ans |-> ans, opt |-> opt])
Next == UNCHANGED <<kind, ans, opt>>
Spec == Init /\ [][Next]_<<kind, ans, opt>>
(* design properties *)
MultiInv == kind = "multi" => LET r == Multi(ans, opt = "sens") IN
   /\ (opt = "lax" /\ \A i \in DOMAIN ans : ans[i].k \in Ignorable \cup {"ok"}) => r.k = "ok"
   /\ r.k = "ok" => /\ AttrSet(r.w) = AttrsOf(SelectSeq(ans, LAMBDA x : x.k = "ok"))
                    /\ Cardinality(AsSet(r)) = Cardinality(AttrSet(r.w))
                    /\ \A a \in AttrSet(r.w) : LET js == { j \in DOMAIN ans : ans[j].k = "ok" /\ a \in AttrSet(ans[j].w) } IN
                         \A j \in js : (\A j2 \in js : j2 <= j) => ValOf(r.w, a) = ValOf(ans[j].w, a)
ExpandInv == kind = "expand" => \A a \in AttrsOf(ans) :
   /\ Len(WeatherCol(ans, opt, a)) = Cardinality(KeepIdx(ans, opt))
   /\ opt = "ignore" => Len(WeatherCol(ans, opt, a)) = Len(ans)
=============================================================================

--------------------------- MODULE TraceWeighted ---------------------------
EXTENDS Weighted, TraceLib
VARIABLES l, s
S0 == [kind |-> "", keys |-> <<>>, rows |-> <<>>, ws |-> <<>>]
SameP(o, want) == /\ o.ws = want.ws
                  /\ Len(o.rows) = Len(want.rows)
                  /\ (want.kind # "array" => Range(o.keys) = Range(want.keys) /\ Len(o.keys) = Len(want.keys))
                  /\ (want.kind = "array" /\ want.rows # <<>> => Len(o.keys) = Len(want.keys))
                  /\ \A i \in DOMAIN want.rows : o.rows[i] = (IF want.kind = "array" THEN want.rows[i] ELSE [j \in DOMAIN o.keys |-> want.rows[i][Pos(want.keys, o.keys[j])]])
(* the points given and the objects passed on the way are nobody else's         *)
Bad(p, e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE Clause("others-unchanged", e.was = e.now) \cup
       CASE e.op = "make" -> Clause("made", e.out = "ok") \cup Clause("points-and-weights", e.out = "ok" => SameP(e.obs, e.p))
         [] e.op = "mask" -> Clause("masked", e.out = "ok") \cup Clause("mask", e.out = "ok" => SameP(e.obs, Mask(p, e.m)))
                         \cup Clause("original-unchanged", SameP(e.orig, p))
         [] OTHER -> Clause("extended", e.out = "ok") \cup Clause("extension", e.out = "ok" => SameP(e.obs, Extend(p, e.q)))
                         \cup Clause("other-unchanged", SameP(e.other, e.q))
Step(p, e) == IF e.out = "ok" THEN e.obs ELSE p
Init == l = 1 /\ s = S0
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] p == IF e.new THEN S0 ELSE s IN Report(l, Bad(p, e)) /\ s' = Step(p, e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================

---------------------------- MODULE TraceAlias ----------------------------
(* An event is a step [op, h], the outcome, the kinds of the handles it created
   and, for every handle in existence, the number of its observed content
   (equal numbers: equal contents).                                            *)
EXTENDS Alias, TraceLib
VARIABLES i, s
S0 == [kind |-> <<>>, dig |-> <<>>]
Pre(e) == IF e.new THEN S0 ELSE s
Hit(e, h) == e.dig[h] # Pre(e).dig[h]
(* which kind of interference a changed handle is                                *)
Name(e, h) == LET k == Pre(e).kind[h] IN
  CASE k = "lib" /\ e.op = "touch" -> "change-by-the-caller-reaches-an-object"
    [] k = "lib" /\ h = e.h -> "evaluation-changes-the-object"
    [] k = "lib" -> "operation-changes-another-object"
    [] e.op = "touch" -> "returned-values-share-state"
    [] k = "caller" -> "arguments-kept-and-changed-later"
    [] OTHER -> "returned-values-kept-and-changed-later"
Bad(e) == LET p == Pre(e) n == Len(p.kind) IN
  UNION { Clause(Name(e, h), h = Target(e) \/ ~Hit(e, h)) : h \in 1..n }
  \cup Clause("modifies-what-is-passed-in", ~e.argch)
  \cup Clause("operation-fails", e.out = "ok")
  \cup Clause("unknown-step", e.op = "make" \/ (e.h \in 1..n /\ (e.op = "touch") = (p.kind[e.h] # "lib")))
Init == i = 0 /\ s = S0
Next == /\ i < Len(Trace)
        /\ i' = i + 1
        /\ LET e == Trace[i'] IN /\ Report(i', Bad(e))
                                 /\ s' = [kind |-> Pre(e).kind \o e.made, dig |-> e.dig]
Spec == Init /\ [][Next]_<<i, s>>
=============================================================================

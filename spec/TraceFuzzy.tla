------------------------------ MODULE TraceFuzzy ------------------------------
EXTENDS Fuzzy, TraceLib
VARIABLES l, s
S0 == [vs |-> <<>>, fs |-> <<>>]
Step(z, e) ==
  LET y == IF e.new THEN S0 ELSE z IN
  IF e.out # "ok" THEN y ELSE
  CASE e.op = "var" -> [y EXCEPT !.vs = NewVar(@, e.s, e.k)]
    [] e.op = "call" -> [y EXCEPT !.vs = Call(@, e.v, e.s)]
    [] e.op = "cmp" -> [vs |-> Used(y.vs, e.v), fs |-> Append(y.fs, Statement(y.vs, e.v, e.o, e.t))]
    [] e.op = "crisp" -> [y EXCEPT !.fs = Append(@, [o |-> "crisp", t |-> e.t, k |-> e.k])]
    [] e.op \in {"and", "or"} -> [y EXCEPT !.fs = Append(@, [o |-> e.op, l |-> y.fs[e.a], r |-> y.fs[e.b]])]
    [] e.op = "not" -> [y EXCEPT !.fs = Append(@, NotF(y.fs[e.a]))]
    [] OTHER -> y
(* what a statement looks like in print: the sharpness is not shown, >= and <= are shown as > and < *)
RECURSIVE Same(_, _, _)
Same(f, t, keyed) ==
  CASE f.o \in {"and", "or"} -> t.o = f.o /\ Same(f.l, t.l, keyed) /\ Same(f.r, t.r, keyed)
    [] f.o = "not" -> t.o = "not" /\ Same(f.l, t.l, keyed)
    [] f.o = "crisp" -> t.o = "crisp"
    [] OTHER -> /\ t.o = f.o \/ (f.o = "ge" /\ t.o = "gt") \/ (f.o = "le" /\ t.o = "lt")
                /\ t.t = f.t
                /\ t.k = IF keyed THEN f.k ELSE ""
Bad(z, e) ==
  IF e.out # "ok" THEN {"accepted"}
  ELSE IF e.op \in {"eval", "weigh"} THEN
         (* all: the truth values of every statement made so far (weigh: of one of them) at every point *)
         Clause("one-value-per-point", \A i \in DOMAIN e.vals : Len(e.vals[i]) = Len(e.pts))
         \cup (IF \E i \in DOMAIN e.vals : Len(e.vals[i]) # Len(e.pts) THEN {} ELSE
               Clause("truth-value", \A i \in DOMAIN e.vals, j \in DOMAIN e.pts :
                        Abs(e.vals[i][j] - Truth(z.fs[e.of[i]], e.pts[j])) <= 1)
               \cup Clause("range", \A i \in DOMAIN e.vals, j \in DOMAIN e.pts : e.vals[i][j] \in 0..10000))
         \cup Clause("points-kept", e.kept)
       ELSE IF e.op = "print" THEN Clause("printed", \A i \in DOMAIN e.of : Same(z.fs[e.of[i]], e.trees[i], e.keyed))
       ELSE {}
Init == l = 1 /\ s = S0
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] y == IF e.new THEN S0 ELSE s IN Report(l, Bad(y, e)) /\ s' = Step(s, e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================

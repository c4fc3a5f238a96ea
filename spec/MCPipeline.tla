----------------------------- MODULE MCPipeline -----------------------------
EXTENDS Pipeline, TraceLib
CONSTANTS Emitting
VARIABLES c, calls, got
(* small environments: data set d has the rows 10 d + 1 .. ; components may drop the first row *)
Switches == [{"sm", "w1", "f1", "w2", "f2", "w3", "f3", "inj", "test"} -> BOOLEAN]
Explored(en) == /\ (en.w1 = en.f1) /\ (en.w2 # en.f2) /\ (en.w3 \/ ~en.f3) /\ en.sm = en.inj /\ en.w1 = ~en.w2
Init == /\ \E en \in Switches, nt \in {1, 2}, ne \in {0, 1} :
             (en.test <=> ne > 0) /\ c = Start(en, nt, ne) /\ (Emitting => Emit([en |-> en, nt |-> nt, ne |-> ne]))
        /\ calls = [st \in {"handle", "impute", "sm", "w1", "f1", "expand", "w2", "f2", "fit", "remove", "w3", "f3", "inj", "extend", "check"} |-> 0] /\ got = [r \in {"fit", "ext", "check"} |-> <<>>]
W(k, r) == k * 1000 + r
WS(k, rows) == [i \in DOMAIN rows |-> W(k, rows[i])]
Raw(d) == IF d = 1 THEN <<11, 12>> ELSE <<10 * d + 1>>
Masks(n) == IF n = 0 THEN {<<>>} ELSE { [i \in 1..n |-> TRUE], [i \in 1..n |-> i # 1] }
E0(st) == [c |-> st, n |-> 1, in |-> <<>>, win |-> <<>>, out |-> <<>>, w |-> <<>>, mask |-> <<>>, d |-> 0, pd |-> 0]
DsEvents(d) == LET x == c.ds[d] e == E0(x.st) IN
  CASE x.st = "handle" -> {[e EXCEPT !.d = d, !.out = Raw(d)]}
    [] x.st = "impute" -> { [e EXCEPT !.in = x.rows, !.out = Mask(x.rows, m)] : m \in Masks(Len(x.rows)) }
    [] x.st \in {"sm", "expand"} -> {[e EXCEPT !.in = x.rows, !.out = x.rows]}
    [] x.st \in {"w1", "w2"} -> {[e EXCEPT !.in = x.rows, !.w = WS(IF x.st = "w1" THEN 1 ELSE 2, x.rows)]}
    [] x.st \in {"f1", "f2"} -> { [e EXCEPT !.win = x.w, !.mask = m] : m \in Masks(Len(x.rows)) }
    [] OTHER -> {}
GEvents(t) == LET x == c.g[t] st == IF x.st = "wait" THEN (IF t = "train" THEN "fit" ELSE "remove") ELSE x.st e == E0(st) IN
  IF ~AllReady(c, t) \/ (t = "test" /\ c.ne = 0) THEN {} ELSE
  CASE st = "fit" -> {[e EXCEPT !.in = GroupRows(c, t)]}
    [] st = "remove" -> {[e EXCEPT !.in = GroupRows(c, t), !.out = GroupRows(c, t)]}
    [] st = "w3" -> {[e EXCEPT !.in = x.rows, !.w = WS(3, x.rows)]}
    [] st = "f3" -> { [e EXCEPT !.win = x.w, !.mask = m] : m \in Masks(Len(x.rows)) }
    [] OTHER -> {}
FinEvents == LET x == c.g["train"] IN
   {[E0("inj") EXCEPT !.in = x.rows, !.win = Weights(x), !.out = <<99>>, !.w = <<7>>],
    [E0("extend") EXCEPT !.in = x.rows \o c.inj, !.win = Weights(x) \o c.injw],
    [E0("check") EXCEPT !.in = c.g["test"].rows, !.pd = c.gstat["train"].extend]}
Events == UNION { DsEvents(d) : d \in DOMAIN c.ds } \cup GEvents("train") \cup GEvents("test") \cup FinEvents
Next == /\ Explored(c.en)
        /\ \E e \in Events : /\ c' \in Succ(c, e)
                             /\ calls' = [calls EXCEPT ![e.c] = @ + 1]
                             /\ got' = CASE e.c = "fit" -> [got EXCEPT !.fit = e.in]
                                         [] e.c = "extend" -> [got EXCEPT !.ext = [i \in DOMAIN e.in |-> <<e.in[i], e.win[i]>>]]
                                         [] e.c = "check" -> [got EXCEPT !.check = e.in]
                                         [] OTHER -> got
Spec == Init /\ [][Next]_<<c, calls, got>>
Training(r) == r < 10 * (c.nt + 1)
Count(st) == calls[st]
Inv == /\ \A i \in DOMAIN got.fit : Training(got.fit[i])
       /\ \A i \in DOMAIN got.ext : LET r == got.ext[i][1] w == got.ext[i][2] IN
            \/ r = 99 /\ w = 7 /\ c.en.inj
            \/ Training(r) /\ w = IF c.en.w3 THEN W(3, r) ELSE 1
       /\ \A i \in DOMAIN got.check : ~Training(got.check[i])
       /\ Finished(c) => /\ Count("extend") = 1 /\ Count("fit") = 1 /\ Count("check") = (IF c.en.test THEN 1 ELSE 0)
                         /\ Count("inj") = (IF c.en.inj THEN 1 ELSE 0)
                         /\ Count("impute") = c.nt + c.ne /\ Count("handle") = c.nt + c.ne
                         /\ Count("sm") = (IF c.en.sm THEN c.nt + c.ne ELSE 0)
                         /\ (~c.en.w1 => Count("w1") = 0) /\ (~c.en.f3 => Count("f3") = 0)
       (* the run can always go on until it is finished or there is no training data left *)
       /\ Explored(c.en) => (Finished(c) \/ EmptyTraining(c) \/ \E e \in Events : Succ(c, e) # {})
=============================================================================

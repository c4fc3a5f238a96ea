------------------------------ MODULE Pipeline ------------------------------
(* Orchestration of the polar pipeline.  Rows are identified by numbers; every
   component is an arbitrary environment whose outputs come with the event.
   en   switches: sm w1 f1 w2 f2 w3 f3 inj test   (w1/f1 before the expander,
        w2/f2 before the influence model, w3/f3 after it)
   One run over nt training and ne test data sets:
     per data set   handle impute [sm] [w1] [f1] expand [w2] [f2] ready
     per group      wait [fit] remove [w3] [f3] done   (all its data sets together)
     then           [inj] extend            on the training group only
                    check                    with the diagram, on the test group
   Weighers and filters are not applied to empty data; a filter gets the weights
   of the weigher before it (ones if that is switched off).                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Chain == <<"handle", "impute", "sm", "w1", "f1", "expand", "w2", "f2", "ready">>
GChain == <<"wait", "fit", "remove", "w3", "f3", "done">>
On(en, st, rows) == CASE st = "sm" -> en.sm
                      [] st \in {"w1", "f1", "w2", "f2", "w3", "f3"} -> en[st] /\ rows # <<>>
                      [] OTHER -> TRUE
Pos(ch, st) == CHOOSE i \in DOMAIN ch : ch[i] = st
RECURSIVE NextOn(_, _, _, _)
NextOn(en, ch, i, rows) == IF On(en, ch[i], rows) THEN ch[i] ELSE NextOn(en, ch, i + 1, rows)
After(en, ch, st, rows) == NextOn(en, ch, Pos(ch, st) + 1, rows)
Ones(rows) == [i \in DOMAIN rows |-> 1]
RECURSIVE Mask(_, _)
Mask(q, m) == IF q = <<>> THEN <<>> ELSE (IF Head(m) THEN <<Head(q)>> ELSE <<>>) \o Mask(Tail(q), Tail(m))
Start(en, nt, ne) ==
  [en |-> en, nt |-> nt, ne |-> IF en.test THEN ne ELSE 0,
   ds |-> [d \in 1..(nt + IF en.test THEN ne ELSE 0) |-> [st |-> "handle", rows |-> <<>>, w |-> <<>>]],
   g |-> [t \in {"train", "test"} |-> [st |-> "wait", rows |-> <<>>, w |-> <<>>]],
   fin |-> "no", inj |-> <<>>, injw |-> <<>>, checked |-> FALSE,
   stat |-> [d \in 1..(nt + ne) |-> [st \in {"handle", "impute", "sm", "w1", "f1", "expand", "w2", "f2"} |-> 0]],
   gstat |-> [t \in {"train", "test"} |-> [st \in {"fit", "remove", "w3", "f3", "inj", "extend", "check"} |-> 0]]]
Group(c, d) == IF d <= c.nt THEN "train" ELSE "test"
Members(c, t) == IF t = "train" THEN 1..c.nt ELSE (c.nt + 1)..(c.nt + c.ne)
RECURSIVE Concat(_, _, _)
Concat(c, a, b) == IF a > b THEN <<>> ELSE c.ds[a].rows \o Concat(c, a + 1, b)
GroupRows(c, t) == IF t = "train" THEN Concat(c, 1, c.nt) ELSE Concat(c, c.nt + 1, c.nt + c.ne)
AllReady(c, t) == \A d \in Members(c, t) : c.ds[d].st = "ready"

(* e = [c |-> stage, n |-> number of the call, in, win, out, w, mask, d] ; the set of states after e *)
Move(en, ch, x, st, rows, w) ==      \* rows is what the stage leaves behind
  LET nx == After(en, ch, st, rows) IN
  [st |-> nx, rows |-> rows, w |-> IF nx \in {"f1", "f2", "f3"} /\ w = <<>> THEN Ones(rows) ELSE w]
DsStep(c, d, e) ==
  LET x == c.ds[d] IN
  IF x.st # e.c THEN {}
  ELSE IF (IF e.c = "handle" THEN e.d # d ELSE IF e.c \in {"f1", "f2"} THEN x.w # e.win ELSE x.rows # e.in) THEN {}
  ELSE LET rows == IF e.c \in {"w1", "w2"} THEN x.rows ELSE IF e.c \in {"f1", "f2"} THEN Mask(x.rows, e.mask) ELSE e.out
           w == IF e.c \in {"w1", "w2"} THEN e.w ELSE <<>>
       IN {[c EXCEPT !.ds[d] = Move(c.en, Chain, x, e.c, rows, w), !.stat[d][e.c] = e.n]}
GStep(c, t, e) ==
  LET x == c.g[t] rows0 == GroupRows(c, t)
      st == IF x.st = "wait" THEN (IF t = "train" THEN "fit" ELSE "remove") ELSE x.st
      fitted == c.g["train"].st \notin {"wait", "fit"}
  IN IF st # e.c \/ ~AllReady(c, t) THEN {}
     ELSE IF e.c = "fit" THEN IF e.in # rows0 THEN {} ELSE {[c EXCEPT !.g[t].st = "remove", !.gstat[t].fit = e.n]}
     ELSE IF e.c = "remove" THEN IF e.in # rows0 \/ ~fitted THEN {}
          ELSE {[c EXCEPT !.g[t] = Move(c.en, GChain, x, "remove", e.out, <<>>), !.gstat[t].remove = e.n]}
     ELSE IF e.c = "w3" THEN IF e.in # x.rows THEN {}
          ELSE {[c EXCEPT !.g[t] = [Move(c.en, GChain, x, "w3", x.rows, e.w) EXCEPT !.w = e.w], !.gstat[t].w3 = e.n]}
     ELSE IF e.c = "f3" THEN IF e.win # x.w THEN {}
          ELSE {[c EXCEPT !.g[t] = [st |-> "done", rows |-> Mask(x.rows, e.mask), w |-> Mask(x.w, e.mask)], !.gstat[t].f3 = e.n]}
     ELSE {}
Weights(x) == IF x.w = <<>> THEN Ones(x.rows) ELSE x.w
FinStep(c, e) ==
  LET x == c.g["train"] y == c.g["test"] IN
  CASE e.c = "inj" -> IF c.en.inj /\ x.st = "done" /\ x.rows # <<>> /\ c.fin = "no" /\ e.in = x.rows /\ e.win = Weights(x)
                      THEN {[c EXCEPT !.fin = "inj", !.inj = e.out, !.injw = e.w, !.gstat["train"].inj = e.n]} ELSE {}
    [] e.c = "extend" -> IF x.st = "done" /\ x.rows # <<>> /\ c.fin = (IF c.en.inj THEN "inj" ELSE "no")
                            /\ e.in = x.rows \o c.inj /\ e.win = Weights(x) \o c.injw
                         THEN {[c EXCEPT !.fin = "ext", !.gstat["train"].extend = e.n]} ELSE {}
    [] e.c = "check" -> IF c.en.test /\ c.fin = "ext" /\ y.st = "done" /\ e.pd = c.gstat["train"].extend /\ e.in = y.rows /\ ~c.checked
                        THEN {[c EXCEPT !.checked = TRUE, !.gstat["train"].check = e.n]} ELSE {}
    [] OTHER -> {}
Succ(c, e) ==
  IF e.c \in {"handle", "impute", "sm", "w1", "f1", "expand", "w2", "f2"} THEN UNION { DsStep(c, d, e) : d \in DOMAIN c.ds }
  ELSE IF e.c \in {"fit", "remove", "w3", "f3"} THEN UNION { GStep(c, t, e) : t \in (IF c.ne > 0 THEN {"train", "test"} ELSE {"train"}) }
  ELSE FinStep(c, e)
Finished(c) == c.fin = "ext" /\ (c.en.test => c.checked)
EmptyTraining(c) == c.g["train"].st = "done" /\ c.g["train"].rows = <<>>
=============================================================================

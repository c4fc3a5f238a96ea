-------------------------------- MODULE Cloud --------------------------------
(* The point cloud as a sequence of points <<ws, wa, bsp>> in quarter units.
   Apparent wind straight from ahead (0) or astern (720 quarter degrees) is
   converted exactly: the apparent wind is the true wind plus the headwind.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CFULL == 1440
NormC(p) == <<p[1], p[2] % CFULL, p[3]>>
Conv(p) == LET a == p[2] % CFULL IN
  IF a = 0 THEN IF p[1] >= p[3] THEN <<p[1] - p[3], 0, p[3]>> ELSE <<p[3] - p[1], 720, p[3]>>
  ELSE <<p[1] + p[3], 720, p[3]>>
NormCs(q) == [i \in DOMAIN q |-> NormC(q[i])]
Convs(q) == [i \in DOMAIN q |-> Conv(q[i])]
Neg(q) == \E i \in DOMAIN q : q[i][1] < 0
NonPos(q) == \E i \in DOMAIN q : q[i][1] <= 0
NotNeg(p) == p[1] >= 0
OkC(c) == [ok |-> TRUE, c |-> c]
NoC(c) == [ok |-> FALSE, c |-> c]
MakeC(c, q, app, fin) == IF ~fin \/ (app /\ Neg(q)) THEN NoC(c)
                         ELSE OkC(IF app THEN Convs(q) ELSE NormCs(SelectSeq(q, NotNeg)))
AddC(c, q, app, fin) == IF ~fin \/ (app /\ Neg(q)) \/ (~app /\ NonPos(q)) THEN NoC(c)
                        ELSE OkC(c \o (IF app THEN Convs(q) ELSE NormCs(q)))
ApplyC(c, o) == CASE o.op = "make" -> MakeC(c, o.pts, o.app, o.fin)
                  [] o.op = "add" -> AddC(c, o.pts, o.app, o.fin)
                  [] OTHER -> OkC(c)
RangeC(q) == { q[i] : i \in DOMAIN q }
ColC(c, k) == { c[i][k] : i \in DOMAIN c }
RankC(S, x) == Cardinality({y \in S : y < x}) + 1
SortedC(S) == [r \in 1..Cardinality(S) |-> CHOOSE x \in S : RankC(S, x) = r]
CAbs(a) == IF a < 0 THEN -a ELSE a
SliceC(c, w, r) == SelectSeq(c, LAMBDA p : CAbs(p[1] - w) <= r)
HitsC(c, w, a) == { i \in DOMAIN c : c[i][1] = w /\ c[i][2] = a % CFULL }
BoxC(c, w, a, r) == SelectSeq(c, LAMBDA p : CAbs(p[1] - w) <= r /\ CAbs(p[2] - (a % CFULL)) <= r)
CloudOK(c) == \A i \in DOMAIN c : c[i][1] >= 0 /\ c[i][2] \in 0..(CFULL - 1)
=============================================================================

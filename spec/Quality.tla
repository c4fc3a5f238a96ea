------------------------------ MODULE Quality ------------------------------
(* Quality assurance of a diagram against test points <<ws, wa, bsp>> (quarters).
   The diagram is F(ws, wa) = a*ws + c + (b if wa is beyond 180 degrees), or a
   curve, for which 360 degrees are 0 (per); residuals are exact integers in quarters.        *)
EXTENDS Integers, Sequences, FiniteSets

QAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE QSum(_)
QSum(q) == IF q = <<>> THEN 0 ELSE Head(q) + QSum(Tail(q))
Side(wa) == IF wa % 1440 > 720 \/ (wa > 720 /\ wa % 1440 = 0) THEN 1 ELSE 0
F(d, ws, wa) == d.a * ws + d.c + d.b * Side(IF d.per THEN wa % 1440 ELSE wa)
Residuals(d, T) == [i \in DOMAIN T |-> QAbs(T[i][3] - F(d, T[i][1], T[i][2]))]
Hi(q) == CHOOSE x \in { q[i] : i \in DOMAIN q } : \A i \in DOMAIN q : q[i] <= x
Lo(q) == CHOOSE x \in { q[i] : i \in DOMAIN q } : \A i \in DOMAIN q : q[i] >= x
Sqr(q) == [i \in DOMAIN q |-> q[i] * q[i]]
(* |speed| dead ahead (0 and 360 degrees) at the 20 wind speeds 20k/19, in 19ths
   of a quarter                                                               *)
Ahead(d) == [j \in 1..40 |-> LET k == (j - 1) \div 2 IN QAbs(d.a * 80 * k + 19 * (d.c + d.b * Side(IF j % 2 = 1 \/ d.per THEN 0 ELSE 1440)))]
(* test points are counted once per cell of the integer grid (no halves occur) *)
Near(k) == (k + 1) \div 4
Cells(T) == { <<Near(T[i][1]), Near(T[i][2])>> : i \in DOMAIN T }
Spread(T, c) == LET S == { T[i][3] : i \in { i \in DOMAIN T : <<Near(T[i][1]), Near(T[i][2])>> = c } } IN
                (CHOOSE x \in S : \A y \in S : y <= x) - (CHOOSE x \in S : \A y \in S : x <= y)
RECURSIVE SpreadSum(_, _)
SpreadSum(T, C) == IF C = {} THEN 0 ELSE LET c == CHOOSE c \in C : TRUE IN Spread(T, c) + SpreadSum(T, C \ {c})
=============================================================================

-------------------------------- MODULE Curve --------------------------------
(* A polar diagram curve: a function of the wind speed, the wind angle and its
   parameters.  Wind speeds in quarters, angles in quarter degrees, values in
   32nds.  The family used: b = p1 + p2 ws + p3 wa + p4 ws ws (wa in degrees).*)
EXTENDS Integers, Sequences, FiniteSets, TLC
UFULL == 1440
F(p, w, a) == 32 * p[1] + 8 * p[2] * w + 8 * p[3] * a + 2 * p[4] * w * w
At(cv, w, a) == LET x == a % UFULL IN
   IF cv.sym THEN (F(cv.p, w, x) + F(cv.p, w, UFULL - x)) \div 2 ELSE F(cv.p, w, x)
Sym(cv) == [cv EXCEPT !.sym = TRUE]
(* evenly spaced angles from 0 to 360 *)
Angle(k, n) == IF n = 1 THEN 0 ELSE ((k - 1) * UFULL) \div (n - 1)
SliceU(cv, w, n) == [k \in 1..n |-> <<w, Angle(k, n), At(cv, w, Angle(k, n))>>]
=============================================================================

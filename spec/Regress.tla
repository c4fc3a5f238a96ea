------------------------------ MODULE Regress ------------------------------
(* Least squares fits of model functions linear in their parameters.  Data is a
   sequence of integers <<ws, wa, bsp>>; parameters are in fixed point (thousandths).
   Parameters are optimal iff the residuals are orthogonal to every basis function
   (the normal equations); for data generated by the family they are zero.
   A regressor's state is the data of its last fit.                            *)
EXTENDS Integers, Sequences, FiniteSets

RAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE RSum(_)
RSum(q) == IF q = <<>> THEN 0 ELSE Head(q) + RSum(Tail(q))
Fixed == 1000
Basis(fam, x, y) == CASE fam = "const" -> <<1>>
                      [] fam = "scale" -> <<x>>
                      [] fam = "plane" -> <<1, x, y>>
                      [] fam = "product" -> <<1, x, x * y>>
                      [] OTHER -> <<x, x * x, y>>   \* "parabola"
Phi(fam, t) == Basis(fam, t[1], t[2])
Value(fam, p, t) == RSum([j \in DOMAIN p |-> p[j] * Phi(fam, t)[j]])
Residual(fam, p, t) == Fixed * t[3] - Value(fam, p, t)
NormalEq(fam, p, T, k) == RSum([i \in DOMAIN T |-> Residual(fam, p, T[i]) * Phi(fam, T[i])[k]])
(* parameters are rounded to thousandths *)
Slack(fam, T, k) == RSum([i \in DOMAIN T |-> RAbs(Phi(fam, T[i])[k]) * (RSum([j \in DOMAIN Phi(fam, T[i]) |-> RAbs(Phi(fam, T[i])[j])]) + 1)])
Optimal(fam, p, T) == Len(p) = Len(Basis(fam, 1, 1)) /\ \A k \in DOMAIN p : RAbs(NormalEq(fam, p, T, k)) <= Slack(fam, T, k)
=============================================================================

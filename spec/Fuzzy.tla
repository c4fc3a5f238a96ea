-------------------------------- MODULE Fuzzy --------------------------------
(* Fuzzy variables and fuzzy truth statements (hrosailing.processing.weigher).
   Variables are cells (standard sharpness, sharpness of the next comparison,
   attribute); comparisons create leaves, and/or/not create trees of leaves.
   Numbers: values and thresholds in quarters, sharpness in halves, truth values
   in 1/10000.                                                                *)
EXTENDS Integers, Sequences
(* the logistic function at k/8, k = 0 .. 88 *)
Logistic == <<
  5000, 5312, 5622, 5927, 6225, 6514, 6792, 7058, 7311, 7549, 7773, 7982, 8176, 8355, 8520, 8670,
  8808, 8933, 9047, 9149, 9241, 9325, 9399, 9466, 9526, 9579, 9627, 9669, 9707, 9740, 9770, 9797,
  9820, 9841, 9859, 9876, 9890, 9903, 9914, 9924, 9933, 9941, 9948, 9954, 9959, 9964, 9968, 9972,
  9975, 9978, 9981, 9983, 9985, 9987, 9988, 9990, 9991, 9992, 9993, 9994, 9994, 9995, 9996, 9996,
  9997, 9997, 9997, 9998, 9998, 9998, 9998, 9999, 9999, 9999, 9999, 9999, 9999, 9999, 9999, 9999,
  10000, 10000, 10000, 10000, 10000, 10000, 10000, 10000, 10000 >>
Sig(k) == IF k >= 0 THEN (IF k > 88 THEN 10000 ELSE Logistic[k + 1])
          ELSE (IF k < -88 THEN 0 ELSE 10000 - Logistic[1 - k])
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a < b THEN b ELSE a

(* a leaf compares the value x with its threshold *)
Leaf(f, x) == CASE f.o \in {"gt", "ge"} -> Sig(f.s * (x - f.t))
               [] f.o \in {"lt", "le"} -> Sig(f.s * (f.t - x))
               [] f.o = "eq" -> Lo(Sig(f.s * (x - f.t)), Sig(f.s * (f.t - x)))
               [] f.o = "crisp" -> IF x >= f.t THEN 10000 ELSE 0      \* a statement given as a function
(* p: values of the attributes; a leaf looks at the attribute of its variable *)
RECURSIVE Truth(_, _)
Truth(f, p) == CASE f.o = "and" -> Lo(Truth(f.l, p), Truth(f.r, p))
                [] f.o = "or" -> Hi(Truth(f.l, p), Truth(f.r, p))
                [] f.o = "not" -> 10000 - Truth(f.l, p)
                [] OTHER -> Leaf(f, p[f.k])

(* ---- transitions: vs is the sequence of variables, fs the sequence of statements *)
NewVar(vs, s, k) == Append(vs, [def |-> s, nxt |-> s, k |-> k])
Call(vs, v, s) == [vs EXCEPT ![v].nxt = s]
Statement(vs, v, o, t) == [o |-> o, t |-> t, s |-> vs[v].nxt, k |-> vs[v].k]
Used(vs, v) == [vs EXCEPT ![v].nxt = vs[v].def]

(* ---- properties *)
InRange(f, p) == Truth(f, p) \in 0..10000
Near(a, b) == a - b \in -1..1
NotF(f) == [o |-> "not", l |-> f]
AndF(f, g) == [o |-> "and", l |-> f, r |-> g]
OrF(f, g) == [o |-> "or", l |-> f, r |-> g]
DeMorgan(f, g, p) == Truth(NotF(AndF(f, g)), p) = Truth(OrF(NotF(f), NotF(g)), p)
Commutes(f, g, p) == Truth(AndF(f, g), p) = Truth(AndF(g, f), p) /\ Truth(OrF(f, g), p) = Truth(OrF(g, f), p)
DoubleNegation(f, p) == Truth(NotF(NotF(f)), p) = Truth(f, p)
Side(f, x) == CASE f.o \in {"gt", "ge"} -> (Leaf(f, x) >= 5000) <=> (x >= f.t)
               [] f.o \in {"lt", "le"} -> (Leaf(f, x) >= 5000) <=> (x <= f.t)
               [] f.o = "eq" -> (Leaf(f, x) = 5000) <=> (x = f.t)
               [] OTHER -> TRUE
Monotone(f, x, y) == x <= y => CASE f.o \in {"gt", "ge", "crisp"} -> Leaf(f, x) <= Leaf(f, y)
                                 [] f.o \in {"lt", "le"} -> Leaf(f, x) >= Leaf(f, y)
                                 [] OTHER -> TRUE
Table == /\ \A k \in 1..88 : Logistic[k] <= Logistic[k + 1]
         /\ Logistic[1] = 5000
         (* odds grow by the factor exp(1/8) = 1.1331 per step (checked where the rounding allows) *)
         /\ \A k \in 1..40 : LET a == Logistic[k] b == Logistic[k + 1] IN
              ((b * (10000 - a)) \div 10000) - (((a * (10000 - b)) \div 10000) * 11331) \div 10000 \in -3..3
=============================================================================

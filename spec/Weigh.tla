-------------------------------- MODULE Weigh --------------------------------
(* Weights of points.  Points are a sequence of columns [k, v] (v integers in
   quarters) with the same number of rows.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
WAbs(a) == IF a < 0 THEN -a ELSE a
WMax(a, b) == IF a > b THEN a ELSE b
RECURSIVE WSum(_)
WSum(q) == IF q = <<>> THEN 0 ELSE Head(q) + WSum(Tail(q))
(* scale of an attribute in 1/360 (table of suggested scale factors) *)
Scale(k) == CASE k \in {"TWS", "AWS"} -> 18 [] k \in {"TWA", "AWA", "lat", "lon"} -> 1 [] k \in {"BSP", "SOG"} -> 9 [] OTHER -> 360
(* distance of rows i, j in the columns cs; r is in quarters for norms max and l1,
   in 1/2880 for the standard scaled euclidean norm                              *)
RECURSIVE SumSq(_, _, _, _)
SumSq(cs, sc, i, j) == IF cs = <<>> THEN 0 ELSE LET d == Head(sc) * (Head(cs).v[i] - Head(cs).v[j]) IN d * d + SumSq(Tail(cs), Tail(sc), i, j)
Near(cs, sc, norm, r, i, j) ==
  CASE norm = "max" -> \A c \in DOMAIN cs : WAbs(cs[c].v[i] - cs[c].v[j]) <= r
    [] norm = "l1" -> WSum([c \in DOMAIN cs |-> WAbs(cs[c].v[i] - cs[c].v[j])]) <= r
    [] OTHER -> 4 * SumSq(cs, sc, i, j) <= r * r
Rows(cs) == IF cs = <<>> THEN {} ELSE DOMAIN cs[1].v
(* number of other points in the cylinder around row i; h in 1/80 *)
Members(cs, last, sc, norm, r, h, i) ==
  Cardinality({ j \in Rows(<<last>>) : j # i /\ Near(cs, sc, norm, r, i, j) /\ 20 * WAbs(last.v[i] - last.v[j]) <= h })
MemberWeights(cs, last, sc, norm, r, h) ==   \* rationals
  LET m == [i \in DOMAIN last.v |-> Members(cs, last, sc, norm, r, h, i)]
      mx == CHOOSE x \in { m[i] : i \in DOMAIN m } : \A i \in DOMAIN m : m[i] <= x
  IN [i \in DOMAIN m |-> IF mx = 0 THEN <<0, 1>> ELSE <<m[i], mx>>]
(* squared deviation |mean - b|^2 / var of the cylinder of row i, as a rational *)
Deviation(cs, b, sc, norm, r, i) ==
  LET in == { j \in DOMAIN b : Near(cs, sc, norm, r, i, j) }
      base == CHOOSE x \in { b[j] : j \in in } : \A j \in in : x <= b[j]
      n == Cardinality(in)
      s == WSum([j \in DOMAIN b |-> IF j \in in THEN b[j] - base ELSE 0])
      q == WSum([j \in DOMAIN b |-> IF j \in in THEN (b[j] - base) * (b[j] - base) ELSE 0])
      dv == n * q - s * s
      e == s - n * (b[i] - base)
  IN IF dv = 0 THEN <<0, 1>> ELSE <<e * e, dv>>
MeanDevs(cs, b, sc, norm, r) == [i \in DOMAIN b |-> Deviation(cs, b, sc, norm, r, i)]
LeqR(x, y) == x[1] * y[2] <= y[1] * x[2]
RECURSIVE Shrink(_, _)
Shrink(a, b) == IF b > 20000 THEN Shrink(a \div 2, b \div 2) ELSE <<a, b>>
(* weight o (in 1/300) of a row is 1 - sqrt(dev / largest dev) *)
MeanOk(devs, i, o) ==
  LET mx == CHOOSE m \in { devs[j] : j \in DOMAIN devs } : \A j \in DOMAIN devs : LeqR(devs[j], m)
      t == 300 - o IN
  IF mx[1] = 0 THEN o = 300
  ELSE LET s == Shrink(devs[i][1] * mx[2], devs[i][2] * mx[1]) IN
       WAbs(t * t - (90000 * s[1]) \div s[2]) <= 2 * WAbs(t) + 20
(* fluctuation: window of row i, squared n*std, product of the factors in 1/1000 *)
RECURSIVE Isqrt(_, _, _)
Isqrt(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Isqrt(n, m, hi) ELSE Isqrt(n, lo, m)
Sqrt(n) == Isqrt(n, 0, 46340)
Window(t, tb, ta, i) == { j \in DOMAIN t : t[i] - tb <= t[j] /\ t[j] <= t[i] + ta }
Factor(v, win, ub) ==
  LET base == CHOOSE x \in { v[j] : j \in win } : \A j \in win : x <= v[j]
      n == Cardinality(win)
      s == WSum([j \in DOMAIN v |-> IF j \in win THEN v[j] - base ELSE 0])
      q == WSum([j \in DOMAIN v |-> IF j \in win THEN (v[j] - base) * (v[j] - base) ELSE 0])
      std == Sqrt(40000 * (n * q - s * s))            \* 200 * n * std
      f == 1000 - (5 * std) \div (n * ub)
  IN WMax(f, 0)
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1000 ELSE (Head(q) * Prod(Tail(q))) \div 1000
Fluctuation(cols, t, tb, ta, i) == Prod([c \in DOMAIN cols |-> Factor(cols[c].v, Window(t, tb, ta, i), cols[c].ub)])

(* arithmetic of weighers, point by point, on rationals; BIG where numbers leave the modelled range or are undefined *)
BIG == <<0, 0>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(n, d) == IF d = 0 THEN BIG
              ELSE LET g == Gcd(WAbs(n), WAbs(d)) s == IF d < 0 THEN -1 ELSE 1 IN
                   IF WAbs(n) \div g > 30000 \/ WAbs(d) \div g > 30000 THEN BIG ELSE <<(s * n) \div g, WAbs(d) \div g>>
Add(x, y) == IF BIG \in {x, y} THEN BIG ELSE Norm(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
Neg(x) == IF x = BIG THEN BIG ELSE <<-x[1], x[2]>>
Mul(x, y) == IF BIG \in {x, y} THEN BIG ELSE Norm(x[1] * y[1], x[2] * y[2])
Div(x, y) == IF BIG \in {x, y} THEN BIG ELSE Norm(x[1] * y[2], x[2] * y[1])
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN <<1, 1>> ELSE Mul(x, Pow(x, k - 1))
RECURSIVE EvalAt(_, _)
EvalAt(e, i) ==
  CASE e.o = "w" -> Norm(e.v[i], 4)
    [] e.o = "c" -> Norm(e.v, 4)
    [] e.o = "a" -> Norm(e.v[i], 4)
    [] e.o = "neg" -> Neg(EvalAt(e.l, i))
    [] e.o = "pow" -> Pow(EvalAt(e.l, i), e.k)
    [] e.o = "add" -> Add(EvalAt(e.l, i), EvalAt(e.r, i))
    [] e.o = "sub" -> Add(EvalAt(e.l, i), Neg(EvalAt(e.r, i)))
    [] e.o = "mul" -> Mul(EvalAt(e.l, i), EvalAt(e.r, i))
    [] e.o = "div" -> Div(EvalAt(e.l, i), EvalAt(e.r, i))
(* design properties *)
InUnit(r) == r[2] > 0 /\ 0 <= r[1] /\ r[1] <= r[2]
MembersInRange(w) == (\A i \in DOMAIN w : InUnit(w[i])) /\ ((\E i \in DOMAIN w : w[i][1] # 0) => \E i \in DOMAIN w : w[i][1] = w[i][2])
=============================================================================

------------------------------- MODULE Interp -------------------------------
(* Interpolation of scattered boat speeds over the (wind speed, wind angle)
   plane.  Data is a sequence of points [x, y, z] of integers; a query is a pair.
   Distances use an integer valued norm ("l1" or "linf"), so every weight of the
   documented formulas is rational; weights are represented by integers
   proportional to them.
     idw(p)     1 / d^p                                      (p = 0, 1, 2)
     improved   (1/d if d <= r/3 else 27/(4r) (d/r - 1)^2)^2,  r the largest distance
     gauss(p)   2^-(p w d)      (the default potential with alpha = p ln 2)
     ratio      w / (1 + d)     (a custom distribution)
   The grid interpolator is piecewise bilinear on the cell of the query.       *)
EXTENDS Integers, Sequences, FiniteSets

IAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE ISum(_)
ISum(q) == IF q = <<>> THEN 0 ELSE Head(q) + ISum(Tail(q))
RECURSIVE IPow(_, _)
IPow(b, k) == IF k = 0 THEN 1 ELSE b * IPow(b, k - 1)
IMax(q) == CHOOSE x \in { q[i] : i \in DOMAIN q } : \A i \in DOMAIN q : q[i] <= x
IMin(q) == CHOOSE x \in { q[i] : i \in DOMAIN q } : \A i \in DOMAIN q : q[i] >= x

Dist(norm, p, g) == LET a == IAbs(p[1] - g[1]) b == IAbs(p[2] - g[2]) IN
                    IF norm = "l1" THEN a + b ELSE IF a > b THEN a ELSE b
Dists(norm, data, g) == [i \in DOMAIN data |-> Dist(norm, data[i], g)]
Hits(data, g) == { i \in DOMAIN data : data[i][1] = g[1] /\ data[i][2] = g[2] }

L == 420  \* common multiple of 1..7: distances of the exact part are at most 7
IdwW(p, d) == IF p = 0 THEN 1 ELSE IPow(L \div d, p)
(* r^3 * 60 * 4 times the unsquared improved weight, for distances <= 6 *)
ImpRaw(d, r) == IF 3 * d <= r THEN (60 \div d) * 4 * r * r * r
                ELSE 60 * 27 * (d - r) * (d - r)
(* squared weights relative to the largest, in 300ths of its square root *)
ImpW(ds) == LET r == IMax(ds)
                raw == [i \in DOMAIN ds |-> ImpRaw(ds[i], r)]
                m == IMax(raw)
            IN IF m = 0 THEN [i \in DOMAIN ds |-> 1]   \* all equally far: all count the same
               ELSE [i \in DOMAIN ds |-> LET v == (raw[i] * 300 + m \div 2) \div m IN v * v]
GaussW(p, ds, ws) == LET e == [i \in DOMAIN ds |-> p * ds[i] * ws[i]] lo == IMin(e) IN
                  [i \in DOMAIN ds |-> IF e[i] - lo > 14 THEN 0 ELSE IPow(2, 14 - (e[i] - lo))]
RatioW(ds, ws) == [i \in DOMAIN ds |-> ws[i] * (840 \div (1 + ds[i]))]

Weights(kind, p, ds, ws) ==
  CASE kind = "idw" -> [i \in DOMAIN ds |-> IdwW(p, ds[i])]
    [] kind = "improved" -> ImpW(ds)
    [] kind = "gauss" -> GaussW(p, ds, ws)
    [] kind = "ratio" -> RatioW(ds, ws)

(* numerator and denominator of the interpolated value at a query that is not
   a data point                                                               *)
Num(kind, p, norm, data, ws, g) ==
  LET w == Weights(kind, p, Dists(norm, data, g), ws) IN ISum([i \in DOMAIN data |-> w[i] * data[i][3]])
Den(kind, p, norm, data, ws, g) == ISum(Weights(kind, p, Dists(norm, data, g), ws))

Zs(data) == { data[i][3] : i \in DOMAIN data }
ZLo(data) == CHOOSE x \in Zs(data) : \A y \in Zs(data) : x <= y
ZHi(data) == CHOOSE x \in Zs(data) : \A y \in Zs(data) : x >= y

(* ---- Shepard's interpolation ----
   s = the improved weights, t_i = sum_{j # i} s_j (1 - cos(g i, g j)) / sum s_j,
   w_i = s_i^2 (1 + t_i); the slopes (A_i, B_i) at point i are the w-weighted means
   over the other points j of its neighbourhood of (z_j - z_i)(x_j - x_i) / d_ij^2
   and likewise for y; with v = slope * range(z) / max |(A, B)| the value is the
   w-weighted mean of z_i + (A_i (gx - x_i) + B_i (gy - y_i)) * v / (v + d_i).
   Fixed point: weights in half thousandths, cosines in thousandths, slopes and values in hundredths,
   the slope parameter in tenths.  nb is <<"ball", r, r>> or <<"box", a, b>>.      *)
RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, a, b) == IF b - a <= 1 THEN a ELSE LET m == (a + b) \div 2 IN IF m * m <= n THEN ISqrtIn(n, m, b) ELSE ISqrtIn(n, a, m)
ISqrt(n) == ISqrtIn(n, 0, 20000)
RDiv(a, b) == (2 * a + b) \div (2 * b)
ISumOver(S, f(_), n) == ISum([i \in 1..n |-> IF i \in S THEN f(i) ELSE 0])
ShepRaw(ds) == LET r == IMax(ds) raw == [i \in DOMAIN ds |-> ImpRaw(ds[i], r)]
               IN IF IMax(raw) = 0 THEN [i \in DOMAIN ds |-> 1] ELSE raw
(* half thousandths of the largest over the index set I *)
Rel(raw, I) == LET m == CHOOSE x \in { raw[i] : i \in I } : \A i \in I : raw[i] <= x
               IN [i \in DOMAIN raw |-> IF i \in I THEN RDiv(raw[i] * 2000, m) ELSE 0]
ShepT(data, g, ds, raw) ==
  LET n == Len(data) s == Rel(raw, 1..n) tot == ISum(s)
      cos(i, j) == RDiv(1000 * ((g[1] - data[i][1]) * (g[1] - data[j][1]) + (g[2] - data[i][2]) * (g[2] - data[j][2])), ds[i] * ds[j])
  IN [i \in 1..n |-> RDiv(ISumOver((1..n) \ {i}, LAMBDA j : s[j] * (1000 - cos(i, j)), n), tot)]
ShepW(raw, t, I) == LET s == Rel(raw, I) IN [i \in DOMAIN raw |-> RDiv(RDiv(s[i] * s[i], 2000) * (1000 + t[i]), 1000)]
NbIn(nb, norm, dx, dy) == IF nb[1] = "ball" THEN Dist(norm, <<dx, dy>>, <<0, 0>>) <= nb[2] ELSE IAbs(dx) <= nb[2] /\ IAbs(dy) <= nb[3]
(* the slopes at point i: [A, B] in hundredths *)
ShepSlope(norm, data, raw, t, nb, i) ==
  LET n == Len(data)
      I == { j \in (1..n) \ {i} : /\ NbIn(nb, norm, data[j][1] - data[i][1], data[j][2] - data[i][2])
                                  /\ Dist(norm, data[j], data[i]) > 0 /\ raw[j] > 0 }
  IN IF I = {} THEN <<0, 0>> ELSE
     LET w == ShepW(raw, t, I) tot == ISum(w)
         part(j, k) == RDiv(w[j] * (data[j][3] - data[i][3]) * (data[j][k] - data[i][k]) * 100, Dist(norm, data[j], data[i]) * Dist(norm, data[j], data[i]))
     IN <<RDiv(ISumOver(I, LAMBDA j : part(j, 1), n), tot), RDiv(ISumOver(I, LAMBDA j : part(j, 2), n), tot)>>
(* the interpolated value in hundredths *)
Shepard(norm, data, nb, slope, g) ==
  LET n == Len(data)
      ds == Dists(norm, data, g)
      raw == ShepRaw(ds)
      t == ShepT(data, g, ds, raw)
      w == ShepW(raw, t, 1..n)
      ab == [i \in 1..n |-> ShepSlope(norm, data, raw, t, nb, i)]
      md == ISqrt(IMax([i \in 1..n |-> ab[i][1] * ab[i][1] + ab[i][2] * ab[i][2]]))
      v == IF md = 0 THEN 0 ELSE RDiv(slope * (ZHi(data) - ZLo(data)) * 1000, md)
      v4 == IF md = 0 THEN 0 ELSE RDiv(slope * (ZHi(data) - ZLo(data)) * 100000, md)    \* ten thousandths: small support radii
      delta(i) == IF md = 0 THEN 0
                  ELSE IF v4 <= 100000
                  THEN RDiv((ab[i][1] * (g[1] - data[i][1]) + ab[i][2] * (g[2] - data[i][2])) * RDiv(v4 * 10000, v4 + 10000 * ds[i]), 10000)
                  ELSE RDiv((ab[i][1] * (g[1] - data[i][1]) + ab[i][2] * (g[2] - data[i][2])) * RDiv(v * 1000, v + 100 * ds[i]), 1000)
  IN RDiv(ISumOver(1..n, LAMBDA i : w[i] * (100 * data[i][3] + delta(i)), n), ISum(w))

(* ---- grid ---- *)
Xs(data) == { data[i][1] : i \in DOMAIN data }
Ys(data) == { data[i][2] : i \in DOMAIN data }
Inside(data, g) == /\ \E x \in Xs(data) : x <= g[1]
                   /\ \E x \in Xs(data) : x >= g[1]
                   /\ \E y \in Ys(data) : y <= g[2]
                   /\ \E y \in Ys(data) : y >= g[2]
Lo(S, v) == CHOOSE x \in S : x <= v /\ \A y \in S : y <= v => y <= x
Hi(S, v) == CHOOSE x \in S : x >= v /\ \A y \in S : y >= v => y >= x
Corner(data, x, y) == { data[i][3] : i \in { i \in DOMAIN data : data[i][1] = x /\ data[i][2] = y } }
Cell(data, g) == <<Lo(Xs(data), g[1]), Hi(Xs(data), g[1]), Lo(Ys(data), g[2]), Hi(Ys(data), g[2])>>
CellComplete(data, g) == LET c == Cell(data, g) IN \A x \in {c[1], c[2]} : \A y \in {c[3], c[4]} : Corner(data, x, y) # {}
Only(S) == CHOOSE x \in S : TRUE
GridNum(data, g) ==
  LET c == Cell(data, g)
      z(x, y) == Only(Corner(data, x, y))
      wx == IF c[1] = c[2] THEN <<1, 0>> ELSE <<c[2] - g[1], g[1] - c[1]>>
      wy == IF c[3] = c[4] THEN <<1, 0>> ELSE <<c[4] - g[2], g[2] - c[3]>>
  IN wx[1] * (wy[1] * z(c[1], c[3]) + wy[2] * z(c[1], c[4])) + wx[2] * (wy[1] * z(c[2], c[3]) + wy[2] * z(c[2], c[4]))
GridDen(data, g) == LET c == Cell(data, g) IN (IF c[1] = c[2] THEN 1 ELSE c[2] - c[1]) * (IF c[3] = c[4] THEN 1 ELSE c[4] - c[3])
=============================================================================

------------------------------ MODULE Extension ------------------------------
(* Pipeline extensions: what a polar diagram made from weighted points is.
   A point is <<ws, wa, bsp, w>> (ws, wa, bsp in quarter units, w integer).
   The neighbourhood and the interpolator are parameters: a box |dws| <= nb[1],
   |dwa| <= nb[2], and one of the functions of Interp.                        *)
EXTENDS Table
EAbs(a) == IF a < 0 THEN -a ELSE a
InBox(nb, p, g) == EAbs(p[1] - g[1]) <= nb[1] /\ EAbs(p[2] - g[2]) <= nb[2]
Members(pts, nb, g) == { i \in DOMAIN pts : InBox(nb, pts[i], g) }
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN f[i] + SumOver(f, S \ {i})
Lin(pts, S, g) == SumOver([i \in DOMAIN pts |-> pts[i][4] * (pts[i][3] + 3 * pts[i][1] + 5 * pts[i][2])], S) + 7 * g[1] + 11 * g[2]
WSum(pts, S) == SumOver([i \in DOMAIN pts |-> pts[i][4]], S)
WBsp(pts, S) == SumOver([i \in DOMAIN pts |-> pts[i][4] * pts[i][3]], S)
Hits(pts, S, g) == { i \in S : pts[i][1] = g[1] /\ pts[i][2] = g[2] }
(* v, in units of 1/4096, is the value at g: zero where no point lies in the neighbourhood *)
SC == 1024
ValueOk(pts, nb, kind, g, v) ==
  LET S == Members(pts, nb, g) IN
  IF S = {} THEN v = 0
  ELSE IF kind = "lin" THEN v = Lin(pts, S, g)
  ELSE IF Hits(pts, S, g) # {} THEN \E i \in Hits(pts, S, g) : v = SC * pts[i][3]
  ELSE kind = "hit" \/ EAbs(v * WSum(pts, S) - SC * WBsp(pts, S)) <= WSum(pts, S)
(* the resolution of the table: as requested, or from the data *)
Near1(n, q) == 2 * EAbs(4 * n - q) <= 4       \* n is a rounding of q quarters
RoundOf(q) == CHOOSE n \in (q \div 4)..(q \div 4 + 1) : Near1(n, q) /\ (2 * EAbs(4 * n - q) = 4 => n % 2 = 0)
Col(pts, c) == { pts[i][c] : i \in DOMAIN pts }
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
Upto(a, b, st) == [i \in 1..((b - a) \div st + 1) |-> 4 * (a + (i - 1) * st)]
(* "auto": the rounded extremes of the data, and multiples of n between them where
   data lies next to them - wherever plenty of it does so on both sides           *)
AutoOk(pts, res, c, n, plenty, full) ==
  LET S == Col(pts, c)
      Cell(x, y) == Cardinality({ i \in DOMAIN pts : x <= pts[i][c] /\ pts[i][c] <= y }) a == RoundOf(MinS(S)) b == RoundOf(MaxS(S)) m(x) == IF full THEN (4 * x) % FULL ELSE 4 * x IN
  /\ Ascending(res) /\ {m(a), m(b)} \subseteq RangeT(res)
  /\ \A i \in DOMAIN res : res[i] \in {m(a), m(b)} \/ (res[i] % (4 * n) = 0 /\ 4 * a <= res[i] /\ res[i] <= 4 * b
                               /\ Cell(res[i] - 4 * n, res[i] + 4 * n) > 0)
  /\ \A k \in (a \div n)..(b \div n) : LET w == 4 * k * n IN
       (4 * a < w /\ w < 4 * b /\ Cell(IF w - 4 * n < 4 * a THEN 4 * a ELSE w - 4 * n, w) >= plenty
        /\ Cell(w, IF w + 4 * n > 4 * b THEN 4 * b ELSE w + 4 * n) >= plenty) => m(w \div 4) \in RangeT(res)
WsOk(pts, r, ws) == CASE r.kind = "min_max" -> ws = Upto(RoundOf(MinS(Col(pts, 1))), RoundOf(MaxS(Col(pts, 1))), 2)
                      [] r.kind = "auto" -> AutoOk(pts, ws, 1, 2, 100, FALSE)
                      [] OTHER -> ws = SortedT(WsRes(r))
WaOk(pts, r, wa) == CASE r.kind = "min_max" -> wa = Upto(5, 355, 5)
                      [] r.kind = "auto" -> AutoOk(pts, wa, 2, 5, 30, TRUE)
                      [] OTHER -> wa = SortedT(WaRes(r))
(* linear spacing of n points on [a, b], scaled by n - 1 *)
LinSpaceOk(x, a, b, n, sc) == /\ Len(x) = n
   /\ IF n = 1 THEN x[1] = a * sc
      ELSE \A k \in 1..n : EAbs(x[k] * (n - 1) - sc * (a * (n - 1) + (k - 1) * (b - a))) <= n
=============================================================================

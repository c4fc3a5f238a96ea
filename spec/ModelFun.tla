------------------------------ MODULE ModelFun ------------------------------
(* The documented model functions of wind speed x and wind angle y (integers).
   Parameters are integers; those inside exponentials are multiples of ln 2 (or
   widths 1/(2 ln 2)), so that every exponential is a power of two.  Values are
   fixed point with Sc per unit, each exponential term rounded once.           *)
EXTENDS Integers, Sequences

Sc == 100
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Rnd(n, d) == (2 * n + d) \div (2 * d)
Cap(k) == IF k > 20 THEN 20 ELSE k
(* a * 2^-k, k >= 0 *)
Half(a, k) == Rnd(a * Sc, P2(Cap(k)))
(* a2 / (1 + exp(a0 - a1 x)) *)
Logistic(x, a0, a1, a2) == LET k == a0 - a1 * x IN
  IF k >= 0 THEN Rnd(a2 * Sc, 1 + P2(Cap(k))) ELSE a2 * Sc - Rnd(a2 * Sc, 1 + P2(Cap(-k)))
Sq(x) == x * x
SShaped(x, p, i, dt) == Logistic(x, p[i], p[i + 1], p[i + 2]) - (IF dt THEN Sc * p[i + 3] * Sq(x) ELSE 0)
(* a0 exp(-(x - a1)^2 / (2 a2)), the width a2 = w^2 / (2 ln 2) given by w *)
Bell(x, a0, a1, w) == LET d == x - a1 IN Half(a0, Sq(d \div w))
BellOK(x, a1, w) == (x - a1) % w = 0
Isp(x, p, i) == Sc * (p[i] * x + p[i + 2] * Sq(x - p[i + 1]))
Times(x, y, k) == Sc * k * x * y

Val(f, x, y, p) == LET z == 360 - y IN
  CASE f = "ws_times_wa" -> Times(x, y, p[1])
    [] f = "ws_concave_dt_wa" -> Sc * (p[1] + p[2] * x - p[3] * Sq(x)) + Isp(y, p, 4) + Times(x, y, p[7]) + Isp(z, p, 8) + Times(x, z, p[11])
    [] f = "ws_wa_s_dt" -> SShaped(x, p, 1, TRUE) + SShaped(y, p, 5, TRUE) + Times(x, y, p[9]) + SShaped(z, p, 10, TRUE) + Times(x, z, p[14])
    [] f = "ws_s_dt_wa_gauss" -> SShaped(x, p, 1, TRUE) + Bell(y, p[5], p[6], p[7]) + Bell(z, p[8], p[9], p[10])
    [] f = "ws_s_s_dt_wa_gauss_comb" -> SShaped(x, p, 1, TRUE) + Bell(y, p[5], p[6], p[7]) + Times(x, y, p[8]) + Bell(z, p[9], p[10], p[11]) + Times(x, z, p[12])
    [] f = "ws_s_wa_gauss" -> SShaped(x, p, 1, FALSE) + Bell(y, p[4], p[5], p[6]) + Bell(z, p[7], p[8], p[9])
    [] f = "ws_s_wa_gauss_and_square" -> (SShaped(x, p, 1, TRUE) + x * (Bell(y, p[5], p[6], p[7]) + Bell(z, p[8], p[9], p[10]))) * y * z
    \* one dimensional building blocks, of x
    [] f = "polynomial0" -> Sc * p[1]
    [] f = "polynomial5" -> Sc * (p[1] + p[2] * x + p[3] * Sq(x) + p[4] * x * Sq(x) + p[5] * Sq(Sq(x)) + p[6] * x * Sq(Sq(x)))
    [] f = "polynomial1" -> Sc * (p[1] + p[2] * x)
    [] f = "polynomial3" -> Sc * (p[1] + p[2] * x + p[3] * Sq(x) + p[4] * x * Sq(x))
    [] f = "inverted_parabola" -> Sc * (p[2] + p[3] * Sq(x - p[1]))
    [] f = "inverted_shifted_parabola" -> Isp(x, p, 1)
    [] f = "concave_dt" -> Sc * (p[1] + p[2] * x - p[3] * Sq(x))
    [] f = "concave_sat" -> Sc * p[3] - (IF p[2] <= x THEN Half(p[1], x - p[2]) ELSE Sc * p[1] * P2(p[2] - x))
    [] f = "concave_both" -> Sc * p[3] - (IF p[2] <= x THEN Half(p[1], x - p[2]) ELSE Sc * p[1] * P2(p[2] - x)) - Sc * p[4] * Sq(x)
    [] f = "s_shaped" -> SShaped(x, p, 1, TRUE)
    [] f = "s_shaped_nodt" -> SShaped(x, p, 1, FALSE)
    [] f \in {"gompertz", "gompertz_neg"} -> Half(p[3], p[1] * (IF p[2] = 1 THEN 1 ELSE P2(x)))
    [] f = "gaussian" -> Bell(x, p[1], p[2], p[3])
    [] f = "gaussian_offset" -> Bell(x, p[1], p[2], p[3]) + Sc * p[4]
    [] f = "gmm" -> Bell(x, p[1], p[2], p[3]) + Bell(x, p[4], p[5], p[6]) + Sc * p[7]
(* rounding of the exponential terms *)
Tol(f, x, y) == IF f = "ws_s_wa_gauss_and_square" THEN 2 + (1 + 2 * x) * (IF y * (360 - y) < 0 THEN -(y * (360 - y)) ELSE y * (360 - y)) ELSE 4
=============================================================================

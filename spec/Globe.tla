-------------------------------- MODULE Globe --------------------------------
(* Positions <<lat, lon>> in whole degrees on globes of radius 1; lengths and
   coordinates in 1/10000.  SinTab[d + 1] = sin of d degrees, MercTab[d + 1] the
   mercator ordinate (inverse Gudermannian) of the latitude d.                  *)
EXTENDS Integers, Sequences, FiniteSets
One == 10000
SinTab == << 0, 175, 349, 523, 698, 872, 1045, 1219, 1392, 1564, 1736, 1908, 2079, 2250, 2419,
   2588, 2756, 2924, 3090, 3256, 3420, 3584, 3746, 3907, 4067, 4226, 4384, 4540, 4695, 4848,
   5000, 5150, 5299, 5446, 5592, 5736, 5878, 6018, 6157, 6293, 6428, 6561, 6691, 6820, 6947,
   7071, 7193, 7314, 7431, 7547, 7660, 7771, 7880, 7986, 8090, 8192, 8290, 8387, 8480, 8572,
   8660, 8746, 8829, 8910, 8988, 9063, 9135, 9205, 9272, 9336, 9397, 9455, 9511, 9563, 9613,
   9659, 9703, 9744, 9781, 9816, 9848, 9877, 9903, 9925, 9945, 9962, 9976, 9986, 9994, 9998,
   10000 >>
MercTab == << 0, 175, 349, 524, 699, 874, 1049, 1225, 1401, 1577, 1754, 1932, 2110, 2289, 2468,
   2648, 2830, 3012, 3195, 3379, 3564, 3750, 3938, 4127, 4317, 4509, 4702, 4897, 5094, 5293,
   5493, 5696, 5900, 6107, 6317, 6528, 6743, 6960, 7180, 7403, 7629, 7859, 8092, 8328, 8569,
   8814, 9063, 9316, 9575, 9838, 10107, 10381, 10662, 10948, 11242, 11542, 11851, 12167, 12492, 12826,
   13170, 13524, 13890, 14268, 14659, 15065, 15485, 15923, 16379, 16856, 17354, 17877, 18427, 19008, 19623,
   20276, 20973, 21721, 22528, 23404, 24362, 25421, 26603, 27942, 29487, 31313, 33547 >>
GAbs(x) == IF x < 0 THEN -x ELSE x
Sin(d) == LET m == d % 360 IN IF m <= 90 THEN SinTab[m + 1] ELSE IF m <= 180 THEN SinTab[181 - m] ELSE IF m <= 270 THEN -SinTab[m - 179] ELSE -SinTab[361 - m]
Cos(d) == Sin(d + 90)
RDiv(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((b - 2 * a) \div (2 * b))
Mul(a, b) == RDiv(a * b, One)
(* the globe: a point of the unit ball                                          *)
Ball(p) == << Mul(Cos(p[1]), Cos(p[2])), Mul(Cos(p[1]), Sin(p[2])), Sin(p[1]) >>
Dot(a, b) == Mul(a[1], b[1]) + Mul(a[2], b[2]) + Mul(a[3], b[3])
(* the flat map                                                                  *)
Wrap(lon) == ((lon + 180) % 360) - 180
Deg == 174533          \* one degree in 1/10000 of 1/1000
FlatMap(p) == << RDiv(Wrap(p[2]) * Deg, 1000), IF p[1] < 0 THEN -MercTab[1 - p[1]] ELSE MercTab[p[1] + 1] >>
Project(model, p) == IF model = "sphere" THEN Ball(p) ELSE FlatMap(p)
(* the same place on earth                                                       *)
Same(p, q) == p[1] = q[1] /\ (GAbs(p[1]) = 90 \/ (p[2] - q[2]) % 360 = 0)
Antipodal(p, q) == p[1] = -q[1] /\ (GAbs(p[1]) = 90 \/ (p[2] - q[2] - 180) % 360 = 0)
(* cos of a length in 1/10000 rad on the unit ball: linear between whole degrees *)
CosLen(d) == LET x == d * 1000 k == x \div Deg r == (x % Deg) \div 10 IN Cos(k) + RDiv((Cos(k + 1) - Cos(k)) * r, Deg \div 10)
Sq(x) == (GAbs(x) \div 10) * (GAbs(x) \div 10)    \* unit 1/1000
(* what a distance d must be between p and q                                    *)
DistOk(model, p, q, d) ==
  IF model = "sphere" THEN d \in 0..31417 /\ GAbs(CosLen(d) - Dot(Ball(p), Ball(q))) <= 8 /\ (Same(p, q) => d = 0)
  ELSE LET a == FlatMap(p) b == FlatMap(q) IN d >= 0 /\ GAbs(Sq(d) - Sq(a[1] - b[1]) - Sq(a[2] - b[2])) <= 60 + (d \div 2)
==============================================================================

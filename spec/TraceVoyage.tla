------------------------------ MODULE TraceVoyage ------------------------------
EXTENDS Voyage, Course, TraceLib
VARIABLES l
G == INSTANCE Globe
(* Long distances: positions in whole degrees, lengths in 1/100 nm on the earth
   ellipsoid of semi axis 3443.918 nm and flattening 1/298.257.                  *)
Meridian(a, b) == LET r == Abs(b - a) * 600069 IN Abs((r \div 100) - ((G!Sin(2 * Max2(a, b)) - G!Sin(2 * Min2(a, b))) * 866) \div 10000)
Equator(d) == (d * 601077) \div 100
Far(e) == LET dl == Abs(((e.q[2] - e.p[2] + 180) % 360) - 180) IN
  IF dl = 0 THEN LET m == Meridian(e.p[1], e.q[1]) IN Abs(e.dist - m) <= 6 + m \div 15000
  ELSE IF e.p[1] = 0 /\ e.q[1] = 0 THEN Abs(e.dist - Equator(dl)) <= 6 + Equator(dl) \div 15000
  ELSE \* radii of curvature of the earth: 0.9933 to 1.0034 of the one at the equator
    LET x == (e.dist * 200) \div 6888 k == G!Dot(G!Ball(e.p), G!Ball(e.q)) lo == x - (x \div 250) - 2 hi == x + (x \div 140) + 2 IN
    e.dist \in 0..1100000 /\ G!CosLen(IF lo < 0 THEN 0 ELSE lo) + 8 >= k /\ G!CosLen(hi) - 8 <= k
(* the initial course of the great circle                                       *)
Bearing(e) == LET d == e.q[2] - e.p[2] a == e.p[1] b == e.q[1]
                  n == G!Mul(G!Cos(a), G!Sin(b)) - G!Mul(G!Mul(G!Cos(d), G!Cos(b)), G!Sin(a)) m == G!Mul(G!Sin(d), G!Cos(b)) IN
  Abs(G!Mul(m, e.way[1]) - G!Mul(n, e.way[2])) <= 8 /\ (Max2(Abs(n), Abs(m)) > 20 => G!Mul(n, e.way[1]) + G!Mul(m, e.way[2]) > 0)
(* the straight way on the map (rhumb line): dlat and dlon whole degrees, dist in 1/100 nm *)
RhumbOk(e) ==
  LET c == (G!Cos(e.mid[1]) + G!Cos(e.mid[2])) \div 2 n == 60 * e.dlat x == G!RDiv(60 * e.dlon * c, G!One) d == e.dist \div 100 IN
  e.dist \in 0..500000 /\ Abs(d * d - (n * n + x * x)) <= (n * n + x * x) \div 25 + 2 * d
Base(zs) == 3 + 4 * Moving(zs)
Within(e, s, t, ah, more) == Earliest(e.zs, e.es, s, e.step, ah) - Base(e.zs) - more <= t /\ t <= Latest(e.zs, e.es, s, e.step, ah) + Base(e.zs) + more
(* position <<north, east>> relative to the start in 1/100 nm                   *)
At(p, d, s) == LET u == Unit(d) k == IF u.e # 0 /\ u.n # 0 THEN 707 ELSE 1000 IN
  Abs(1000 * p[1] - k * u.n * s) <= 3000 + 3 * s /\ Abs(1000 * p[2] - k * u.e * s) <= 3000 + 3 * s
Winds(e) == \A i \in DOMAIN e.twa : Abs(((e.twa[i] - 100 * (IF e.keys THEN e.given ELSE Twa(e.hdt, e.u, e.v)) + 18000) % 36000) - 18000) <= 20
(* weather is asked for on the way and when the boat is there: <<north, east, t>> *)
OnWay(e, q, g) == LET u == Unit(e.hdt) s == IF u.e # 0 /\ u.n # 0 THEN (1000 * Max2(Abs(q[1]), Abs(q[2]))) \div 707 ELSE Max2(Abs(q[1]), Abs(q[2])) IN
  At(<<q[1], q[2]>>, e.hdt, s) /\ (g => Within(e, s, q[3], 0, q[3] \div 100))
Bad(e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE CASE e.op = "iso" ->
         IF e.total < 0 THEN Clause("negative-time-refused", e.out # "ok")
         ELSE IF e.out # "ok" THEN {"answers"}
         ELSE IF e.total = 0 THEN Clause("start", e.s = 0 /\ e.end = <<0, 0>>)
         ELSE LET wall == Wall(e.zs, 1, 0) blocked == wall >= 0 /\ Earliest(e.zs, e.es, wall, e.step, 0) - Base(e.zs) <= e.total
                  stopped == e.s <= wall + e.step + 1 /\ e.s >= wall - e.step - 1 IN
              Clause("end-on-the-way", At(e.end, e.hdt, e.s))
              \cup (IF blocked /\ Latest(e.zs, e.es, wall, e.step, 0) + Base(e.zs) < e.total THEN Clause("stops-outside", stopped)
                    ELSE Clause("reached-in-time", (blocked /\ stopped) \/ Within(e, e.s, e.total, 0, 0)))
              \cup Clause("wind-angle", Winds(e)) \cup Clause("heading", e.hok)
              \cup Clause("nodes", e.n >= e.min)
              \cup Clause("weather-on-the-way", \A i \in DOMAIN e.q : OnWay(e, e.q[i], ~blocked))
         [] e.op = "cost" ->
         IF e.out # "ok" THEN {"answers"}
         ELSE LET w == TimeTo(e.zs, e.es, e.s) wall == Wall(e.zs, 1, 0) IN
              Clause("travel-time", IF wall >= 0 /\ wall < e.s THEN e.t >= TimeTo(e.zs, e.es, wall).t + (e.s - wall) * 1000
                                    ELSE Within(e, e.s, e.t, e.step, w.t \div 2000))
              \cup Clause("distance", Abs(e.dist - e.s) <= 2 + e.s \div 200)
              \cup Clause("wind-angle", Winds(e)) \cup Clause("heading", e.hok)
              \cup Clause("weather-on-the-way", \A i \in DOMAIN e.q : OnWay(e, e.q[i], Len(e.zs) = 1 /\ e.es = <<>>))
              \* density k0 + k1 * distance, plus the absolute cost a * time + b * distance (1/100)
              \cup Clause("cost", LET dens == IF e.dens THEN e.k0 * e.s + (e.k1 * e.s * (e.s \div 2)) \div 100 ELSE 0
                                      abs_ == e.a * (e.t \div 100) + e.b * e.s IN
                                  Abs(e.cost - dens - abs_) <= 30 + (dens + abs_) \div 100)
              \cup Clause("density-asked-on-the-way", \A i \in DOMAIN e.dq : OnWay(e, e.dq[i], wall < 0 \/ wall >= e.s))
              \cup Clause("weather-data-unchanged", e.same)
         [] e.op = "far" -> IF e.out # "ok" THEN {"answers"} ELSE Clause("distance-on-earth", Far(e)) \cup Clause("initial-course", Bearing(e))
       [] e.op = "farcost" -> IF e.out # "ok" THEN {"answers"}
         ELSE Clause("way-length", RhumbOk(e)) \cup Clause("way-duration", Abs(e.tv - e.dist) <= 4 + e.dist \div 200) \cup Clause("cost", Abs(e.cost - e.dist) <= 2)
       [] OTHER -> \* "cruise": legs <<heading, , time share in millionths, >>; mg: made good speed in 1/1000 of |u|
         IF ~e.fmt THEN Clause("format-refused", e.out # "ok")
         ELSE IF ~Supported(e.pts, e.uu) THEN Clause("unsupported-refused", e.out # "ok")
         ELSE IF e.out # "ok" THEN Clause("answers", Flat(e.pts))
         ELSE LET b == Best(e.pts, e.uu) IN
              Clause("duration", Abs(e.mg * b[2] - 1000 * b[1]) <= 8 * b[1] + 3 * b[2])
              \cup Clause("asked-wind-speed", e.wsok) \cup Clause("unchanged", e.same)
              \cup (IF Len(e.legs) = 1 THEN Clause("heads-there", e.legs[1][2])
                    ELSE IF Len(e.legs) # 2 \/ e.legs[1][1] = 0 \/ e.legs[2][1] = 0 THEN {"legs"}
                    ELSE LET x == e.legs[1] y == e.legs[2] f == Between(e.pts[x[1]], e.uu, e.pts[y[1]])
                             p == IF f THEN x ELSE y r == IF f THEN y ELSE x IN
                         IF ~Between(e.pts[p[1]], e.uu, e.pts[r[1]]) THEN {"heads-there"}
                         ELSE LET sh == Share(e.pts[p[1]], e.uu, e.pts[r[1]]) IN Clause("times", Abs(p[3] * sh[2] - sh[1] * 1000000) <= 3000 * sh[2]))
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Bad(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l>>
===============================================================================

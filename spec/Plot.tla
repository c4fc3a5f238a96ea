--------------------------------- MODULE Plot ---------------------------------
(* What a plot of a polar diagram has to draw.  Diagrams and slices are those of
   Slices; colours are <<r, g, b>> in 1/1000.
   A line is the sequence of its pieces (the parts a gap separates), a piece the
   sequence of its points <<angle, speed>> with the angle in 1/1000 degree.
     col = [kind, cs, at]: one colour, two (a gradient), a list of colours, or
     pairs of wind speeds at[i] and colours cs[i]                                *)
EXTENDS Slices
Blue == <<0, 0, 1000>>
Mix(a, b, num, den) == [k \in 1..3 |-> IF den = 0 THEN a[k] ELSE a[k] + RDiv((b[k] - a[k]) * num, den)]
Gradient(cs, vals) == LET lo == SMin(Elems(vals)) hi == SMax(Elems(vals))
                      IN [i \in DOMAIN vals |-> Mix(cs[1], cs[2], vals[i] - lo, hi - lo)]
IsGradient(col, W) == col.kind = "two" /\ Len(W) > 2
Colours(col, W) ==
  CASE col.kind = "one" -> [i \in DOMAIN W |-> col.cs[1]]
    [] IsGradient(col, W) -> Gradient(col.cs, W)
    [] col.kind = "pairs" -> [i \in DOMAIN W |-> LET s == { k \in DOMAIN col.at : col.at[k] = W[i] } IN IF s = {} THEN Blue ELSE col.cs[SMax(s)]]
    [] OTHER -> [i \in DOMAIN W |-> IF i <= Len(col.cs) THEN col.cs[i] ELSE Blue]
SlicePts(s) == [i \in DOMAIN s |-> <<s[i][2], s[i][3]>>]
(* the pieces: all points of a slice, or one piece per sail with points there    *)
Groups(d, w, o) ==
  IF d.kind # "multi" THEN << SlicePts(Slice(d, w, o)) >>
  ELSE SelectSeq([i \in DOMAIN d.subs |-> SlicePts(Slice(d.subs[i], w, o))], LAMBDA g : g # <<>>)
(* geometry of hulls: positions in 1/100, coordinates up to a few thousand       *)
SinT == << 0, 174, 342, 500, 643, 766, 866, 940, 985, 1000 >>
Sin10(t) == LET m == t % 36 IN IF m <= 9 THEN SinT[m + 1] ELSE IF m <= 18 THEN SinT[19 - m] ELSE IF m <= 27 THEN -SinT[m - 17] ELSE -SinT[37 - m]
(* points of hull plots have angles of whole tens of degrees                     *)
XY(p) == LET t == p[1] \div 10000 b == p[2] \div 10 IN << RDiv(b * Sin10(t), 1000), RDiv(b * Sin10(t + 9), 1000) >>
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Len1(a, b) == SAbs(a[1] - b[1]) + SAbs(a[2] - b[2])
(* p is (deep = TRUE: well) inside the triangle u, v, w; m is the margin          *)
InTri(p, u, v, w, m) ==
  LET s == IF Cross(u, v, w) >= 0 THEN 1 ELSE -1
      ok(a, b) == s * Cross(a, b, p) >= m * Len1(a, b)
  IN SAbs(Cross(u, v, w)) > 0 /\ ok(u, v) /\ ok(v, w) /\ ok(w, u)
OnLine(p, u, v, m) == SAbs(Cross(u, v, p)) <= m * (Len1(u, v) + 1) /\ Len1(u, p) + Len1(p, v) <= Len1(u, v) + 4 * m
Covered(p, V) == \E u \in V, v \in V : OnLine(p, u, v, 3) \/ \E w \in V : InTri(p, u, v, w, -3)
Deep(p, V) == \E u \in V, v \in V, w \in V : InTri(p, u, v, w, 5)
Flat(P) == \A a \in P, b \in P, c \in P : SAbs(Cross(a, b, c)) <= 3 * (Len1(a, b) + Len1(b, c) + 1)
===============================================================================

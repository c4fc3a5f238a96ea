------------------------------- MODULE TracePlot -------------------------------
EXTENDS Plot, TraceLib
VARIABLES l
NearP(a, b) == SAbs(a[1] - b[1]) <= 2 /\ SAbs(a[2] - b[2]) <= 8
Sorted(p) == \A i \in 1..(Len(p) - 1) : p[i][1] <= p[i + 1][1] + 2
(* two sequences of points, both in order of angle: the same points               *)
RECURSIVE SortPts(_)
SortPts(q) == IF q = <<>> THEN <<>> ELSE LET k == CHOOSE k \in DOMAIN q : \A j \in DOMAIN q : q[k][1] < q[j][1] \/ (q[k][1] = q[j][1] /\ q[k][2] <= q[j][2])
              IN <<q[k]>> \o SortPts([i \in 1..(Len(q) - 1) |-> IF i < k THEN q[i] ELSE q[i + 1]])
SamePts(o, want) == Len(o) = Len(want) /\ LET a == SortPts(o) b == SortPts(want) IN \A i \in DOMAIN b : NearP(a[i], b[i])
Piece(o, want) == Sorted(o) /\ SamePts(o, want)
SameLine(o, groups) == /\ Len(o) = Len(groups) \/ (groups = <<<<>>>> /\ o = <<>>)
                       /\ \E f \in [DOMAIN o -> DOMAIN groups] : (\A i, j \in DOMAIN o : f[i] = f[j] => i = j) /\ \A i \in DOMAIN o : Piece(o[i], groups[f[i]])
Near2(a, b) == SAbs(a - b) <= 2
NearC(a, b) == \A k \in 1..3 : SAbs(a[k] - b[k]) <= 4
(* a hull: its vertices in order of angle, closed through 0 where it surrounds the boat *)
Hull(o, s) ==
  LET pts == SlicePts(s) P == { XY(p) : p \in Elems(pts) } mod(x) == << x[1] % 360000, x[2] >> IN
  IF Len(s) < 3 THEN Piece(o, pts)
  ELSE \/ Flat(P) /\ Piece(o, pts)
       \/ LET real == SelectSeq(o, LAMBDA q : \E p \in Elems(pts) : NearP(mod(q), mod(p)))
               V == { XY(<<((q[1] + 20) \div 1000) * 1000, q[2]>>) : q \in Elems(real) }
               made == SelectSeq(o, LAMBDA q : ~ \E p \in Elems(pts) : NearP(mod(q), mod(p)))
           IN /\ Sorted(o)
              /\ \A p \in P : Covered(p, V)
              /\ \A v \in V : ~Deep(v, P \ {v})
              \* made up points are only those where the hull crosses 0 degrees
              /\ \A i \in DOMAIN made : made[i][1] \in {0, 360000} /\ OnLine(XY(made[i]), XY(real[1]), XY(real[Len(real)]), 4)
              /\ (real[Len(real)][1] - real[1][1] >= 180000 => o[1][1] <= 2 /\ o[Len(o)][1] >= 359998 /\ SAbs(o[1][2] - o[Len(o)][2]) <= 8)
(* the points drawn: all of the diagram, or its value for every wind asked for    *)
Wind(e) == IF e.w.how = "combos" THEN Combos(e.w.ws, e.w.wa) ELSE e.w.rows
Pts(e) == IF e.w.how = "none" THEN Stored(e.d) ELSE [i \in DOMAIN Wind(e) |-> <<Wind(e)[i][1], Wind(e)[i][2], At(e.d, Wind(e)[i][1], Wind(e)[i][2])>>]
InSpace(p, s) == LET q == XY(<<s[2], s[3]>>) IN SAbs(p[1] - q[1]) <= 2 /\ SAbs(p[2] - q[2]) <= 2 /\ Near2(p[3], s[1])
Bad(e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE IF e.out # "ok" THEN {"draws"}
  ELSE CASE e.op = "plot" ->
         LET W == Speeds(e.d, e.ws, e.n) cc == Colours(e.col, W) IN
         Clause("one-line-per-slice", Len(e.lines) = Len(W))
         \cup Clause("drawn-points", Len(e.lines) = Len(W) => \A i \in DOMAIN W : SameLine(e.lines[i], Groups(e.d, W[i], e.o)))
         \cup Clause("colours", Len(e.colours) = Len(W) => \A i \in DOMAIN W : NearC(e.colours[i], cc[i]))
         \cup Clause("orientation", e.polar => e.north)
         \cup Clause("legend", /\ (e.legend # "none") = e.show
                               /\ (e.legend = "bar" => IsGradient(e.col, W) /\ (SMin(Elems(W)) < SMax(Elems(W)) => Near2(e.lo, SMin(Elems(W))) /\ Near2(e.hi, SMax(Elems(W)))))
                               /\ (e.legend = "list" => ~IsGradient(e.col, W) /\ \A k \in DOMAIN e.entries : \E i \in DOMAIN W : Near2(e.entries[k][1], W[i]) /\ NearC(e.entries[k][2], cc[i]))
                               /\ (e.legend = "list" => Len(e.entries) >= (IF e.col.kind = "one" THEN Len(W) ELSE IF Len(W) < Len(e.col.cs) THEN Len(W) ELSE Len(e.col.cs))))
         \cup Clause("diagram-unchanged", ~e.changed)
       [] e.op = "hull" ->
         LET W == Speeds(e.d, e.ws, e.n) IN
         Clause("one-line-per-slice", Len(e.lines) = Len(W))
         \cup Clause("hull", Len(e.lines) = Len(W) => \A i \in DOMAIN W : Hull(Cat(e.lines[i]), Slice(e.d, W[i], e.o)))
         \cup Clause("diagram-unchanged", ~e.changed)
       [] e.op = "gradient" ->
         \* scatter of all points, coloured by boat speed
         LET S == Pts(e) v == [i \in DOMAIN S |-> S[i][3]] cc == IF e.col.kind = "one" THEN [i \in DOMAIN S |-> e.col.cs[1]] ELSE Gradient(e.col.cs, v) IN
         Clause("drawn-points", Len(e.pts) = Len(S) /\ \A i \in DOMAIN S : Near2(e.pts[i][1], S[i][1]) /\ Near2(e.pts[i][2], S[i][2]))
         \cup Clause("colours", Len(e.colours) = Len(S) => \A i \in DOMAIN S : NearC(e.colours[i], cc[i]))
         \cup Clause("legend", (e.legend # "none") = e.show /\ (e.legend = "bar" /\ SMin(Elems(v)) < SMax(Elems(v)) => Near2(e.lo, SMin(Elems(v))) /\ Near2(e.hi, SMax(Elems(v)))))
         \cup Clause("diagram-unchanged", ~e.changed)
       [] e.op = "empty" -> Clause("nothing-drawn", e.drawn = 0)
       [] e.op = "plain" -> Clause("given-points", Len(e.pts) = Len(e.given) /\ \A i \in DOMAIN e.pts : Len(e.pts[i]) = Len(e.given[i]) /\ \A k \in DOMAIN e.pts[i] : Near2(e.pts[i][k], e.given[i][k]))
       [] e.op = "surface" -> \* triangles between the points in space
         LET S == Pts(e) IN
         Clause("triangles-of-points", \A i \in DOMAIN e.tri : \A k \in 1..3 : \E j \in DOMAIN S : InSpace(e.tri[i][k], S[j]))
         \cup Clause("no-triangle-twice", \A i, j \in DOMAIN e.tri : i # j => Elems(e.tri[i]) # Elems(e.tri[j]))
         \cup Clause("tilted-triangles", e.tri # <<>> /\ \A i \in DOMAIN e.tri : Cardinality({ e.tri[i][k][3] : k \in 1..3 }) > 1)
         \cup Clause("diagram-unchanged", ~e.changed)
       [] OTHER -> \* the points in space: x = speed sin(angle), y = speed cos(angle), z = wind speed
         LET S == Pts(e) IN
         Clause("drawn-points", Len(e.pts) = Len(S) /\ \A i \in DOMAIN S : InSpace(e.pts[i], S[i]))
         \* coloured by wind speed
         \cup Clause("colours", LET v == [i \in DOMAIN S |-> S[i][1]] cc == IF e.col.kind = "one" THEN [i \in DOMAIN S |-> e.col.cs[1]] ELSE Gradient(e.col.cs, v)
                                IN Len(e.colours) = Len(S) /\ \A i \in DOMAIN S : \A k \in 1..3 : SAbs(e.colours[i][k] - cc[i][k]) <= 9)
         \cup Clause("diagram-unchanged", ~e.changed)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Bad(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================

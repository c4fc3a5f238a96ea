------------------------------ MODULE Symmetry ------------------------------
(* Symmetrising polar diagrams.  A diagram is a sequence of parts (one for a
   table or a cloud, one per sail for a multi-sail diagram).  A part is
   [kind, rows]: the rows of a table <<angle, speeds...>>, the points of a cloud
   <<angle, wind speed, speed>>.  Angles are quarter degrees, 0..1439.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SFULL == 1440
MirA(a) == (SFULL - a) % SFULL
MirRow(r) == <<MirA(r[1])>> \o Tail(r)
MirRows(q) == [i \in DOMAIN q |-> MirRow(q[i])]
OnAxis(r) == r[1] = MirA(r[1])
(* a table keeps the one row on the axis, a cloud gets a point per point        *)
SymPart(p) == [p EXCEPT !.rows = p.rows \o (IF p.kind = "table" THEN SelectSeq(MirRows(p.rows), LAMBDA r : ~OnAxis(r)) ELSE MirRows(p.rows))]
SymD(d) == [i \in DOMAIN d |-> SymPart(d[i])]
EditPart(p, o) == IF p.kind = "table" THEN [p EXCEPT !.rows[o.row] = <<p.rows[o.row][1]>> \o o.v]
                  ELSE [p EXCEPT !.rows = Append(p.rows, o.v)]
Count(q, r) == Cardinality({ i \in DOMAIN q : q[i] = r })
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])
SamePart(a, b) == a.kind = b.kind /\ SameBag(a.rows, b.rows)
SameD(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SamePart(a[i], b[i])
MirrorSymmetric(d) == \A i \in DOMAIN d : SameBag(d[i].rows, MirRows(d[i].rows))
OneSided(p) == \/ \A i \in DOMAIN p.rows : p.rows[i][1] <= 720
               \/ \A i \in DOMAIN p.rows : p.rows[i][1] = 0 \/ p.rows[i][1] >= 720
DistinctAngles(p) == \A i, j \in DOMAIN p.rows : i # j => p.rows[i][1] # p.rows[j][1]
=============================================================================

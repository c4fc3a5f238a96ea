------------------------------- MODULE Weather -------------------------------
(* A gridded weather model: three ascending integer axes ax[1] (time), ax[2]
   (latitude), ax[3] (longitude) and integer data dat[i][j][k][a].  The weather
   at a point is the multilinear interpolation over the enclosing cell, an exact
   rational Num/Den; outside of the axes the query is refused.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Inside(ax, p) == \A d \in 1..3 : ax[d][1] <= p[d] /\ p[d] <= ax[d][Len(ax[d])]
Lo(q, x) == CHOOSE i \in DOMAIN q : q[i] <= x /\ (i = Len(q) \/ x < q[i + 1])
(* the nodes of one axis that matter for x: sequence of <<index, weight>>      *)
Nodes(q, x) == LET i == Lo(q, x) IN
   IF q[i] = x THEN <<<<i, 1>>>> ELSE <<<<i, q[i + 1] - x>>, <<i + 1, x - q[i]>>>>
DenAx(q, x) == LET i == Lo(q, x) IN IF q[i] = x THEN 1 ELSE q[i + 1] - q[i]
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Num(ax, dat, p, a) ==
  LET n1 == Nodes(ax[1], p[1]) n2 == Nodes(ax[2], p[2]) n3 == Nodes(ax[3], p[3])
      t3(i, j) == Sum([m \in DOMAIN n3 |-> n3[m][2] * dat[i][j][n3[m][1]][a]])
      t2(i) == Sum([m \in DOMAIN n2 |-> n2[m][2] * t3(i, n2[m][1])])
  IN Sum([m \in DOMAIN n1 |-> n1[m][2] * t2(n1[m][1])])
Den(ax, p) == DenAx(ax[1], p[1]) * DenAx(ax[2], p[2]) * DenAx(ax[3], p[3])
Corners(ax, dat, p, a) ==
  LET idx(d) == { x[1] : x \in { Nodes(ax[d], p[d])[m] : m \in DOMAIN Nodes(ax[d], p[d]) } }
  IN { dat[i][j][k][a] : i \in idx(1), j \in idx(2), k \in idx(3) }

(* a node may lack a value (the services and files have gaps): what is asked next to it is lacking too, and only that *)
Lacking == -88888888
Known(ax, dat, p, a) == Lacking \notin Corners(ax, dat, p, a)

(* properties of the design *)
Bounded(ax, dat, p, a) ==
  \A lo \in Corners(ax, dat, p, a), hi \in Corners(ax, dat, p, a) :
     ((\A c \in Corners(ax, dat, p, a) : lo <= c) /\ (\A c \in Corners(ax, dat, p, a) : hi >= c)) =>
        lo * Den(ax, p) <= Num(ax, dat, p, a) /\ Num(ax, dat, p, a) <= hi * Den(ax, p)
ExactAtNodes(ax, dat, a) ==
  \A i \in DOMAIN ax[1], j \in DOMAIN ax[2], k \in DOMAIN ax[3] :
     LET p == <<ax[1][i], ax[2][j], ax[3][k]>> IN Den(ax, p) = 1 /\ Num(ax, dat, p, a) = dat[i][j][k][a]
(* along every axis the value is affine inside a cell: midpoints average        *)
KnownAtNodes(ax, dat, a) ==
  \A i \in DOMAIN ax[1], j \in DOMAIN ax[2], k \in DOMAIN ax[3] :
     Known(ax, dat, <<ax[1][i], ax[2][j], ax[3][k]>>, a) <=> dat[i][j][k][a] # Lacking
AffineInCell(ax, dat, a) ==
  \A d \in 1..3 : \A i \in 1..(Len(ax[d]) - 1) : \A x \in (ax[d][i] + 1)..(ax[d][i + 1] - 1) :
    \A y \in ax[(d % 3) + 1][1]..ax[(d % 3) + 1][Len(ax[(d % 3) + 1])], z \in {ax[((d + 1) % 3) + 1][1]} :
      LET at(v) == [m \in 1..3 |-> IF m = d THEN v ELSE IF m = (d % 3) + 1 THEN y ELSE z]
          L == ax[d][i] R == ax[d][i + 1]
      IN /\ Den(ax, at(x)) = (R - L) * Den(ax, at(L))
         /\ Num(ax, dat, at(x), a) = (R - x) * Num(ax, dat, at(L), a) + (x - L) * Num(ax, dat, at(R), a)
=============================================================================

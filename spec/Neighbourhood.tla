---------------------------- MODULE Neighbourhood ----------------------------
(* Neighbourhoods of the origin: closed regions of the plane, decided point by
   point.  Points are pairs of integers (quarters of the real unit).
   A norm is named: "l1", "linf", "l2" (squared comparison, so exact) and "sc"
   (the documented scaled Euclidean norm: components divided by 40 and 360; a
   radius R then stands for R/360, hence (9x)^2 + y^2 <= R^2).
   A shape is a record:
     [kind |-> "ball", norm, r]
     [kind |-> "scaling", norm, k]            the k nearest given points (with ties)
     [kind |-> "ellipsoid", norm, r, inv]     inv = ((a,b),(c,d)): T^-1
     [kind |-> "cuboid", b |-> <<b1,b2>>, f]   the one dimensional norm f*|x|
     [kind |-> "polytope", mat |-> rows, b]
   Closed regions: boundary points belong to them.                            *)
EXTENDS Integers, Sequences, FiniteSets

NAbs(x) == IF x < 0 THEN -x ELSE x
(* a monotone image of the norm: the norm itself for l1/linf, its square else *)
Size(norm, p) ==
  CASE norm = "l1" -> NAbs(p[1]) + NAbs(p[2])
    [] norm = "linf" -> IF NAbs(p[1]) > NAbs(p[2]) THEN NAbs(p[1]) ELSE NAbs(p[2])
    [] norm = "l2" -> p[1] * p[1] + p[2] * p[2]
    [] OTHER -> 81 * p[1] * p[1] + p[2] * p[2]
Bound(norm, r) == IF norm \in {"l1", "linf"} THEN r ELSE r * r

Apply(m, p) == <<m[1][1] * p[1] + m[1][2] * p[2], m[2][1] * p[1] + m[2][2] * p[2]>>
(* smallest size that at least k (or all, if there are fewer) of the points do
   not exceed                                                                  *)
KthSize(norm, pts, k) ==
  LET kk == IF k < Len(pts) THEN k ELSE Len(pts)
      S == { Size(norm, pts[i]) : i \in DOMAIN pts }
      At(x) == Cardinality({ i \in DOMAIN pts : Size(norm, pts[i]) <= x })
  IN CHOOSE x \in S : At(x) >= kk /\ \A y \in S : At(y) >= kk => x <= y

Member(sh, pts, p) ==
  CASE sh.kind = "ball" -> Size(sh.norm, p) <= Bound(sh.norm, sh.r)
    [] sh.kind = "scaling" -> Size(sh.norm, p) <= KthSize(sh.norm, pts, sh.k)
    [] sh.kind = "ellipsoid" -> Size(sh.norm, Apply(sh.inv, p)) <= Bound(sh.norm, sh.r)
    [] sh.kind = "cuboid" -> sh.f * NAbs(p[1]) <= sh.b[1] /\ sh.f * NAbs(p[2]) <= sh.b[2]
    [] OTHER -> \A i \in DOMAIN sh.mat : sh.mat[i][1] * p[1] + sh.mat[i][2] * p[2] <= sh.b[i]

(* The norms themselves.  A vector of the plain Euclidean norm is measured in
   units of 1; one of the scaled norm is given in multiples of its scaling
   factors 40, 360 (and 20), so that the norm is a length of integers; custom
   factors scale component-wise.                                              *)
RECURSIVE SumSq(_)
SumSq(v) == IF v = <<>> THEN 0 ELSE v[1] * v[1] + SumSq(Tail(v))
Scaled(v, f) == [i \in DOMAIN v |-> v[i] * f[i]]
LengthSq(v, f) == SumSq(Scaled(v, f))
(* a length recorded in thousandths, correct to `tol` thousandths              *)
IsLength(x, sq, tol) == x >= 0 /\ (IF x > tol THEN (x - tol) * (x - tol) ELSE 0) <= sq * 1000000 /\ sq * 1000000 <= (x + tol) * (x + tol)

Mask(sh, pts) == [i \in DOMAIN pts |-> Member(sh, pts, pts[i])]
=============================================================================

------------------------------- MODULE MCCourse -------------------------------
EXTENDS Course, TraceLib
CONSTANTS Emitting
VARIABLES c
Vec == { v \in (-2..2) \X (-2..2) : v # <<0, 0>> }
P(v, s, k) == [x |-> v[1], y |-> v[2], s |-> s, k |-> k]
Sub == { S \in SUBSET Vec : Cardinality(S) = 3 }
U == { <<1, 0>>, <<2, 1>>, <<-1, 2>>, <<0, -1>>, <<-3, -1>> }
UV(u) == [x |-> u[1], y |-> u[2]]
RECURSIVE SeqV(_)
SeqV(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE v \in S : \A w \in S : v[1] < w[1] \/ (v[1] = w[1] /\ v[2] <= w[2]) IN <<m>> \o SeqV(S \ {m})
Names == << <<"a", "a", "a">>, <<"a", "b", "b">>, <<"a", "a", "a">> >>
Init == c = [pts |-> <<>>]
Next == /\ c.pts = <<>>
        /\ \E S \in Sub, u \in U, n \in {1, 2, 3} :
             LET q == SeqV(S) IN c' = [pts |-> [i \in 1..3 |-> P(q[i], Names[n][i], n # 3 \/ i # 2)], u |-> UV(u)]
        /\ (Emitting => Emit(c'))
Spec == Init /\ [][Next]_c
(* with the origin inside the triangle there is always a course; a course is never slower than any single heading's
   projection needs; mixing two headings never beats the faster of them *)
Norm2(p) == Dot(p, p)
Inv == c.pts # <<>> =>
  /\ \A ij \in PairsOf(c.pts, c.u) : LET a == Made(c.pts, c.u, ij) s == Share(c.pts[ij[1]], c.u, c.pts[ij[2]]) IN
       /\ 0 < s[1] /\ s[1] < s[2] /\ a[1] > 0 /\ a[2] > 0
       /\ a[1] * a[1] * Norm2(c.u) <= Max2(Norm2(c.pts[ij[1]]), Norm2(c.pts[ij[2]])) * a[2] * a[2]
       \* the combination heads exactly along u: s P + (1 - s) Q = rho u
       /\ s[1] * c.pts[ij[1]].x + (s[2] - s[1]) * c.pts[ij[2]].x = a[1] * c.u.x
       /\ s[1] * c.pts[ij[1]].y + (s[2] - s[1]) * c.pts[ij[2]].y = a[1] * c.u.y
  (* headings without headway are never part of the best course *)
  /\ \A ij \in PairsOf(c.pts, c.u) : c.pts[ij[1]].k /\ c.pts[ij[2]].k
  /\ Supported(c.pts, c.u) => \A b \in Speeds(c.pts, c.u) : Leq(b, Best(c.pts, c.u))
===============================================================================

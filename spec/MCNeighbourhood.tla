--------------------------- MODULE MCNeighbourhood ---------------------------
(* Laws of the regions, for all small shapes and point sequences; every
   state emitted is a sequence of queries for the real classes.               *)
EXTENDS Neighbourhood, TraceLib
CONSTANTS Emitting
VARIABLES sh, qs
Pt == (-2..2) \X (-2..2)
Norms == {"l1", "linf", "l2"}
Invs == { <<<<1, 0>>, <<0, 1>>>>, <<<<1, 1>>, <<0, 1>>>>, <<<<2, 0>>, <<0, 1>>>>, <<<<0, -1>>, <<1, 0>>>> }
Shapes == { [kind |-> "ball", norm |-> n, r |-> r] : n \in Norms, r \in 1..3 }
     \cup { [kind |-> "scaling", norm |-> n, k |-> k] : n \in Norms, k \in 1..4 }
     \cup { [kind |-> "ellipsoid", norm |-> n, r |-> r, inv |-> m] : n \in Norms, r \in 1..2, m \in Invs }
     \cup { [kind |-> "cuboid", b |-> b, f |-> 1] : b \in (0..2) \X (0..2) }
     \cup { [kind |-> "polytope", mat |-> <<<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>>>, b |-> <<b, 1, 2, c>>] : b \in -1..2, c \in 0..1 }
     \cup { [kind |-> "polytope", mat |-> <<<<1, 1>>, <<-1, 2>>, <<0, -1>>>>, b |-> <<2, 2, 1>>] }
Qs == { <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>>>, <<<<-2, 1>>, <<2, -1>>, <<1, -2>>>>, <<<<2, 2>>, <<2, 2>>, <<-1, -1>>, <<0, 2>>, <<1, 0>>>>, <<<<2, 0>>>>,
        <<<<-2, -2>>, <<-1, 2>>, <<0, -1>>, <<-1, 0>>, <<0, 1>>, <<2, 1>>>>, <<>> }
Init == sh \in Shapes /\ qs = <<>>
Next == /\ Len(qs) < 2
        /\ \E q \in Qs : qs' = Append(qs, q)
        /\ sh' = sh
        /\ (Emitting /\ Len(qs') = 2 => Emit([shape |-> sh, qs |-> qs']))
Spec == Init /\ [][Next]_<<sh, qs>>
Bigger(s) == CASE s.kind \in {"ball", "ellipsoid"} -> [s EXCEPT !.r = @ + 1]
               [] s.kind = "scaling" -> [s EXCEPT !.k = @ + 1]
               [] s.kind = "cuboid" -> [s EXCEPT !.b = <<@[1] + 1, @[2]>>]
               [] OTHER -> [s EXCEPT !.b = [i \in DOMAIN @ |-> @[i] + 1]]
Mirror(p) == <<-p[1], -p[2]>>
Inv == \A j \in DOMAIN qs : LET pts == qs[j] m == Mask(sh, pts) big == Mask(Bigger(sh), pts) mir == Mask(sh, [i \in DOMAIN pts |-> Mirror(pts[i])]) IN
  /\ Len(m) = Len(pts)
  /\ \A i \in DOMAIN pts : m[i] => big[i]
  /\ sh.kind # "polytope" => mir = m
  /\ \A i \in DOMAIN pts : (pts[i] = <<0, 0>> /\ sh.kind # "polytope") => m[i]
  /\ sh.kind = "scaling" => Cardinality({ i \in DOMAIN m : m[i] }) >= Min2(sh.k, Len(pts))
  /\ sh.kind # "scaling" => \A i \in DOMAIN pts : Mask(sh, <<pts[i]>>)[1] = m[i]
=============================================================================

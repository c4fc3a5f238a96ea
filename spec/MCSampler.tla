----------------------------- MODULE MCSampler -----------------------------
(* For all small point sets: the hull contains exactly the points that no edge
   separates, the smallest enclosing circle is unique where it has a lattice
   centre, and its centre and the hull lie in it.  Every emitted state is a
   sampling request.                                                          *)
EXTENDS Sampler, TraceLib
CONSTANTS Emitting
VARIABLES st
RECURSIVE SetToSeqL(_)
SetToSeqL(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeqL(S \ {x})
Grid == (0..3) \X (0..2)
Sets == { S \in SUBSET Grid : Cardinality(S) \in 1..4 }
Init == st = [S |-> {}]
Next == /\ st.S = {}
        /\ \E S \in Sets : \E n \in {1, 3} :
             /\ st' = [S |-> S, n |-> n]
             /\ (Emitting => Emit([data |-> SetToSeqL(S), n |-> n, spans |-> Spans(S)]))
Spec == Init /\ [][Next]_st
Inv == st.S = {} \/ LET S == st.S E == Edges(S) IN
   /\ \A p \in S : InHull(E, Up(p))
   /\ Spans(S) => Cardinality({ p \in S : \E e \in E : e[1] = p }) >= 3
   /\ LET C == { m \in (0..3) \X (0..2) : \E r2 \in 0..13 : IsCircle(S, m, r2) } IN
      /\ Cardinality(C) <= 1
      /\ \A m \in C : Spans(S) => InHull(E, Up(m))
=============================================================================

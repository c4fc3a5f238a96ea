------------------------------ MODULE MCInterp ------------------------------
(* Laws of the interpolation formulas on all small instances: a weighted mean
   stays between the smallest and the largest value, the grid reproduces bilinear
   functions, weights are positive somewhere.                                 *)
EXTENDS Interp, TraceLib
CONSTANTS Emitting
VARIABLES st
P == (0..2) \X (0..2)
Z(p, k) == IF k = 0 THEN 1 + 2 * p[1] + 3 * p[2] + 4 * p[1] * p[2] ELSE (7 * p[1] + 3 * p[2] + 5) % 6
Datas == { q \in [1..1 -> P] \cup [1..2 -> P] \cup { [i \in 1..3 |-> q[i]] : q \in [1..3 -> {<<0, 0>>, <<2, 1>>, <<1, 2>>, <<0, 2>>}] } : Cardinality(Range(q)) = Len(q) }
Grids == { <<x, y>> \in (SUBSET (0..3)) \X (SUBSET (0..3)) : x # {} /\ y # {} /\ Cardinality(x) <= 2 /\ Cardinality(y) <= 2 }
GridData(gr) == LET xs == SeqOfSet(gr[1]) ys == SeqOfSet(gr[2]) m == Len(ys) IN
                [k \in 1..(Len(xs) * m) |-> <<xs[1 + (k - 1) \div m], ys[1 + ((k - 1) % m)]>>]
WithZ(q, k) == [i \in DOMAIN q |-> <<q[i][1], q[i][2], Z(q[i], k)>>]
Kinds == {<<"idw", 0>>, <<"idw", 1>>, <<"idw", 2>>, <<"improved", 0>>, <<"gauss", 0>>, <<"gauss", 1>>, <<"ratio", 0>>}
Gs == { <<0, 0>>, <<1, 1>>, <<2, 0>>, <<3, 1>>, <<1, 3>> }
Cases == [kind : {"scattered"}, k : Kinds, norm : {"l1", "linf"}, data : { WithZ(q, 1) : q \in Datas }, g : Gs]
    \cup [kind : {"shepard"}, k : { <<"shepard", 1>>, <<"shepard", 10>> }, norm : {"l1", "linf"}, nb : { <<"box", 1, 2>>, <<"ball", 2, 2>>, <<"ball", 9, 9>> }, data : { WithZ(q, k) : q \in Datas, k \in {0, 1} }, g : Gs]
    \cup [kind : {"grid"}, k : {<<"grid", 0>>}, norm : {"l1"}, data : { WithZ(GridData(gr), 0) : gr \in Grids }, g : (0..3) \X (0..3)]
Init == st = [kind |-> "start"]
Next == /\ st.kind = "start"
        /\ \E c \in Cases : st' = c /\ (Emitting => Emit(c))
Spec == Init /\ [][Next]_st
Ws(d) == [i \in DOMAIN d |-> 1 + (i % 2)]
Inv == CASE st.kind = "scattered" ->
            IF Hits(st.data, st.g) # {} THEN TRUE
            ELSE LET n == Num(st.k[1], st.k[2], st.norm, st.data, Ws(st.data), st.g) d == Den(st.k[1], st.k[2], st.norm, st.data, Ws(st.data), st.g) IN
                 /\ d > 0
                 /\ ZLo(st.data) * d <= n /\ n <= ZHi(st.data) * d
         [] st.kind = "shepard" ->  \* bounded overshoot, and constant data is reproduced
            IF Hits(st.data, st.g) # {} THEN TRUE
            ELSE LET v == Shepard(st.norm, st.data, st.nb, st.k[2], st.g)
                     over == (10 * st.k[2] * (ZHi(st.data) - ZLo(st.data)) * (IF st.norm = "l1" THEN 1000 ELSE 1415)) \div 1000 IN
                 v >= 100 * ZLo(st.data) - over - 2 /\ v <= 100 * ZHi(st.data) + over + 2
         [] st.kind = "grid" ->
            Inside(st.data, st.g) => /\ CellComplete(st.data, st.g)
                                     /\ GridNum(st.data, st.g) = GridDen(st.data, st.g) * Z(st.g, 0)
         [] OTHER -> TRUE
=============================================================================

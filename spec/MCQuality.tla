---------------------------- MODULE MCQuality ----------------------------
EXTENDS Quality, TraceLib
CONSTANTS Emitting
VARIABLES st
P == {<<0, 0, 0>>, <<16, 40, 8>>, <<17, 41, 12>>, <<16, 800, 20>>, <<80, 1440, 4>>}
Ts == {<<>>} \cup UNION { [1..n -> P] : n \in 1..3 }
Ds == [a : {0, 1}, b : {0, 2}, c : {-3, 4}, per : {FALSE}]
Init == st = [k |-> 0]
Next == st.k = 0 /\ \E d \in Ds : \E T \in Ts : st' = [k |-> 1, d |-> d, T |-> T] /\ (Emitting => Emit([d |-> d, T |-> T]))
Spec == Init /\ [][Next]_st
Inv == st.k = 0 \/ st.T = <<>> \/
  LET r == Residuals(st.d, st.T) n == Len(r) T == st.T IN
  /\ Lo(r) * n <= QSum(r) /\ QSum(r) <= Hi(r) * n
  /\ QSum(r) * QSum(r) <= n * QSum(Sqr(r))
  /\ Cardinality(Cells(T)) <= n /\ Cardinality(Cells(T)) >= 1
  /\ LET perf == [i \in DOMAIN T |-> <<T[i][1], T[i][2], F(st.d, T[i][1], T[i][2])>>] IN Hi(Residuals(st.d, perf)) = 0
=============================================================================

---------------------------- MODULE MCInfluence ----------------------------
EXTENDS Influence, TraceLib
CONSTANTS Emitting
VARIABLES m, rows, hist
Angs == {0, 40000, 180000, 350000, 359750}
Rws == { <<>>, <<<<24, 0, 8>>>>, <<<<24, 40000, 8>>, <<40, 350000, 12>>>>, <<<<24, 359750, 8>>, <<24, 180000, 4>>, <<8, 0, 0>>>> }
Log(e) == hist' = Append(hist, e)
Init == m = [kind |-> "none", shift |-> 0] /\ rows = <<>> /\ hist = <<>>
Next ==
  \/ hist = <<>> /\ \E k \in {"identity", "shift"} : \E s \in (IF k = "shift" THEN {0, 10000, -20000, 90000, 355000, 400250} ELSE {0}) :
       m' = [kind |-> k, shift |-> s] /\ rows' = rows /\ Log([op |-> "make", kind |-> k, shift |-> s])
  \/ Len(hist) \in 1..2 /\ \E r \in Rws : m' = m /\ rows' = Remove(m, r) /\ Log([op |-> "remove", rows |-> r])
       /\ (Emitting /\ Len(hist) = 2 => Emit(hist'))
  \/ Len(hist) \in 1..2 /\ \E r \in Rws : m' = m /\ rows' = Add(m, r) /\ Log([op |-> "add", rows |-> r])
       /\ (Emitting /\ Len(hist) = 2 => Emit(hist'))
  \/ Len(hist) = 1 /\ \E g \in {0, 5000, 47000, 351000} :
       m' = (IF m.kind = "shift" THEN [m EXCEPT !.shift = g] ELSE m) /\ rows' = <<>> /\ Log([op |-> "fit", middle |-> g])
Spec == Init /\ [][Next]_<<m, rows, hist>>
Back(r) == [i \in DOMAIN r |-> <<r[i][1], Norm(r[i][2]), r[i][3]>>]
Inv == /\ \A r \in Rws : LET x == Remove(m, r) y == Add(m, x) IN
            /\ Len(x) = Len(r)
            /\ \A i \in DOMAIN r : y[i][1] = r[i][1] /\ Norm(y[i][2]) = Norm(r[i][2]) /\ x[i][3] = r[i][3]
       /\ m.kind = "identity" => m.shift = 0
       /\ \A d \in {0, 40000, 350000} : LET A == { Norm(a + d) : a \in {100000, 180000, 250000, 340000} } IN GapMiddle(A) = Norm(40000 + d)
=============================================================================

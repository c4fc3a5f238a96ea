----------------------------- MODULE MCSymmetry -----------------------------
EXTENDS Symmetry, TraceLib
CONSTANTS Emitting
VARIABLES x, y, hist
Ang == {0, 120, 718, 720, 1000, 1320}
TabRows(S) == LET q == SeqOfSet(S) IN [i \in DOMAIN q |-> <<q[i], 4 * i, 4 * i + 1>>]
Tables == { [kind |-> "table", rows |-> TabRows(S)] : S \in { S \in SUBSET Ang : S # {} /\ Cardinality(S) <= 3 } }
CloudsS == { [kind |-> "cloud", rows |-> q] : q \in {<<>>} \cup [1..1 -> Ang \X {8} \X {4}] \cup [1..2 -> {0, 120, 1320} \X {8, 12} \X {4}] }
Small == { [kind |-> "table", rows |-> TabRows(S)] : S \in {{0, 120}, {720, 1000}} }
Ds == { <<p>> : p \in Tables \cup CloudsS } \cup [1..2 -> Small]
Init == x = <<>> /\ y = <<>> /\ hist = <<>>
Log(e) == hist' = Append(hist, e)
Edit(d) == IF d[1].kind = "table" THEN [row |-> 1, v |-> <<28, 40>>] ELSE [row |-> 0, v |-> <<240, 8, 20>>]
Next == \/ hist = <<>> /\ \E d \in Ds : x' = d /\ y' = d /\ Log([op |-> "make", d |-> d])
        \/ Len(hist) = 1 /\ y' = SymD(x) /\ x' = x /\ Log([op |-> "sym"])
        \/ Len(hist) = 2 /\ \E w \in {"x", "y"} : LET d == IF w = "x" THEN x ELSE y n == [d EXCEPT ![1] = EditPart(d[1], Edit(d))] IN
             /\ x' = IF w = "x" THEN n ELSE x
             /\ y' = IF w = "y" THEN n ELSE y
             /\ Log([op |-> "edit", who |-> w, e |-> Edit(d)])
             /\ (Emitting => Emit(hist'))
Spec == Init /\ [][Next]_<<x, y, hist>>
Inv == Len(hist) = 2 =>
  /\ MirrorSymmetric(y)
  /\ \A i \in DOMAIN x : /\ \A k \in DOMAIN x[i].rows : Count(y[i].rows, x[i].rows[k]) >= Count(x[i].rows, x[i].rows[k])
                         /\ (x[i].kind = "table" /\ OneSided(x[i])) => DistinctAngles(y[i])
=============================================================================

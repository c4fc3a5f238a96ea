---------------------------- MODULE MCRegress ----------------------------
(* Histories of fits with small data sets generated by the families: the
   generating parameters are optimal and, where the basis is independent on the
   data, no other small parameters are.                                       *)
EXTENDS Regress, TraceLib
CONSTANTS Emitting
VARIABLES fam, T, gen, hist
Fams == {"const", "scale", "plane", "product", "parabola"}
Xs == { <<<<1, 0>>, <<2, 1>>, <<3, 0>>, <<1, 2>>>>, <<<<1, 1>>, <<2, 3>>, <<4, 2>>, <<0, 5>>, <<2, 3>>>> }
Ps(f) == CASE f \in {"const", "scale"} -> [1..1 -> {-1, 2}] [] OTHER -> [1..3 -> {0, 2}] \cup {<<1, -1, 2>>}
Data(f, p, X) == [i \in DOMAIN X |-> <<X[i][1], X[i][2], Value(f, p, <<X[i][1], X[i][2], 0>>)>>]
Init == fam \in Fams /\ T = <<>> /\ gen = <<>> /\ hist = <<>>
Next == /\ Len(hist) < 2
        /\ \E p \in Ps(fam) : \E X \in Xs : T' = Data(fam, p, X) /\ gen' = p /\ hist' = Append(hist, [T |-> T', gen |-> p])
        /\ fam' = fam
        /\ (Emitting /\ Len(hist') = 2 => Emit([fam |-> fam, fits |-> hist']))
Spec == Init /\ [][Next]_<<fam, T, gen, hist>>
Inv == T # <<>> => /\ Optimal(fam, [j \in DOMAIN gen |-> Fixed * gen[j]], T)
                   /\ \A q \in Ps(fam) : Optimal(fam, [j \in DOMAIN q |-> Fixed * q[j]], T) => q = gen
=============================================================================

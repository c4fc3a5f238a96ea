------------------------------ MODULE TraceNear ------------------------------
(* Points lying very close together are still different points.  A number
   b * 1024 + d is b + d * u for some tiny u; a full circle is 360 * 1024.     *)
EXTENDS TraceLib
VARIABLES l
NFULL == 368640
At(e) == { i \in DOMAIN e.pts : e.pts[i][1] = e.ws /\ e.pts[i][2] % NFULL = e.wa % NFULL }
Bad(e) ==
  IF e.op = "near" THEN     \* evaluating: the value stored at the point or the interpolation
     Clause("near-made", e.out = "ok")
     \cup (IF e.out # "ok" THEN {}
           ELSE IF At(e) # {} THEN Clause("near-at-a-point", \E i \in At(e) : e.v = e.pts[i][3])
           ELSE Clause("near-between-points", e.v = e.iv)
                \cup Clause("near-neighbourhood", IsPermutation(e.seen,
                       SelectSeq(e.pts, LAMBDA p : Abs(p[1] - e.ws) <= e.r /\ Abs(p[2] - (e.wa % NFULL)) <= e.r)))
                \cup Clause("near-grid-point", e.gp = <<e.ws, e.wa % NFULL>>))
  ELSE IF e.op = "nearread" THEN
     LET C(i) == { e.pts[k][i] : k \in DOMAIN e.pts }
         Sorted(q, S) == Range(q) = S /\ Len(q) = Cardinality(S) /\ \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1] IN
     Clause("near-winds", e.out = "ok" /\ Sorted(e.W, C(1)) /\ Sorted(e.A, C(2)))
     \cup Clause("near-points", IsPermutation(e.after, e.pts))
  ELSE IF e.op = "nearget" THEN
     Clause("near-get-made", (e.out = "ok") = (At(e) # {}))
     \cup Clause("near-get", e.out # "ok" \/ \E i \in At(e) : e.v = e.pts[i][3])
  ELSE IF e.op = "nearcolumn" THEN   \* the stored column, or estimates where there is none
     LET S == SelectSeq(e.pts, LAMBDA p : p[1] = e.ws)
         A == { e.pts[i][2] : i \in DOMAIN e.pts } IN
     Clause("near-column", e.out = "ok" /\ IF S # <<>> THEN e.sl = S
            ELSE Len(e.sl) = Cardinality(A) /\ \A k \in DOMAIN e.sl : e.sl[k][1] = e.ws /\ e.sl[k][2] \in A /\ e.sl[k][3] = e.iv
                 /\ \A j \in 1..(k - 1) : e.sl[j][2] < e.sl[k][2])
  ELSE IF e.op = "nearslice" THEN
     Clause("near-slice", e.out = "ok" /\ IsPermutation(e.sl, SelectSeq(e.pts, LAMBDA p : Abs(p[1] - e.ws) <= e.r)))
  ELSE                      \* nearchange: setting one entry sets exactly that entry, where it exists
     Clause("near-change-made", (e.out = "ok") = (At(e) # {}))
     \cup Clause("near-change", e.after = [i \in DOMAIN e.pts |-> IF i \in At(e) THEN <<e.pts[i][1], e.pts[i][2], e.iv>> ELSE e.pts[i]])
Init == l = 1
Next == /\ l <= Len(Trace) /\ Report(l, Bad(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

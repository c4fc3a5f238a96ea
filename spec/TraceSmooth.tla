----------------------------- MODULE TraceSmooth -----------------------------
EXTENDS Smooth, TraceLib
VARIABLES l
Ordered(x) == \A i \in 1..(Len(x) - 1) : x[i] <= x[i + 1]
Bad(e) ==
  IF ~e.lazy /\ ~Ordered(e.x) THEN Clause("unordered-is-refused", e.out = "err:ValueError")
  ELSE IF e.out # "ok" THEN {"smooths"}
  ELSE Clause("datetimes-kept", e.xo = e.x)
       \cup Clause("columns-kept", e.names = [c \in DOMAIN e.cols |-> e.cols[c].k])
       \cup Clause("number-of-rows", \A c \in DOMAIN e.res : Len(e.res[c]) = Len(e.x))
       \cup (IF \E c \in DOMAIN e.res : Len(e.res[c]) # Len(e.x) THEN {}
             ELSE UNION { IF e.cols[c].f /\ ~e.lazy
                          THEN Clause("smoothed-value", \A i \in DOMAIN e.x : OnGraph(e.x, e.cols[c].v, e.T, i, e.res[c][i], e.sc))
                          ELSE Clause("other-columns-kept", e.res[c] = [i \in DOMAIN e.x |-> e.cols[c].v[i] * e.sc])
                        : c \in DOMAIN e.cols })
Init == l = 1
Next == /\ l <= Len(Trace) /\ Report(l, Bad(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

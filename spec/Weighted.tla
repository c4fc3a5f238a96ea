------------------------------ MODULE Weighted ------------------------------
(* Weighted points: a container of points (array, dictionary of lists or Data)
   together with one weight per point.
     p = [kind, keys, rows, ws]   keys: sequence of column names, rows: sequence
     of tuples along the keys, ws: sequence of weights (quarters)
   Arrays have the nameless columns 1..n.                                      *)
EXTENDS Integers, Sequences, FiniteSets

None == "-"
Make(kind, keys, rows, w) == [kind |-> kind, keys |-> keys, rows |-> rows,
                              ws |-> IF Len(w) = 1 /\ Len(rows) # 1 THEN [i \in DOMAIN rows |-> w[1]] ELSE w]
Aligned(p) == Len(p.rows) = Len(p.ws) /\ \A i \in DOMAIN p.rows : Len(p.rows[i]) = Len(p.keys)
RECURSIVE Pick(_, _)
Pick(q, m) == IF q = <<>> THEN <<>> ELSE (IF Head(m) THEN <<Head(q)>> ELSE <<>>) \o Pick(Tail(q), Tail(m))
Mask(p, m) == [p EXCEPT !.rows = Pick(@, m), !.ws = Pick(@, m)]
Pos(keys, k) == CHOOSE i \in DOMAIN keys : keys[i] = k
Ks(p) == { p.keys[i] : i \in DOMAIN p.keys }
(* dictionaries keep the common keys; all others must have the same columns *)
KeepKeys(p, q) == IF p.kind = "dict" THEN SelectSeq(p.keys, LAMBDA k : k \in Ks(q)) ELSE p.keys
CanExtend(p, q) == p.kind = q.kind /\ (IF p.kind = "dict" THEN KeepKeys(p, q) # <<>> ELSE Ks(p) = Ks(q))
Along(p, keys) == [i \in DOMAIN p.rows |-> [j \in DOMAIN keys |-> p.rows[i][Pos(p.keys, keys[j])]]]
Extend(p, q) == LET k == KeepKeys(p, q) IN [p EXCEPT !.keys = k, !.rows = Along(p, k) \o Along(q, k), !.ws = p.ws \o q.ws]
=============================================================================

---------------------------- MODULE MCWeighted ----------------------------
EXTENDS Weighted, TraceLib
CONSTANTS Emitting
VARIABLES p, q, hist
RowsOf(n, base) == [i \in 1..n |-> <<base + i, 10 * base + i>>]
Objs == { Make(k, <<"a", "b">>, RowsOf(n, 1), w) : k \in {"array", "dict", "data"}, n \in 1..2, w \in {<<4>>, <<2, 6>>} }
Others == { Make("array", <<"a", "b">>, RowsOf(2, 5), <<1, 3>>), Make("dict", <<"b", "c">>, RowsOf(2, 5), <<1, 3>>), Make("dict", <<"a", "b", "c">>, <<<<7, 8, 9>>>>, <<3>>),
            Make("data", <<"b", "a">>, RowsOf(1, 5), <<8>>), Make("data", <<"a", "b">>, <<>>, <<>>), Make("array", <<"a", "b">>, <<>>, <<>>) }
Log(e) == hist' = Append(hist, e)
Init == p = [kind |-> ""] /\ q = [kind |-> ""] /\ hist = <<>>
Next == \/ hist = <<>> /\ \E o \in { o \in Objs : Aligned(o) } : p' = o /\ q' = q /\ Log([op |-> "make", p |-> o])
        \/ Len(hist) \in 1..2 /\ \E m \in [DOMAIN p.rows -> BOOLEAN] : p' = Mask(p, m) /\ q' = q /\ Log([op |-> "mask", m |-> [i \in DOMAIN p.rows |-> m[i]]])
             /\ (Emitting /\ Len(hist) = 2 => Emit(hist'))
        \/ Len(hist) \in 1..2 /\ \E o \in { o \in Others : CanExtend(p, o) } : p' = Extend(p, o) /\ q' = o /\ Log([op |-> "extend", q |-> o])
             /\ (Emitting /\ Len(hist) = 2 => Emit(hist'))
Spec == Init /\ [][Next]_<<p, q, hist>>
Inv == hist # <<>> => Aligned(p)
=============================================================================

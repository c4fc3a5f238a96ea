------------------------------ MODULE MCTable ------------------------------
EXTENDS Table, TraceLib
CONSTANTS MaxDepth, Big
VARIABLES t, hist
WsLists == {<<8, 24>>, <<24, 8>>} \cup (IF Big THEN {<<8>>, <<24, 40, 8>>} ELSE {})
WaLists == {<<40, 360>>, <<1000, 0>>, <<-40, 1450>>} \cup (IF Big THEN {<<720>>, <<360, 40, 1000>>} ELSE {})
L(v) == [kind |-> "list", v |-> v, fin |-> TRUE]
Mats(A, W) == [i \in 1..Len(A) |-> [j \in 1..Len(W) |-> 10 * i + j]]
Makes == { [op |-> "make", wsr |-> L(W), war |-> L(A), hasb |-> h, b |-> IF h THEN Mats(A, W) ELSE <<>>, fin |-> TRUE] :
             W \in WsLists, A \in WaLists, h \in BOOLEAN }
Sels(q, alt) == {[kind |-> "all"]} \cup {[kind |-> "sel", v |-> v] :
      v \in {<<q[1]>>, <<q[Len(q)], q[1]>>, <<>>, <<alt>>} \cup {<<q[1], q[1]>>}}
WaSels(q) == Sels(q, q[1] + FULL) \cup {[kind |-> "sel", v |-> <<q[1] + 1>>]}
Shapes == {<<1>>, <<2>>, <<1, 1>>, <<2, 1>>, <<1, 2>>, <<2, 2>>} \cup (IF Big THEN {<<3>>, <<3, 2>>, <<2, 3>>, <<3, 3>>} ELSE {})
Size(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] * s[2]
Init == t = NoTable /\ hist = <<>>
DoMake == hist = <<>> /\ \E o \in Makes : t' = ApplyT(t, o).t /\ hist' = <<o>>
DoChange == /\ hist # <<>> /\ Len(hist) < MaxDepth /\ t # NoTable
            /\ \E sw \in Sels(t.ws, t.ws[1] + 1), sa \in WaSels(t.wa), sh \in Shapes, f \in {TRUE} :
                 LET base == 100 * Len(hist)
                     o == [op |-> "change", sw |-> sw, sa |-> sa, shape |-> sh,
                           vals |-> [k \in 1..Size(sh) |-> base + k], fin |-> f]
                     r == ApplyT(t, o) IN
                 t' = r.t /\ hist' = Append(hist, o)
Next == DoMake \/ DoChange
Spec == Init /\ [][Next]_<<t, hist>>
View == <<t, Len(hist)>>
Inv == GridOK(t)
EmitT == Emit(hist')
(* only the addressed pairs change, each addressed pair reads back a given value,
   and different pairs get different values                                      *)
FrameOK == (Len(hist') > 1 /\ t # NoTable) => LET o == hist'[Len(hist')] r == ApplyT(t, o) IN
   IF ~r.ok THEN t' = t
   ELSE /\ t'.ws = t.ws /\ t'.wa = t.wa
        /\ \A i \in DOMAIN t.wa, j \in DOMAIN t.ws :
             IF t.wa[i] \in SelWa(t, o.sa) /\ t.ws[j] \in SelWs(t, o.sw)
             THEN t'.bsp[i][j] \in RangeT(o.vals)
             ELSE t'.bsp[i][j] = t.bsp[i][j]
        /\ Cardinality({<<i, j>> \in (DOMAIN t.wa) \X (DOMAIN t.ws) : t'.bsp[i][j] \in RangeT(o.vals)}) = Len(o.vals)
MakeOK == (Len(hist') = 1) => LET o == hist'[1] A == Mod(o.war.v) W == o.wsr.v IN
   o.hasb => \A i \in DOMAIN A, j \in DOMAIN W : Get(t', W[j], A[i]) = [ok |-> TRUE, v |-> o.b[i][j]]
FrameProp == [][FrameOK /\ MakeOK]_<<t, hist>>
=============================================================================

------------------------------- MODULE MCFuzzy -------------------------------
EXTENDS Fuzzy, TraceLib
CONSTANTS MaxOps, Emitting
VARIABLES vs, fs, hist
(* every sequence of calls, comparisons and combinations of two variables up to MaxOps *)
Ts == {8, 12}
Pts == {[TWS |-> 0, TWA |-> 8], [TWS |-> 10, TWA |-> 40], [TWS |-> 12, TWA |-> 0], [TWS |-> 40, TWA |-> 9]}
Init == vs = <<[def |-> 20, nxt |-> 20, k |-> "TWS"], [def |-> 4, nxt |-> 4, k |-> "TWA"]>> /\ fs = <<>> /\ hist = <<>>
DoCall(v, s) == vs' = Call(vs, v, s) /\ UNCHANGED fs /\ hist' = Append(hist, [op |-> "call", v |-> v, s |-> s])
DoCmp(v, o, t) == vs' = Used(vs, v) /\ fs' = Append(fs, Statement(vs, v, o, t))
                  /\ hist' = Append(hist, [op |-> "cmp", v |-> v, o |-> o, t |-> t])
DoBin(o, a, b) == UNCHANGED vs /\ fs' = Append(fs, [o |-> o, l |-> fs[a], r |-> fs[b]])
                  /\ hist' = Append(hist, [op |-> o, a |-> a, b |-> b])
DoNot(a) == UNCHANGED vs /\ fs' = Append(fs, NotF(fs[a])) /\ hist' = Append(hist, [op |-> "not", a |-> a])
Next == /\ Len(hist) < MaxOps
        /\ \/ \E v \in 1..2, s \in {1, 6} : DoCall(v, s)
           \/ \E v \in 1..2, o \in {"gt", "le", "eq"}, t \in Ts : DoCmp(v, o, t)
           \/ \E a, b \in DOMAIN fs, o \in {"and", "or"} : a # b /\ DoBin(o, a, b)
           \/ \E a \in DOMAIN fs : DoNot(a)
        /\ (Emitting /\ Len(hist') = MaxOps /\ fs' # <<>> => Emit(hist'))
Spec == Init /\ [][Next]_<<vs, fs, hist>>
Leaves == { i \in DOMAIN fs : fs[i].o \notin {"and", "or", "not"} }
Inv == /\ \A i \in DOMAIN fs, p \in Pts : InRange(fs[i], p) /\ DoubleNegation(fs[i], p)
       /\ \A i, j \in DOMAIN fs, p \in Pts : DeMorgan(fs[i], fs[j], p) /\ Commutes(fs[i], fs[j], p)
       /\ \A i \in Leaves, x, y \in {0, 7, 8, 9, 12, 30} : Side(fs[i], x) /\ Monotone(fs[i], x, y)
       (* a sharpness given by a call is used up by the next comparison *)
       /\ \A v \in 1..2 : (hist # <<>> /\ hist[Len(hist)].op = "cmp" /\ hist[Len(hist)].v = v) => vs[v].nxt = vs[v].def
ASSUME Table
=============================================================================

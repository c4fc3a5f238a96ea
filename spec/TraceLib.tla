------------------------------ MODULE TraceLib ------------------------------
(* Shared by all trace specifications: the recorded trace of the real code and
   the total, clause-naming verdict.  A trace specification defines
     S0            the state before the first event
     Bad(s, e)     the set of names of the clauses event e violates in state s
     Step(s, e)    the state after e (resynchronised with the observation)
   and the behaviour consumes one event per step.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VF_TRACE)

Clause(name, ok) == IF ok THEN {} ELSE {name}
Report(n, b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", n, b>>)
Emit(x) == PrintT("@@" \o ToJson(x))

Range(f) == { f[x] : x \in DOMAIN f }
IsPermutation(a, b) == /\ Len(a) = Len(b)
                       /\ \A x \in Range(a) \cup Range(b) :
                            Cardinality({i \in DOMAIN a : a[i] = x}) = Cardinality({i \in DOMAIN b : b[i] = x})
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o SeqOfSet(S \ {m})
Filter(q, T(_)) == SelectSeq(q, T)
Map(q, f(_)) == [i \in DOMAIN q |-> f(q[i])]
Has(e, k) == k \in DOMAIN e
=============================================================================

----------------------------- MODULE MultiSails -----------------------------
(* A multi-sail diagram: names[i] belongs to the diagram ids[i].                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Default(i) == "Sail " \o ToString(i - 1)
Make(given, has, ids) ==
  [names |-> [i \in DOMAIN ids |-> IF has /\ i <= Len(given) THEN given[i] ELSE Default(i)], ids |-> ids]
First(s, n) == CHOOSE i \in DOMAIN s.names : s.names[i] = n /\ \A j \in 1..(i - 1) : s.names[j] # n
Lookup(s, n) == IF \E i \in DOMAIN s.names : s.names[i] = n
                THEN [ok |-> TRUE, id |-> s.ids[First(s, n)]] ELSE [ok |-> FALSE, id |-> 0]
MaxSeq(v) == CHOOSE x \in { v[i] : i \in DOMAIN v } : \A i \in DOMAIN v : v[i] <= x
RECURSIVE Concat(_)
Concat(qq) == IF qq = <<>> THEN <<>> ELSE Head(qq) \o Concat(Tail(qq))
(* labels of one slice: the name of the sail once per point of its slice        *)
Labels(s, parts) == Concat([i \in DOMAIN parts |-> [k \in DOMAIN parts[i] |-> s.names[i]]])
=============================================================================

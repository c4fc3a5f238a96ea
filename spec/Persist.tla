------------------------------- MODULE Persist -------------------------------
(* The csv files of saved polar diagrams.  A path is <<directory, stem, rest>>
   ("d/x.v1.csv" is <<"d", "x", ".v1.csv">>).  A plain diagram is one file; a
   multi-sail diagram is a file with the names and one file per sail.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SubPath(p, i) == <<p[1], p[2] \o "_sail_" \o ToString(i - 1), ".csv">>
(* a diagram: [kind |-> "plain", c |-> content] | [kind |-> "multi", names |-> seq, subs |-> seq of plain] *)
FilesOf(p, d) == IF d.kind = "plain" THEN {p} ELSE {p} \cup { SubPath(p, i) : i \in DOMAIN d.subs }
Save(fs, p, d) ==
  IF d.kind = "plain" THEN (p :> [t |-> "plain", c |-> d.c]) @@ fs
  ELSE [f \in { SubPath(p, i) : i \in DOMAIN d.subs } |->
          LET i == CHOOSE k \in DOMAIN d.subs : SubPath(p, k) = f IN [t |-> "plain", c |-> d.subs[i].c]]
       @@ (p :> [t |-> "multi", c |-> d.names]) @@ fs
Load(fs, p) ==
  IF p \notin DOMAIN fs THEN [ok |-> FALSE]
  ELSE IF fs[p].t = "plain" THEN [ok |-> TRUE, d |-> [kind |-> "plain", c |-> fs[p].c]]
  ELSE IF \E i \in DOMAIN fs[p].c : SubPath(p, i) \notin DOMAIN fs THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, d |-> [kind |-> "multi", names |-> fs[p].c,
                            subs |-> [i \in DOMAIN fs[p].c |-> [kind |-> "plain", c |-> fs[SubPath(p, i)].c]]]]
=============================================================================

---------------------------- MODULE TracePersist ----------------------------
(* state: the last diagram saved under each path.  Names and contents are
   sequences of strings.  Foreign files are tables in the sense of Table.       *)
EXTENDS Persist, TraceLib
VARIABLES l, s
T == INSTANCE Table
S0 == <<>>
Bad(st, e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE CASE e.op = "save" ->
         Clause("saves", e.out = "ok")
         \cup Clause("diagram-kept", e.after = e.d)
         \cup Clause("only-own-files", \A f \in Range(e.changed) : f \in FilesOf(e.p, e.d))
         (* the formats of other programs are rectangular: a head, for ORC a line of zeros, a line per wind angle *)
         \cup Clause("rectangular", e.cells # <<>> => e.cells = [i \in 1..(1 + e.size[1] + (IF e.fmt = "orc" THEN 1 ELSE 0)) |-> 1 + e.size[2]])
         \cup Clause("all-own-files", e.out = "ok" => \A f \in FilesOf(e.p, e.d) : f \in Range(e.files))
    [] e.op = "load" ->
         IF e.p \in DOMAIN st THEN Clause("loads", e.out = "ok") \cup Clause("same-diagram", e.out = "ok" => e.d = st[e.p])
                                   \cup Clause("load-changes-files", e.changed = <<>>)
         ELSE Clause("missing-file-refused", e.out # "ok")
    [] e.op = "foreign" ->
         LET g == [kind |-> "list", v |-> e.ws, fin |-> TRUE] h == [kind |-> "list", v |-> e.wa, fin |-> TRUE]
             r == T!Make(T!NoTable, g, h, TRUE, e.b, TRUE) IN
         IF e.valid THEN Clause("reads", e.out = "ok") \cup Clause("same-table", e.out = "ok" => e.t = r.t)
         ELSE Clause("malformed-refused", e.out # "ok")
              \cup Clause("documented-error", e.err = "" \/ e.out = "err:" \o e.err)
Step(st, e) == IF e.op = "save" THEN (e.p :> e.d) @@ st ELSE st
Init == l = 1 /\ s = S0
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] p == IF e.new THEN S0 ELSE s IN Report(l, Bad(p, e)) /\ s' = Step(p, e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================

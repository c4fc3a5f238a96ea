------------------------------ MODULE Alias ------------------------------
(* Ownership of mutable state.  Everything a program holds is a handle: what the
   caller made and passes in ("caller"), what an operation handed back to the
   caller ("result"), and objects of the library ("lib").  Each handle owns the
   cells its content lives in; an operation of the library allocates new cells
   for what it returns and writes only into the cells of the object it updates. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Kinds == {"caller", "lib", "result"}
(* m = [own: handle -> set of cells, kind: handle -> kind, val: cell -> version]   *)
Empty == [own |-> <<>>, kind |-> <<>>, val |-> <<>>]
New(m, kind) == [own |-> Append(m.own, {Len(m.val) + 1}), kind |-> Append(m.kind, kind), val |-> Append(m.val, 0)]
Write(m, h) == [m EXCEPT !.val = [c \in DOMAIN m.val |-> IF c \in m.own[h] THEN m.val[c] + 1 ELSE m.val[c]]]
Content(m, h) == [c \in m.own[h] |-> m.val[c]]
(* the steps; h is the handle they work on                                       *)
Make(m) == New(New(m, "caller"), "lib")
Touch(m, h) == Write(m, h)                       \* the caller changes what it holds
Read(m, h) == New(m, "result")                   \* an accessor of h
Derive(m, h) == New(m, "lib")                    \* an object made from h
Update(m, h) == Write(New(m, "caller"), h)       \* h changed by an operation with new arguments
Use(m, h) == New(New(m, "caller"), "result")     \* h evaluated on new arguments
Apply(m, s) == CASE s.op = "make" -> Make(m)
                 [] s.op = "touch" -> Touch(m, s.h)
                 [] s.op = "read" -> Read(m, s.h)
                 [] s.op = "derive" -> Derive(m, s.h)
                 [] s.op = "update" -> Update(m, s.h)
                 [] OTHER -> Use(m, s.h)
(* the only handle whose content a step may change                               *)
Target(s) == IF s.op \in {"touch", "update"} THEN s.h ELSE 0
Enabled(m, s) == CASE s.op = "make" -> m.own = <<>>
                   [] s.op = "touch" -> s.h \in DOMAIN m.kind /\ m.kind[s.h] # "lib"
                   [] OTHER -> s.h \in DOMAIN m.kind /\ m.kind[s.h] = "lib"
Disjoint(m) == \A i, j \in DOMAIN m.own : i # j => m.own[i] \cap m.own[j] = {}
=============================================================================

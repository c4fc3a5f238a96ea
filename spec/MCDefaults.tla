------------------------------ MODULE MCDefaults ------------------------------
EXTENDS Defaults, TraceLib
CONSTANTS Emitting
VARIABLES call
Init == call = <<>>
Next == call = <<>> /\ \E u \in Units : \E x \in Tried(Len(u[2])) : call' = [u |-> u, c |-> x] /\ (Emitting => Emit(call'))
Spec == Init /\ [][Next]_call
(* what is in effect is not "omitted", and giving the defaults changes nothing   *)
Inv == call # <<>> => \A i \in DOMAIN call.c : Effective(call.c)[i] # "omitted" /\ (call.c[i] = "other" <=> Effective(call.c)[i] = "other")
(* every unit is run with everything left out and with all defaults given        *)
Both == \A u \in Units : {[i \in 1..Len(u[2]) |-> g] : g \in {"omitted", "default"}} \subseteq Tried(Len(u[2]))
===============================================================================

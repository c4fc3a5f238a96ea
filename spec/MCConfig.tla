------------------------------ MODULE MCConfig ------------------------------
EXTENDS Config, TraceLib
CONSTANTS Emitting
VARIABLES call
Init == call = <<>>
Next == call = <<>> /\ \E c \in Calls : \E p \in Domain(c) : call' = [c |-> c, p |-> p] /\ (Emitting => Emit(call'))
Spec == Init /\ [][Next]_call
(* every operation has supported and unsupported calls; validity is an interval for single numbers *)
Inv == \A c \in Calls : (\E p \in Domain(c) : Valid(c, p)) /\ (\E p \in Domain(c) : ~Valid(c, p))
Upward == call # <<>> /\ call.c \in {"Ball", "ScalingBall", "ArithmeticMean", "Uniform", "Fibonacci", "Archimedian", "Mean", "interpolate-nothing", "archimedian-points"} =>
  \A q \in Domain(call.c) : Valid(call.c, call.p) /\ q[1] >= call.p[1] => Valid(call.c, q)
=============================================================================

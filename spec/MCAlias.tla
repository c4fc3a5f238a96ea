----------------------------- MODULE MCAlias -----------------------------
EXTENDS Alias, TraceLib
CONSTANTS Emitting, Depth
VARIABLES m, hist
Init == m = Apply(Empty, [op |-> "make", h |-> 0]) /\ hist = <<>>
Steps == { s \in [op : {"touch", "read", "derive", "update", "use"}, h : 1..(Len(m.own))] : Enabled(m, s) }
Next == /\ Len(hist) < Depth
        /\ \E s \in Steps : m' = Apply(m, s) /\ hist' = Append(hist, s)
        /\ (Emitting /\ Len(hist') = Depth => Emit(hist'))
Spec == Init /\ [][Next]_<<m, hist>>
Inv == Disjoint(m)
(* no step changes what another handle sees                                      *)
Frame == [][\A h \in DOMAIN m.own : h # Target(hist'[Len(hist')]) => Content(m', h) = Content(m, h)]_<<m, hist>>
(* a step that may change something does                                         *)
Effect == [][Target(hist'[Len(hist')]) # 0 => Content(m', Target(hist'[Len(hist')])) # Content(m, Target(hist'[Len(hist')]))]_<<m, hist>>
=============================================================================

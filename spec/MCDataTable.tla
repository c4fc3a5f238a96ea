---------------------------- MODULE MCDataTable ----------------------------
(* Bounded exhaustive exploration of the container; every distinct state is
   emitted once with a shortest history reaching it followed by every
   operation, which the driver replays into the real code.                   *)
EXTENDS DataTable, TraceLib
CONSTANTS MaxDepth, MaxRows
VARIABLES d, hist, lastop, prev

K == {"a", "b"}
F(x) == <<"f", x>>
Vals == {NoneV, <<"f", 1>>, <<"s", 1>>}
Lists == {<<>>, <<NoneV>>, <<F(1)>>, <<F(1), NoneV>>, <<NoneV, F(2)>>, <<F(1), <<"s", 1>>>>}
Seqs1(S) == {<<x>> : x \in S}
Ops == [op : {"append"}, k : K, v : Vals]
  \cup [op : {"extend"}, k : K, v : {<<F(1), NoneV>>, <<F(1), <<"s", 1>>>>, <<>>}]
  \cup [op : {"update"}, compress : BOOLEAN,
        es : Seqs1([k : {"a"}, v : {<<F(1)>>, <<NoneV, F(2)>>}]) \cup
             {<<[k |-> "a", v |-> <<F(3)>>], [k |-> "b", v |-> <<<<"s", 1>>>>]>>,
              <<[k |-> "b", v |-> <<NoneV>>], [k |-> "a", v |-> <<<<"s", 2>>>>]>>}]
  \cup [op : {"fillall"}]
  \cup [op : {"filln"}, m : {1, 3}]
  \cup [op : {"fillk"}, ks : {<<"b">>}]
  \cup [op : {"delcols"}, ks : {<<"a">>, <<"a", "b">>}]
  \cup [op : {"delrows"}, idx : {<<0>>, <<1, 1>>, <<0, 2>>}]
  \cup [op : {"rename"}, a : {"a"}, b : {"a", "b", "c"}]
  \cup [op : {"slice"}, ks : {<<"a">>, <<"b", "c">>, <<>>}]
  \cup [op : {"strip"}, mode : {"cols", "rows", "all"}]
  \cup [op : {"filtertypes"}, ts : {<<"f">>, <<"s", "-">>}]
MaskOps == { [op |-> "mask", m |-> m] : m \in [1..d.n -> BOOLEAN] }

Init == d = Empty /\ hist = <<>> /\ lastop = [op |-> "none"] /\ prev = Empty
Next == /\ Len(hist) < MaxDepth
        /\ \E o \in Ops \cup MaskOps :
             LET r == Apply(d, o) IN
             /\ r.d.n <= MaxRows
             /\ d' = r.d /\ hist' = Append(hist, o) /\ lastop' = o /\ prev' = d
Spec == Init /\ [][Next]_<<d, hist, lastop, prev>>
View == d
EmitInv == Emit(hist)
Inv == TableOK(d)
StepOK == /\ OldRowsKept(d, lastop', d')
          /\ RowsMoveTogether(d, lastop', d')
          /\ (lastop'.op = "update" => LET r == Apply(d, lastop') IN r.ok => Rect(d'))
          /\ (~Apply(d, lastop').ok => d' = d)
StepProp == [][StepOK]_<<d, hist, lastop, prev>>
=============================================================================

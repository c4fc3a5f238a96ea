------------------------------- MODULE MCCloud -------------------------------
EXTENDS Cloud, TraceLib
CONSTANTS Depth, Emitting
VARIABLES c, hist, made
Pts == {<<>>, <<<<8, 40, 4>>>>, <<<<8, 1480, 4>>, <<-4, 40, 8>>>>, <<<<0, -40, 12>>, <<8, 40, 16>>>>, <<<<12, 1440, 20>>, <<8, 40, 4>>>>}
App == {<<<<8, 0, 4>>>>, <<<<8, 720, 4>>, <<4, 1440, 8>>>>, <<<<-4, 0, 8>>>>}
Ops == [op : {"make", "add"}, pts : Pts, app : {FALSE}, fin : {TRUE}] \cup [op : {"make", "add"}, pts : App, app : {TRUE}, fin : {TRUE}]
       \cup [op : {"make", "add"}, pts : {<<<<8, 40, 4>>>>}, app : {FALSE}, fin : {FALSE}]
       \cup [op : {"call"}, ws : {8, 10}, wa : {40, 1480, 400}, r : {4, 2000}, iv : {28}]
       \cup [op : {"slice"}, w : {8, 11}, r : {0, 4}]
Init == c = <<>> /\ hist = <<>> /\ made = FALSE
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : /\ (hist = <<>>) <=> (o.op = "make")
                          /\ (hist # <<>>) => made
                          /\ (o.op \in {"call", "slice"}) => Len(hist) = Depth - 1
                          /\ (o.op \in {"call", "slice"}) => c # <<>>
                          /\ LET r == ApplyC(c, o) IN c' = r.c /\ made' = (made \/ r.ok)
                          /\ hist' = Append(hist, o)
        /\ (Emitting => ((Len(hist') = Depth \/ ~made') => Emit(hist')))
Spec == Init /\ [][Next]_<<c, hist, made>>
Inv == /\ CloudOK(c)
       /\ \A w \in {8, 11} : Len(SliceC(c, w, 0)) <= Len(SliceC(c, w, 4))
       /\ RangeC(SortedC(ColC(c, 1))) = ColC(c, 1)
Grow == [][hist # <<>> => (Len(c') >= Len(c) /\ SubSeq(c', 1, Len(c)) = c)]_<<c, hist, made>>
=============================================================================

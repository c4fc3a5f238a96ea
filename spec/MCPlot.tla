-------------------------------- MODULE MCPlot --------------------------------
EXTENDS Plot, TraceLib
CONSTANTS Emitting
VARIABLES c
T == [kind |-> "table", ws |-> <<4000, 6000, 8000>>, wa |-> <<40000, 90000, 200000>>, bsp |-> <<<<1000, 2000, 3000>>, <<4000, 5000, 6500>>, <<500, 0, 2000>>>>]
T1 == [kind |-> "table", ws |-> <<6000, 7000>>, wa |-> <<0, 120000>>, bsp |-> <<<<1000, 2000>>, <<2000, 2500>>>>]
C == [kind |-> "cloud", pts |-> <<<<5000, 300000, 3000>>, <<4000, 270000, 2000>>, <<6000, 90000, 2500>>, <<7000, 0, 500>>, <<6000, 10000, 4000>>>>]
C2 == [kind |-> "cloud", pts |-> <<<<6000, 80000, 1000>>, <<6000, 20000, 3000>>, <<5000, 280000, 2000>>>>]
U == [kind |-> "curve", a |-> 2, b |-> 3, rad |-> FALSE]
M(s) == [kind |-> "multi", sails |-> [i \in DOMAIN s |-> <<"jib", "spi", "gen">>[i]], subs |-> s]
Diagrams == {T, T1, C, U, M(<<C, C2>>), M(<<C2, T1>>), M(<<C, T1, C2>>)}
Reqs(d) == IF d.kind = "table" THEN IF Len(d.ws) = 3 THEN {<<>>, <<4000>>, <<8000, 4000>>, <<4000, 6000, 8000>>, <<6000, 6000, 6000>>} ELSE {<<6000>>, <<6000, 7000>>}
           ELSE IF d.kind = "multi" THEN {<<6000>>, <<7000, 6000>>} ELSE {<<6000>>, <<4000, 5000, 6000>>, <<7000, 5000>>}
R == <<1000, 0, 0>>
G == <<0, 502, 0>>
Y == <<200, 400, 600>>
Cols(W) == { [kind |-> "one", cs |-> <<Y>>, at |-> <<>>], [kind |-> "two", cs |-> <<G, R>>, at |-> <<>>], [kind |-> "list", cs |-> <<Y, G, R>>, at |-> <<>>],
             [kind |-> "pairs", cs |-> <<R>>, at |-> <<W[1]>>], [kind |-> "pairs", cs |-> <<R, Y>>, at |-> <<W[Len(W)], W[1]>>] }
Init == c = [op |-> ""]
Next == /\ c.op = ""
        /\ \E d \in Diagrams : \E r \in Reqs(d) : \E col \in Cols(Speeds(d, r, 0)), polar \in BOOLEAN, sc \in BOOLEAN :
             /\ (col.kind = "pairs" => Cardinality(Elems(Speeds(d, r, 0))) = Len(Speeds(d, r, 0)) /\ Cardinality(Elems(col.at)) = Len(col.at))
             /\ c' = [op |-> "plot", d |-> d, ws |-> r, n |-> 0, o |-> [res |-> 100, range |-> 1000, interp |-> FALSE, off |-> 0], col |-> col, polar |-> polar, scatter |-> sc]
        /\ (Emitting => Emit(c'))
Spec == Init /\ [][Next]_c
W == Speeds(c.d, c.ws, c.n)
Inv == c.op # "" =>
  LET cc == Colours(c.col, W) IN
  /\ Len(cc) = Len(W)
  \* equal winds have equal colours in gradients, and gradients are monotone
  /\ (IsGradient(c.col, W) => \A i \in DOMAIN W, j \in DOMAIN W : (W[i] = W[j] => cc[i] = cc[j]) /\ (W[i] <= W[j] => cc[i][1] <= cc[j][1]))
  \* no point is lost or shared between the pieces of a slice
  /\ \A i \in DOMAIN W : LET g == Groups(c.d, W[i], c.o) IN Len(Cat(g)) = Len(Slice(c.d, W[i], c.o))
  \* hulls: a point strictly between others is covered by them
  /\ \A i \in DOMAIN W : c.d.kind = "cloud" => LET P == { XY(p) : p \in Elems(SlicePts(Slice(c.d, W[i], c.o))) } IN \A p \in P : Covered(p, P) /\ (Deep(p, P) => Covered(p, P \ {p}))
===============================================================================

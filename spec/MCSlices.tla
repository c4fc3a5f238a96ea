------------------------------- MODULE MCSlices -------------------------------
EXTENDS Slices, TraceLib
CONSTANTS Emitting
VARIABLES c
T == [kind |-> "table", ws |-> <<4000, 6000, 8000>>, wa |-> <<45000, 90000>>, bsp |-> <<<<1000, 2000, 3000>>, <<4000, 5000, 6500>>>>]
T1 == [kind |-> "table", ws |-> <<6000>>, wa |-> <<0, 120000>>, bsp |-> <<<<1000>>, <<2000>>>>]
C == [kind |-> "cloud", pts |-> <<<<3000, 90000, 1000>>, <<5000, 30000, 3000>>, <<4000, 270000, 2000>>, <<6000, 90000, 2500>>, <<7000, 0, 500>>>>]
U == [kind |-> "curve", a |-> 2, b |-> 3, rad |-> FALSE]
V == [kind |-> "curve", a |-> 1, b |-> 5, rad |-> TRUE]
M(s) == [kind |-> "multi", sails |-> [i \in DOMAIN s |-> <<"jib", "spi", "gen">>[i]], subs |-> s]
Diagrams == {T, T1, C, U, V, M(<<T, U>>), M(<<U, V, C>>), M(<<T1, T>>)}
Reqs == {<<>>, <<4000>>, <<6000, 5000>>, <<0>>, <<2000, 6000, 8000>>, <<8000, 4000>>, <<5000, 5000>>, <<-1000, 4000>>}
Init == c = [op |-> ""]
Next == /\ c.op = ""
        /\ \E d \in Diagrams, r \in Reqs, n \in {0, 1, 3}, o \in [res : {2, 5, 13}, range : {0, 1000, 2500}, interp : {TRUE, FALSE}, off : {0}] :
             /\ (r = <<>> => n # 3)
             /\ c' = [op |-> "slices", d |-> d, ws |-> r, n |-> n, o |-> o]
        /\ (Emitting => Emit(c'))
Spec == Init /\ [][Next]_c
W == Speeds(c.d, c.ws, c.n)
Base == Speeds(c.d, c.ws, 0)
Inv == c.op # "" =>
  /\ Len(W) = Len(Base) + c.n * (Len(Base) - 1)
  /\ W[1] = Base[1] /\ W[Len(W)] = Base[Len(Base)]
  /\ \A i \in DOMAIN Base : W[(i - 1) * (c.n + 1) + 1] = Base[i]
  /\ \A i \in DOMAIN W :
       LET s == Slice(c.d, W[i], c.o) IN
       /\ (c.d.kind = "multi" => Len(Labels(c.d, W[i], c.o)) = Len(s))
       /\ \A k \in DOMAIN s : SAbs(s[k][1] - W[i]) <= (IF c.d.kind \in {"cloud", "multi"} THEN c.o.range ELSE 0)
===============================================================================

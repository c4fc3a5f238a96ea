------------------------------- MODULE MCGlobe -------------------------------
EXTENDS Globe, TraceLib
CONSTANTS Emitting
VARIABLES c
None == [p |-> <<0, 0>>, q |-> <<0, 0>>, r |-> <<0, 0>>]
Pos == { <<lat, lon>> : lat \in {-90, -60, -30, 0, 45, 90}, lon \in {-180, -90, -1, 0, 60, 120, 180, 270} }
Third == { <<0, 0>>, <<90, 0>>, <<-30, 100>>, <<10, 179>> }
Init == c = None
Next == /\ c = None
        /\ \E p \in Pos, q \in Pos, r \in Third : c' = [p |-> p, q |-> q, r |-> r]
        /\ (Emitting => Emit(c'))
Spec == Init /\ [][Next]_c
Near(a, b, t) == \A i \in DOMAIN a : GAbs(a[i] - b[i]) <= t
Inv ==
  /\ GAbs(Dot(Ball(c.p), Ball(c.p)) - One) <= 3
  /\ Dot(Ball(c.p), Ball(c.q)) = Dot(Ball(c.q), Ball(c.p))
  \* projections tell places apart and do not depend on how a place is written
  /\ (Same(c.p, c.q) <=> Near(Ball(c.p), Ball(c.q), 2))
  /\ (Antipodal(c.p, c.q) <=> Near(Ball(c.p), [i \in 1..3 |-> -Ball(c.q)[i]], 2))
  /\ (GAbs(c.p[1]) < 87 /\ GAbs(c.q[1]) < 87 => (Same(c.p, c.q) <=> FlatMap(c.p) = FlatMap(c.q)))
  \* at every pair there is exactly one length (up to rounding)
  /\ LET o == { k \in 0..104 : DistOk("sphere", c.p, c.q, RDiv(k * 31416, 104)) } IN \A k \in o, m \in o : GAbs(k - m) <= 4
==============================================================================

--------------------------- MODULE MCWeatherSource ---------------------------
(* Reading what was written gives the grid, in whatever layout.               *)
EXTENDS WeatherSource, TraceLib
VARIABLES g, lay
Axs == {<<0>>, <<0, 3>>, <<1, 2, 6>>}
Perms == { <<"t", "y", "x">>, <<"t", "x", "y">>, <<"y", "t", "x">>, <<"y", "x", "t">>, <<"x", "t", "y">>, <<"x", "y", "t">> }
G(a) == [ax |-> a, attrs |-> <<"a", "b">>,
         dat |-> [i \in DOMAIN a[1] |-> [j \in DOMAIN a[2] |-> [k \in DOMAIN a[3] |-> <<25 * i + 5 * j + k, (i * i * 7 + j * k * 3 + 11 * i * k) % 17>>]]]]
Init == /\ \E a \in {<<x, y, z>> : x \in Axs, y \in Axs, z \in Axs} : g = G(a)
        /\ lay \in {<<dy, dx, p>> : dy \in BOOLEAN, dx \in BOOLEAN, p \in Perms}
        /\ Emit(Write(g, lay[1], lay[2], lay[3]))
Next == UNCHANGED <<g, lay>>
Spec == Init /\ [][Next]_<<g, lay>>
RoundTrip == Grid(Write(g, lay[1], lay[2], lay[3])) = g
Ascending == \A d \in 1..3 : LET q == Grid(Write(g, lay[1], lay[2], lay[3])).ax[d] IN \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
=============================================================================

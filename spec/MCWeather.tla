------------------------------ MODULE MCWeather ------------------------------
EXTENDS Weather, TraceLib
CONSTANTS Axes, Emitting, Lim
VARIABLES ax, dat, p
A0 == {<<0>>, <<0, 4>>, <<0, 1, 6>>}
Axs == IF Axes = "small" THEN {<<0>>, <<0, 2>>} ELSE A0
Bits(i, j, k, w) == (w \div (2 ^ (4 * (i - 1) + 2 * (j - 1) + (k - 1)))) % 2
Dats(a) ==
  IF Axes = "small"
  THEN { [i \in DOMAIN a[1] |-> [j \in DOMAIN a[2] |-> [k \in DOMAIN a[3] |-> <<3 * Bits(i, j, k, w)>>]]] : w \in 0..255 }
  ELSE { [i \in DOMAIN a[1] |-> [j \in DOMAIN a[2] |-> [k \in DOMAIN a[3] |->
            <<25 * i + 5 * j + k, (i * i * 7 + j * k * 3 + 11 * i * k) % 17>>]]] }
Init == /\ ax \in {<<x, y, z>> : x \in Axs, y \in Axs, z \in Axs}
        /\ dat \in Dats(ax)
        /\ p \in {<<x, y, z>> : x \in (-1)..Lim, y \in (-1)..Lim, z \in (-1)..Lim}
        /\ (Emitting => Emit([ax |-> ax, dat |-> dat, p |-> p]))
Next == UNCHANGED <<ax, dat, p>>
Spec == Init /\ [][Next]_<<ax, dat, p>>
Inv == Inside(ax, p) => \A a \in DOMAIN dat[1][1][1] : Bounded(ax, dat, p, a)
Inv2 == (p = <<0, 0, 0>>) => \A a \in DOMAIN dat[1][1][1] : ExactAtNodes(ax, dat, a) /\ KnownAtNodes(ax, dat, a) /\ AffineInCell(ax, dat, a)
=============================================================================

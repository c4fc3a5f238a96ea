------------------------------- MODULE MCShow -------------------------------
EXTENDS Show, TraceLib
CONSTANTS Emitting
VARIABLES d, d0, hist
Ent(i, j) == 25 * i + 7 * j - 20
Tab(n, m, z) == [kind |-> "table", ws |-> [j \in 1..n |-> 3 * j + z], wa |-> [i \in 1..m |-> 37 * i + z], b |-> [i \in 1..m |-> [j \in 1..n |-> Ent(i, j + z)]]]
Tabs == { Tab(n, m, z) : n \in 1..(WIDE + 3), m \in 1..3, z \in {0, 1} }
Clouds == { [kind |-> "cloud", pts |-> [i \in 1..n |-> <<10 * i + z, 100 * i + 3 * z, Ent(i, z)>>]] : n \in 0..3, z \in 0..3 }
Multis == { [kind |-> "multi", names |-> q, parts |-> [i \in DOMAIN q |-> Tab(ns[i], 2, i)]] :
              q \in {<<>>, <<<<"Genua">>>>, <<<<"B">>, <<"A">>>>, <<<<"Code", "0">>, <<"0">>, <<"Spi">>>>}, ns \in [1..3 -> {1, WIDE, WIDE + 1}] }
Edits(x) == CASE x.kind = "table" -> { [op |-> "entry", i |-> i, j |-> j, v |-> v] : i \in DOMAIN x.wa, j \in DOMAIN x.ws, v \in {-3, 50} }
              [] x.kind = "cloud" -> { [op |-> "point", v |-> <<31, 402, 17>>] }
              [] OTHER -> { [op |-> "part", p |-> p, i |-> 1, j |-> Len(x.parts[p].ws), v |-> 9] : p \in DOMAIN x.parts }
Init == d = <<>> /\ d0 = <<>> /\ hist = <<>>
Next == \/ hist = <<>> /\ \E x \in Tabs \cup Clouds \cup { m \in Multis : m.parts # <<>> } :
             d' = x /\ d0' = x /\ hist' = <<[op |-> "make", d |-> x]>>
        \/ Len(hist) = 1 /\ \E o \in Edits(d) : d' = EditD(d, o) /\ d0' = d /\ hist' = Append(hist, o) /\ (Emitting => Emit(hist'))
Spec == Init /\ [][Next]_<<d, d0, hist>>
Inv == hist # <<>> =>
  /\ d.kind = "table" => ReadsBack(d)
  /\ (d.kind = "table" /\ Len(hist) = 2) => OneToken(d0, d, hist[2].i, hist[2].j)
  /\ (d.kind = "table" /\ Len(hist) = 2) => (d0 # d /\ hist[2].j \in Shown(Len(d.ws)) => Lines(d) # Lines(d0))
  /\ d.kind = "multi" => Len(Lines(d)) = Len(d.names) + 4 * Len(d.parts)
=============================================================================

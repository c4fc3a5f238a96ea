------------------------------- MODULE MCNMEA -------------------------------
(* all streams up to a length over a small set of sentence shapes *)
EXTENDS NMEA, TraceLib
CONSTANTS MaxLen, Emitting
VARIABLES ss
F(a, p, v, h) == [a |-> a, p |-> p, v |-> v, h |-> h]
Sent(kind, n) ==
  CASE kind = "MWV-T" -> [t |-> "MWV", f |-> <<F("Wind angle", "wind angle", <<"f", 4 * n>>, ""), F("Reference", "", <<"s", 2>>, ""), F("Wind speed", "wind speed", <<"f", 4 * n + 1>>, ""), F("Status", "", <<"s", 9>>, "")>>]
    [] kind = "MWV-R" -> [t |-> "MWV", f |-> <<F("Wind angle", "wind angle", <<"f", 4 * n>>, ""), F("Reference", "", <<"s", 1>>, ""), F("Wind speed", "wind speed", <<"-", 0>>, ""), F("Status", "", <<"s", 9>>, "")>>]
    [] kind = "GLL-S" -> [t |-> "GLL", f |-> <<F("Latitude", "latitude", <<"g", 600 * n>>, "S"), F("Longitude", "longitude", <<"g", 7 * n>>, "E"), F("Timestamp", "timestamp", <<"m", n>>, "")>>]
    [] kind = "GLL-0" -> [t |-> "GLL", f |-> <<F("Latitude", "latitude", <<"-", 0>>, ""), F("Longitude", "longitude", <<"-", 0>>, ""), F("Timestamp", "timestamp", <<"m", n>>, "")>>]
    [] kind = "RMC" -> [t |-> "RMC", f |-> <<F("Timestamp", "timestamp", <<"m", n>>, ""), F("Speed Over Ground", "speed over ground", <<"f", n>>, ""), F("Datestamp", "datestamp", <<"d", n>>, "")>>]
Kinds == {"MWV-T", "MWV-R", "GLL-S", "GLL-0", "RMC"}
Streams == UNION { [1..n -> Kinds] : n \in 0..MaxLen }
Stream(k) == [i \in DOMAIN k |-> Sent(k[i], i)]
Init == ss \in { k \in Streams : TRUE } /\ (Emitting => Emit([kinds |-> ss]))
Next == UNCHANGED ss
Spec == Init /\ [][Next]_ss
Inv == EveryValueOnce(Stream(ss)) /\ RecordsInOrder(Stream(ss))
=============================================================================

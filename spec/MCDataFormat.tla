---------------------------- MODULE MCDataFormat ----------------------------
EXTENDS DataFormat, TraceLib
VARIABLES cols
U == "unknown thing"
C(p, raw, v) == [p |-> p, raw |-> raw, v |-> v]
N0 == <<"-", 0>>
Pool == { C("date", "date", <<<<"d", 1>>, N0, <<"d", 3>>>>), C("date", "Datestamp", <<<<"d", 1>>, N0, <<"d", 3>>>>),
          C("time", "time", <<<<"m", 61>>, <<"m", 2>>, <<"m", 3>>>>), C("time", "Time-Stamp", <<<<"m", 61>>, N0, <<"m", 3>>>>),
          C("datetime", "datetime", <<<<"t", 5>>, <<"t", 6>>, N0>>), C("datetime", "Date Time", <<<<"t", 5>>, <<"t", 6>>, N0>>),
          C("tws", "TWS", <<<<"f", 1>>, <<"f", 2>>, N0>>), C("wind speed", "Wind_Speed", <<<<"i", 1>>, N0, <<"i", 3>>>>),
          C("tws", "tws", <<<<"n", 8>>, <<"n", 4>>, N0>>), C("", U, <<<<"s", 1>>, <<"s", 2>>, N0>>),
          C("", "x", <<<<"I", 4>>, <<"I", 8>>, N0>>), C("", "y", <<<<"n", 4>>, <<"s", 8>>, N0>>) }
Init == \/ \E i \in DOMAIN Synonyms : cols = <<C(Synonyms[i][1], "", <<<<"f", i>>, N0>>)>>
        \/ \E a, b \in Pool : a.raw # b.raw /\ cols = <<a, b>>
        \/ \E a, b, c \in Pool : Cardinality({a.raw, b.raw, c.raw}) = 3 /\ cols = <<a, b, c>>
Next == UNCHANGED cols
Spec == Init /\ [][Next]_cols
Emitted == Emit(cols)
Inv == NoColumnLost(cols) /\ RowsKept(cols) /\ Emitted
=============================================================================

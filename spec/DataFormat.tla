------------------------------ MODULE DataFormat ------------------------------
(* The hrosailing standard format of a table: names, date and time, floats.
   A column is [p, raw, v]: p is the normalised spelling of its name (lower case,
   separators as blanks, no plural s) if that spelling is in the table of
   synonyms and "" otherwise; raw is the name as given.  A value is <<type, x>>:
   f float, i int, n text of a number, D Decimal, I/F/N numpy integer, float and
   text number, s text, d date, m time of day, t datetime, - None.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Synonyms == <<
     <<"wind", "TWS">>,
     <<"wind speed", "TWS">>,
     <<"true", "TWS">>,
     <<"true wind", "TWS">>,
     <<"true wind speed", "TWS">>,
     <<"ws", "TWS">>,
     <<"tws", "TWS">>,
     <<"wspd", "TWS">>,
     <<"apparent wind speed", "AWS">>,
     <<"apparent wind", "AWS">>,
     <<"apparent", "AWS">>,
     <<"aws", "AWS">>,
     <<"angle", "TWA">>,
     <<"wind angle", "TWA">>,
     <<"true angle", "TWA">>,
     <<"true wind angle", "TWA">>,
     <<"wa", "TWA">>,
     <<"twa", "TWA">>,
     <<"apparent wind angle", "AWA">>,
     <<"apparent angle", "AWA">>,
     <<"awa", "AWA">>,
     <<"speed", "BSP">>,
     <<"boat speed", "BSP">>,
     <<"boat speed knots", "BSP">>,
     <<"vessel speed", "BSP">>,
     <<"vessel speed knots", "BSP">>,
     <<"sp", "BSP">>,
     <<"bsp", "BSP">>,
     <<"bsps", "BSP">>,
     <<"water speed", "BSP">>,
     <<"water speed knots", "BSP">>,
     <<"wsp", "BSP">>,
     <<"speed over ground", "SOG">>,
     <<"speed over ground knots", "SOG">>,
     <<"og", "SOG">>,
     <<"sog", "SOG">>,
     <<"spd over grnd", "SOG">>,
     <<"date", "date">>,
     <<"datestamp", "date">>,
     <<"date stamp", "date">>,
     <<"time", "time">>,
     <<"timestamp", "time">>,
     <<"time stamp", "time">>,
     <<"datetime", "datetime">>,
     <<"date time", "datetime">>,
     <<"lat", "lat">>,
     <<"latitude", "lat">>,
     <<"lon", "lon">>,
     <<"long", "lon">>,
     <<"longitude", "lon">>,
     <<"temp", "temp">>,
     <<"temperature", "temp">>,
     <<"dewpoint", "dewpoint">>,
     <<"dewpt", "dewpoint">>,
     <<"dwpt", "dewpoint">>,
     <<"dwpoint", "dewpoint">>,
     <<"rel humidity", "humidity">>,
     <<"relative humidity", "humidity">>,
     <<"rel hum", "humidity">>,
     <<"relative hum", "humidity">>,
     <<"rhum", "humidity">>,
     <<"relhum", "humidity">>,
     <<"hum", "humidity">>,
     <<"humidity", "humidity">>,
     <<"wd", "WD">>,
     <<"wdir", "WD">>,
     <<"winddir", "WD">>,
     <<"wpgt", "gust">>,
     <<"pres", "air pressure">>,
     <<"tsun", "total sunshine">> >>
RangeF(q) == { q[i] : i \in DOMAIN q }
StdOf(p) == LET h == { i \in DOMAIN Synonyms : Synonyms[i][1] = p } IN Synonyms[CHOOSE i \in h : TRUE][2]
StdName(c) == IF c.p = "" THEN c.raw ELSE StdOf(c.p)
NumTypes == {"f", "i", "n", "D", "I", "F", "N"}
(* the name a column gets: its standard name if free, otherwise marked names in order *)
RECURSIVE FreeName(_, _, _)
FreeName(std, i, used) ==
  LET cand == IF i = 0 THEN std ELSE std \o "(Control value " \o ToString(i) \o ")"
  IN IF cand \in used THEN FreeName(std, i + 1, used) ELSE cand
RECURSIVE NameFrom(_, _, _)
NameFrom(cols, k, used) ==   \* sequence of new names of cols[k..]; used: names present in the table now
  IF k > Len(cols) THEN <<>>
  ELSE LET c == cols[k] std == StdName(c) IN
    IF std = c.raw THEN <<c.raw>> \o NameFrom(cols, k + 1, used)
    ELSE LET nm == FreeName(std, 0, used) IN <<nm>> \o NameFrom(cols, k + 1, (used \ {c.raw}) \cup {nm})
Names(cols) == NameFrom(cols, 1, { cols[i].raw : i \in DOMAIN cols })

AllNum(v) == \A i \in DOMAIN v : v[i][1] \in NumTypes \cup {"-"}
Floats(v) == [i \in DOMAIN v |-> IF v[i][1] = "-" THEN v[i] ELSE <<"f", v[i][2]>>]
Conv(v) == IF AllNum(v) THEN Floats(v) ELSE v
Combine(d, m) == [i \in DOMAIN d |-> IF d[i][1] = "-" \/ m[i][1] = "-" THEN <<"-", 0>>
                                     ELSE <<"t", d[i][2] * 86400 + m[i][2]>>]
(* the formatted table as a set of named columns *)
Std(cols) ==
  LET nm == Names(cols)
      named == { [k |-> nm[i], v |-> Conv(cols[i].v)] : i \in DOMAIN cols }
      has(k) == k \in RangeF(nm)
      col(k) == (CHOOSE c \in named : c.k = k).v
  IN IF has("date") /\ has("time") /\ ~has("datetime")
     THEN { c \in named : c.k \notin {"date", "time"} } \cup {[k |-> "datetime", v |-> Combine(col("date"), col("time"))]}
     ELSE named

(* design properties *)
NoColumnLost(cols) == LET nm == Names(cols) IN Cardinality(RangeF(nm)) = Len(cols)
RowsKept(cols) == \A c \in Std(cols) : Len(c.v) = Len(cols[1].v)
=============================================================================

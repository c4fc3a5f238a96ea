-------------------------------- MODULE NMEA --------------------------------
(* Reading an NMEA 0183 stream into a table of records.
   A sentence is [t, f]: its type and its fields in order; a field is
   [a, p, v, h]: attribute name, the name's normalised spelling ("" if it is not a
   known synonym), value, and for positions the hemisphere that follows it.
   A value is <<type, x>>: f number (quarters), s text, d date (days), m time of
   day (tenths of a second), g geographic position (1/60000 degree), - none.     *)
EXTENDS DataFormat
None == <<"-", 0>>
Name(a, p, v) == [a |-> a, p |-> p, v |-> v]
Positive(h) == h \notin {"S", "W"}
Signed(fld) == IF fld.v[1] = "-" \/ Positive(fld.h) THEN fld.v ELSE <<fld.v[1], -fld.v[2]>>
Special == {"Wind angle", "Wind speed", "Reference", "Latitude", "Longitude"}
Has1(fs, a) == \E i \in DOMAIN fs : fs[i].a = a
Get(fs, a) == fs[CHOOSE i \in DOMAIN fs : fs[i].a = a]
Ref(fs) == IF Has1(fs, "Reference") THEN Get(fs, "Reference").v[2] ELSE 0   \* 1 relative, 2 true, else other
IsWind(a) == a \in {"Wind angle", "Wind speed"}
WindOf(fs, a, k) == IF ~Has1(fs, a) THEN <<>>
                    ELSE IF Ref(fs) = 1 THEN <<Name("A" \o k, IF k = "WA" THEN "awa" ELSE "aws", Get(fs, a).v)>>
                    ELSE IF Ref(fs) = 2 THEN <<Name("T" \o k, IF k = "WA" THEN "twa" ELSE "tws", Get(fs, a).v)>>
                    ELSE <<>>
PosOf(fs, a, k) == IF Has1(fs, a) THEN <<Name(k, k, Signed(Get(fs, a)))>> ELSE <<>>
(* the attributes one sentence contributes to its record *)
Contribution(fs) ==
  LET plain(x) == x.a \notin {"Latitude", "Longitude"} /\ ~(x.a \in {"Wind angle", "Wind speed", "Reference"} /\ Has1(fs, "Reference"))
  IN [i \in DOMAIN SelectSeq(fs, plain) |-> LET x == SelectSeq(fs, plain)[i] IN Name(x.a, x.p, x.v)]
     \o WindOf(fs, "Wind angle", "WA") \o WindOf(fs, "Wind speed", "WS")
     \o PosOf(fs, "Latitude", "lat") \o PosOf(fs, "Longitude", "lon")
(* table state: cols - sequence of [a, p] in order of first appearance; recs - sequence of functions name -> value *)
Empty == [cols |-> <<>>, recs |-> <<>>]
At(r, a) == IF a \in DOMAIN r THEN r[a] ELSE None
NewCols(cols, c) == cols \o SelectSeq([i \in DOMAIN c |-> [a |-> c[i].a, p |-> c[i].p]],
                                      LAMBDA x : \A j \in DOMAIN cols : cols[j].a # x.a)
AsRec(c) == [a \in { c[i].a : i \in DOMAIN c } |-> (CHOOSE x \in RangeF(c) : x.a = a).v]
Over(r, s) == [a \in DOMAIN r \cup DOMAIN s |-> IF a \in DOMAIN s THEN s[a] ELSE r[a]]
Belongs(t, c) == t.recs # <<>> /\ \A i \in DOMAIN c : At(t.recs[Len(t.recs)], c[i].a)[1] = "-"
AddSentence(t, fs) ==
  LET c == Contribution(fs) IN
  IF c = <<>> THEN t
  ELSE [cols |-> NewCols(t.cols, c),
        recs |-> IF Belongs(t, c) THEN SubSeq(t.recs, 1, Len(t.recs) - 1) \o <<Over(t.recs[Len(t.recs)], AsRec(c))>>
                 ELSE Append(t.recs, AsRec(c))]
Wanted(flds, mode, names) ==
  SelectSeq(flds, LAMBDA x : IF mode = "wanted" THEN x.a \in names ELSE IF mode = "unwanted" THEN x.a \notin names ELSE TRUE)
NmeaNames(n) == CASE n \in {"TWS", "AWS"} -> {"Wind speed", "Reference"}
                  [] n \in {"TWA", "AWA"} -> {"Wind angle", "Reference"}
                  [] n = "lat" -> {"Latitude"} [] n = "lon" -> {"Longitude"} [] n = "SOG" -> {"Speed Over Ground"}
                  [] n = "date" -> {"Datestamp"} [] n = "time" -> {"Timestamp"} [] OTHER -> {n}
Expand(mode, names) == IF mode = "wanted" THEN UNION { NmeaNames(n) : n \in names } ELSE names
RECURSIVE ReadFrom(_, _, _, _)
ReadFrom(t, ss, mode, names) ==
  IF ss = <<>> THEN t ELSE ReadFrom(AddSentence(t, Wanted(Head(ss).f, mode, names)), Tail(ss), mode, names)
Selected(ss, smode, types) == SelectSeq(ss, LAMBDA x : IF smode = "wanted" THEN x.t \in types ELSE IF smode = "unwanted" THEN x.t \notin types ELSE TRUE)
Records(ss, smode, types, mode, names) == ReadFrom(Empty, Selected(ss, smode, types), mode, Expand(mode, names))

(* the table in standard format, without the columns of unwanted types *)
ColOf(t, i) == [r \in DOMAIN t.recs |-> At(t.recs[r], t.cols[i].a)]
AsCols(t) == [i \in DOMAIN t.cols |-> [p |-> t.cols[i].p, raw |-> t.cols[i].a, v |-> ColOf(t, i)]]
CombineDT(d, m) == [i \in DOMAIN d |-> IF d[i][1] = "-" \/ m[i][1] = "-" THEN <<"-", 0, 0>> ELSE <<"t", d[i][2], m[i][2]>>]
Trip(v) == [i \in DOMAIN v |-> <<v[i][1], v[i][2], 0>>]
NumT == {"f", "n", "g", "-"}
ConvN(v) == IF \A i \in DOMAIN v : v[i][1] \in NumT THEN [i \in DOMAIN v |-> IF v[i][1] = "n" THEN <<"f", v[i][2]>> ELSE v[i]] ELSE v
Table(t) ==
  LET cols == AsCols(t) nm == Names(cols)
      named == { [k |-> nm[i], v |-> Trip(ConvN(cols[i].v))] : i \in DOMAIN cols }
      has(k) == k \in RangeF(nm)
      col(k) == cols[CHOOSE i \in DOMAIN cols : nm[i] = k].v
  IN IF has("date") /\ has("time") /\ ~has("datetime")
     THEN { c \in named : c.k \notin {"date", "time"} } \cup {[k |-> "datetime", v |-> CombineDT(col("date"), col("time"))]}
     ELSE named
WantedTypes == {"f", "g", "d", "m", "t"}
Filtered(tab) == { c \in tab : \E i \in DOMAIN c.v : c.v[i][1] \in WantedTypes }

(* design properties *)
EveryValueOnce(ss) == LET t == ReadFrom(Empty, ss, "all", {}) IN
   \* the multiset of all non-empty values contributed is the multiset of all values of the records
   LET given == { <<i, k>> \in (1..Len(ss)) \X (1..30) :
                   k <= Len(Contribution(ss[i].f)) /\ Contribution(ss[i].f)[k].v[1] # "-" }
       stored == { <<r, a>> \in (1..Len(t.recs)) \X { t.cols[i].a : i \in DOMAIN t.cols } : At(t.recs[r], a)[1] # "-" }
   IN Cardinality(given) = Cardinality(stored)
RecordsInOrder(ss) ==   \* reading one sentence more never changes earlier records
   \A n \in 1..Len(ss) : LET t == ReadFrom(Empty, SubSeq(ss, 1, n - 1), "all", {}) u == AddSentence(t, ss[n].f)
     IN /\ Len(u.recs) \in {Len(t.recs), Len(t.recs) + 1}
        /\ \A i \in 1..(Len(t.recs) - 1) : u.recs[i] = t.recs[i]
        /\ (t.recs # <<>> => \A a \in DOMAIN t.recs[Len(t.recs)] :
              LET v == t.recs[Len(t.recs)][a] IN v[1] # "-" => u.recs[Len(t.recs)][a] = v)
=============================================================================

-------------------------- MODULE TraceWeatherSource --------------------------
EXTENDS WeatherSource, TraceLib
VARIABLES l, s
S0 == [ax |-> <<>>, dat |-> <<>>, attrs |-> <<>>, undecided |-> FALSE]
SC == 4096
ValOk(m, e) == LET den == Den(m.ax, e.p) IN
   \A a \in DOMAIN m.attrs : IF ~Known(m.ax, m.dat, e.p, a) THEN e.v[a] = Lacking ELSE Abs(e.v[a] * den - Num(m.ax, m.dat, e.p, a) * SC) <= den
(* the service: loc[j][k] the records <<tick, values of all attributes>> of a place, all places know the same hours or nothing *)
Places(e) == (DOMAIN e.lat) \X (DOMAIN e.lon)
Knows(e, q) == e.loc[q[1]][q[2]] # <<>>
Hours(e) == LET q == CHOOSE x \in Places(e) : Knows(e, x) IN [i \in DOMAIN e.loc[q[1]][q[2]] |-> e.loc[q[1]][q[2]][i].t]
Pick(e, r) == [a \in DOMAIN e.want |-> r.v[e.want[a]]]
ServiceGrid(e) == [ax |-> <<Hours(e), e.lat, e.lon>>, attrs |-> [a \in DOMAIN e.want |-> e.names[e.want[a]]], undecided |-> FALSE,
   dat |-> [i \in DOMAIN Hours(e) |-> [j \in DOMAIN e.lat |-> [k \in DOMAIN e.lon |->
       IF Knows(e, <<j, k>>) THEN Pick(e, e.loc[j][k][i]) ELSE [a \in DOMAIN e.want |-> 0]]]]]
After(m, e) == CASE e.op = "file" -> LET w == Grid(e.f) IN [ax |-> w.ax, dat |-> w.dat, attrs |-> w.attrs, undecided |-> Undecided(e.f)]
                 [] e.op = "service" -> ServiceGrid(e)
                 [] OTHER -> m
Bad(m, e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE CASE e.op = "refuse" -> Clause("unknown-unit-refused", e.out = "err:NotImplementedError")
         [] e.op \in {"file", "service"} ->
              LET w == After(m, e) IN
              Clause("opens", e.out = "ok")
              \cup (IF e.out # "ok" THEN {} ELSE Clause("grid", e.ax = w.ax) \cup Clause("attributes", e.attrs = w.attrs))
         [] OTHER ->
              IF ~Inside(m.ax, e.p) THEN Clause("outside-is-refused", e.out = "err:ValueError")
              ELSE IF m.undecided THEN Clause("further-index-needed", e.out = "err:NotImplementedError")
              ELSE IF e.out # "ok" THEN {"inside-is-answered"}
              ELSE Clause("attributes", e.keys = m.attrs) \cup Clause("multilinear-value", e.keys = m.attrs => ValOk(m, e))
Init == l = 1 /\ s = S0
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] q == IF e.new THEN S0 ELSE s IN Report(l, Bad(q, e)) /\ s' = After(q, e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================

--------------------------- MODULE TraceWeatherUse ---------------------------
EXTENDS WeatherUse, TraceLib
VARIABLE l
MultiBad(e) == LET r == Multi(e.ans, e.sens) IN
   IF r.k # "ok" THEN Clause("error-passed-on", e.out = "err:" \o r.k)
   ELSE Clause("answers", e.out = "ok")
        \cup (IF e.out # "ok" THEN {} ELSE
             Clause("merged-weather", { <<e.w[i].a, e.w[i].v>> : i \in DOMAIN e.w } = AsSet(r) /\ Len(e.w) = Cardinality(AsSet(r)))
             \cup Clause("models-asked-at-the-point", \A i \in DOMAIN e.asked : e.asked[i]))
ExpandBad(e) ==
  IF Fails(e.ans) THEN {}
  ELSE IF e.out # "ok" THEN {"expands"}
  ELSE LET old == OldCols(e.cols, e.ans, e.mode)
           newc == SelectSeq(e.res, LAMBDA c : c.k \notin { e.cols[i].k : i \in DOMAIN e.cols })
           attrs == IF KeepIdx(e.ans, e.mode) = {} THEN {} ELSE AttrsOf(e.ans)
           n == Cardinality(KeepIdx(e.ans, e.mode))
           has(a, c) == c.v = WeatherCol(e.ans, e.mode, a)
       IN Clause("row-count", e.n = n /\ \A i \in DOMAIN e.res : Len(e.res[i].v) = n)
          \cup Clause("original-values-kept", \A c \in old : \E i \in DOMAIN e.res : e.res[i].k = c.k /\ e.res[i].v = c.v)
          \cup Clause("weather-at-its-row", \A a \in attrs :
                 \E i \in DOMAIN newc : has(a, newc[i]) /\ (a \notin { e.cols[j].k : j \in DOMAIN e.cols } => newc[i].k = a))
          \cup Clause("nothing-else-added", n = 0 \/ Len(newc) = Cardinality(attrs))
          \cup Clause("weather-asked-once-per-row", e.asked = e.points)
          \cup Clause("statistics", e.stat = <<e.n, Len(e.res)>>)
Bad(e) == IF e.out = "hang" THEN {"terminates"} ELSE IF e.op = "multi" THEN MultiBad(e) ELSE ExpandBad(e)
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Bad(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

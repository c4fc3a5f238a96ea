--------------------------- MODULE TraceExtension ---------------------------
EXTENDS Extension, TraceLib
VARIABLES l
P3(p) == [i \in DOMAIN p |-> <<p[i][1], p[i][2], p[i][3]>>]
W4(p) == [i \in DOMAIN p |-> p[i][4]]
TableBad(e) ==
  IF e.pts = <<>> /\ ({e.ws.kind, e.wa.kind} \cap {"min_max", "auto"}) # {} THEN {}
  ELSE IF e.out # "ok" THEN {"table-made"}
  ELSE Clause("table-wind-speeds", WsOk(e.pts, e.ws, e.t.ws))
       \cup Clause("table-wind-angles", WaOk(e.pts, e.wa, e.t.wa))
       \cup Clause("table-grid", GridOK(e.t))
       \cup (IF ~GridOK(e.t) THEN {} ELSE Clause("table-entry", \A i \in DOMAIN e.t.wa : \A j \in DOMAIN e.t.ws :
               ValueOk(e.pts, e.nb, e.kind, <<e.t.ws[j], e.t.wa[i]>>, e.t.bsp[i][j])))
CloudBad(e) ==
  IF e.out # "ok" THEN {"cloud-made"}
  ELSE Clause("sampler-gets-the-wind", IsPermutation(e.sin, [i \in DOMAIN e.pts |-> <<e.pts[i][1], e.pts[i][2]>>]))
       \cup Clause("one-point-per-sample", Len(e.cloud) = Len(e.smp))
       \cup (IF Len(e.cloud) # Len(e.smp) THEN {} ELSE Clause("cloud-point", \A k \in DOMAIN e.smp :
               LET g == e.smp[k]
                   same(p) == p[1] = g[1] /\ p[2] = g[2] % FULL /\ ValueOk(e.pts, e.nb, e.kind, g, p[3]) IN
                 \E i \in DOMAIN e.cloud : same(e.cloud[i])))
CurveBad(e) ==
  IF e.out # "ok" THEN {"curve-made"}
  ELSE Clause("regressor-gets-the-points", \A i \in DOMAIN e.fit : e.fit[i] \in Range(P3(e.pts)))
       \cup Clause("regressor-gets-all-points", IsPermutation(e.fit, P3(e.pts)))
       \cup Clause("curve-unit", e.rad = e.crad)
       \cup Clause("curve-value", \A k \in DOMAIN e.q :
               e.v[k] = e.p[1] + e.p[2] * e.q[k][1] + e.p[3] * e.q[k][2])
       \cup Clause("earlier-curve-kept", e.oldv = e.old)
InjBad(e) ==
  LET n == e.n a == MinS(Col(e.pts, 1)) b == MaxS(Col(e.pts, 1)) IN
  IF e.out # "ok" THEN {"injects"}
  ELSE Clause("injected-number", Len(e.inj) = 2 * n /\ e.stat = 2 * n)
       \cup Clause("injected-weights", \A i \in DOMAIN e.inj : e.inj[i][4] = 1)
       \cup Clause("injected-speed-zero", \A i \in DOMAIN e.inj : e.inj[i][3] = 0)
       \cup Clause("injected-angles", \A i \in DOMAIN e.inj : e.inj[i][2] \in {0, FULL})
       \cup Clause("injected-wind-speeds", \A d \in {0, FULL} :
               LET s == SelectSeq(e.inj, LAMBDA p : p[2] = d) IN
               Len(s) = n /\ (n = 0 \/ LinSpaceOk([i \in DOMAIN s |-> s[i][1]], a, b, n, 256)))
Bad(e) == (CASE e.op = "table" -> TableBad(e)
             [] e.op = "cloud" -> CloudBad(e)
             [] e.op = "curve" -> CurveBad(e)
             [] OTHER -> InjBad(e))
          \cup Clause("points-not-changed", e.after = e.pts)
Init == l = 1
Next == /\ l <= Len(Trace) /\ Report(l, Bad(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

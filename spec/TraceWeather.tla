---------------------------- MODULE TraceWeather ----------------------------
EXTENDS Weather, TraceLib
VARIABLES l, s
S0 == [ax |-> <<>>, dat |-> <<>>, attrs |-> <<>>]
SC == 4096    \* results are recorded in units of 1/4096
ValOk(m, e) == LET den == Den(m.ax, e.p) IN
   \A a \in DOMAIN m.attrs : IF ~Known(m.ax, m.dat, e.p, a) THEN e.v[a] = Lacking ELSE Abs(e.v[a] * den - Num(m.ax, m.dat, e.p, a) * SC) <= den
InRange(m, e) == \A a \in { x \in DOMAIN m.attrs : Known(m.ax, m.dat, e.p, x) } : \A lo, hi \in Corners(m.ax, m.dat, e.p, a) :
   ((\A c \in Corners(m.ax, m.dat, e.p, a) : lo <= c /\ c <= hi) => lo * SC - 1 <= e.v[a] /\ e.v[a] <= hi * SC + 1)
Bad(m, e) ==
  IF e.out = "hang" THEN {"terminates"}
  ELSE IF e.op \in {"make", "reload"} THEN
     LET want == IF e.op = "make" THEN [ax |-> e.ax, dat |-> e.dat, attrs |-> e.attrs] ELSE m IN
     Clause(e.op, e.out = "ok")
     \cup (IF e.out # "ok" THEN {} ELSE
        Clause(e.op \o "-grid", e.obs.ax = want.ax)
        \cup Clause(e.op \o "-data", e.obs.dat = want.dat)
        \cup Clause(e.op \o "-attributes", e.obs.attrs = want.attrs)
        \cup Clause(e.op \o "-kind", e.kind = "asked"))
  ELSE IF ~Inside(m.ax, e.p) THEN Clause("outside-is-refused", e.out = "refused")
  ELSE IF e.out # "ok" THEN {"inside-is-answered"}
  ELSE Clause("attributes", e.keys = m.attrs)
       \cup Clause("multilinear-value", e.keys = m.attrs => ValOk(m, e))
       \cup Clause("between-corners", e.keys = m.attrs => InRange(m, e))
Step(m, e) == IF e.op = "make" THEN [ax |-> e.ax, dat |-> e.dat, attrs |-> e.attrs] ELSE m
Init == l = 1 /\ s = S0
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] q == IF e.new THEN S0 ELSE s IN Report(l, Bad(q, e)) /\ s' = Step(q, e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================

-------------------------------- MODULE Slices --------------------------------
(* Slices of polar diagrams.  Speeds, angles and boat speeds are in 1/1000.
     d = [kind, ...]
       table: ws, wa (increasing), bsp (one row per angle)
       cloud: pts (sequence of <<tws, twa, bsp>>)
       curve: a, b; the boat speed is a * tws + b * |180 - twa|
       multi: sails, subs (sequences of names and of other diagrams)
   Speeds a diagram does not store come from the interpolator of the request,
   here one with the value tws + 100 * twa (angle within 0 to 360).             *)
EXTENDS Integers, Sequences, FiniteSets
SAbs(x) == IF x < 0 THEN -x ELSE x
RDiv(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((b - 2 * a) \div (2 * b))
SMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Elems(s) == { s[i] : i \in DOMAIN s }
(* the requested wind speeds: n more between any two neighbours                  *)
Lin(a, b, n) == [i \in 1..n |-> a + RDiv((i - 1) * (b - a), n - 1)]
RECURSIVE Between(_, _)
Between(ws, n) == IF Len(ws) = 1 THEN ws
                  ELSE [i \in 1..(n + 1) |-> ws[1] + RDiv((i - 1) * (ws[2] - ws[1]), n + 1)] \o Between(Tail(ws), n)
RECURSIVE Default(_)
Default(d) == CASE d.kind = "table" -> d.ws
                [] d.kind = "cloud" -> LET S == { d.pts[i][1] : i \in DOMAIN d.pts } IN Lin(SMin(S), SMax(S), 20)
                [] d.kind = "curve" -> Lin(5000, 20000, 16)
                [] OTHER -> LET S == UNION { Elems(Default(d.subs[i])) : i \in DOMAIN d.subs } IN Lin(SMin(S), SMax(S), 20)
Speeds(d, ws, n) == LET w == IF ws = <<>> THEN Default(d) ELSE ws IN IF n = 0 THEN w ELSE Between(w, n)
Stub(ws, wa) == RDiv(ws, 1) + 100 * (wa % 360000)
Curve(d, ws, wa) == d.a * ws + d.b * SAbs(180000 - (wa % 360000))
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
RECURSIVE Slice(_, _, _)
(* o = [res, range, interp, off]: number of angles, reach of a cloud's slice and  *)
(* how far the wind speed is off what is asked for (rounding of those in between)*)
Slice(d, w, o) ==
  CASE d.kind = "table" -> LET c == { j \in DOMAIN d.ws : d.ws[j] = w }
                           IN [i \in DOMAIN d.wa |-> <<w, d.wa[i], IF c = {} THEN Stub(w, d.wa[i]) ELSE d.bsp[i][CHOOSE j \in c : TRUE]>>]
    [] d.kind = "cloud" /\ o.interp -> LET A == Lin(0, 360000, o.res)
                           IN [i \in DOMAIN A |-> LET s == { k \in DOMAIN d.pts : d.pts[k][1] = w /\ d.pts[k][2] = A[i] % 360000 }
                                                  IN <<w, A[i], IF s = {} THEN Stub(w, A[i]) ELSE d.pts[SMin(s)][3]>>]
    [] d.kind = "cloud" -> SelectSeq(d.pts, LAMBDA p : SAbs(p[1] - w - o.off) <= o.range)
    [] d.kind = "curve" -> LET A == Lin(0, 360000, o.res) IN [i \in DOMAIN A |-> <<w, A[i], Curve(d, w, A[i])>>]
    [] OTHER -> Cat([i \in DOMAIN d.subs |-> Slice(d.subs[i], w, o)])
Labels(d, w, o) == Cat([i \in DOMAIN d.subs |-> [k \in DOMAIN Slice(d.subs[i], w, o) |-> d.sails[i]]])
(* a wind speed no slice exists for                                              *)
RECURSIVE Refused(_, _, _)
Refused(d, w, o) == CASE d.kind = "cloud" -> o.interp /\ w <= 0
                      [] d.kind = "curve" -> w < 0
                      [] d.kind = "table" -> FALSE
                      [] OTHER -> \E i \in DOMAIN d.subs : Refused(d.subs[i], w, o)
(* points: the default ones of stored diagrams, or one per given wind            *)
RECURSIVE Stored(_)
Stored(d) == CASE d.kind = "table" -> Cat([i \in DOMAIN d.wa |-> [j \in DOMAIN d.ws |-> <<d.ws[j], d.wa[i], d.bsp[i][j]>>]])
               [] d.kind = "cloud" -> d.pts
               [] d.kind = "curve" -> LET W == Lin(5000, 20000, 128) A == Lin(5000, 355000, 144)
                                      IN [k \in 1..(128 * 144) |-> <<W[((k - 1) % 128) + 1], A[((k - 1) \div 128) + 1], 0>>]
               [] OTHER -> Cat([i \in DOMAIN d.subs |-> Stored(d.subs[i])])
At(d, ws, wa) == CASE d.kind = "table" -> LET j == CHOOSE j \in DOMAIN d.ws : d.ws[j] = ws i == CHOOSE i \in DOMAIN d.wa : d.wa[i] = wa IN d.bsp[i][j]
                   [] d.kind = "cloud" -> LET s == { k \in DOMAIN d.pts : d.pts[k][1] = ws /\ d.pts[k][2] = wa } IN d.pts[SMin(s)][3]
                   [] d.kind = "curve" -> Curve(d, ws, wa)
                   [] OTHER -> SMax({ Curve(d.subs[i], ws, wa) : i \in DOMAIN d.subs })
Combos(W, A) == [k \in 1..(Len(W) * Len(A)) |-> <<W[((k - 1) % Len(W)) + 1], A[((k - 1) \div Len(W)) + 1]>>]
================================================================================

-------------------------------- MODULE Table --------------------------------
(* The polar diagram table as a grid: ws (wind speeds), wa (wind angles), both
   ascending, and bsp[i][j] the speed at wa[i], ws[j].  Numbers are integers in
   quarter units (so angles are taken modulo 1440).                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
FULL == 1440
RangeT(q) == { q[i] : i \in DOMAIN q }
NoTable == [ws |-> <<>>, wa |-> <<>>, bsp |-> <<>>]
OkT(t) == [ok |-> TRUE, t |-> t]
NoT(t) == [ok |-> FALSE, t |-> t]

Rank(q, x) == Cardinality({i \in DOMAIN q : q[i] < x}) + 1
SortedT(q) == [r \in DOMAIN q |-> CHOOSE x \in RangeT(q) : Rank(q, x) = r]     \* distinct entries
Pos(q, x) == CHOOSE i \in DOMAIN q : q[i] = x
Mod(q) == [i \in DOMAIN q |-> q[i] % FULL]
DistinctT(q) == Cardinality(RangeT(q)) = Len(q)
Steps(step, max) == [i \in 1..((max - 1) \div step) |-> i * step]

(* res: [kind |-> "none"] | [kind |-> "step", x |-> n] | [kind |-> "list", v |-> seq] *)
WsRes(r) == CASE r.kind = "none" -> [i \in 1..20 |-> 8 * i]
             [] r.kind = "step" -> Steps(r.x, 160)
             [] OTHER -> r.v
WaRes(r) == CASE r.kind = "none" -> [i \in 1..72 |-> 20 * (i - 1)]
             [] r.kind = "step" -> Steps(r.x, 1440)
             [] OTHER -> Mod(r.v)
ResOk(r, max, neg) == CASE r.kind = "none" -> TRUE
             [] r.kind = "step" -> r.x > 0 /\ r.x <= max
             [] OTHER -> r.fin /\ r.v # <<>> /\ (neg \/ \A i \in DOMAIN r.v : r.v[i] >= 0)
ShapeOf(m) == <<Len(m), IF m = <<>> THEN 0 ELSE Len(m[1])>>
Make(t, wsr, war, hasb, b, fin) ==
  IF ~ResOk(wsr, 160, FALSE) \/ ~ResOk(war, 1440, TRUE) THEN NoT(t)
  ELSE LET W == WsRes(wsr) A == WaRes(war) IN
    IF hasb /\ (~fin \/ Len(b) # Len(A) \/ \E i \in DOMAIN b : Len(b[i]) # Len(W)) THEN NoT(t)
    ELSE LET ws == SortedT(W) wa == SortedT(A) IN
      OkT([ws |-> ws, wa |-> wa,
           bsp |-> [i \in DOMAIN wa |-> [j \in DOMAIN ws |->
                     IF hasb THEN b[Pos(A, wa[i])][Pos(W, ws[j])] ELSE 0]]])

(* selectors: [kind |-> "all"] or [kind |-> "sel", v |-> seq] ; selection is by set *)
SelWs(t, s) == IF s.kind = "all" THEN RangeT(t.ws) ELSE RangeT(s.v)
SelWa(t, s) == IF s.kind = "all" THEN RangeT(t.wa) ELSE RangeT(Mod(s.v))
SelOk(t, S, res) == S # {} /\ S \subseteq RangeT(res)
Change(t, sw, sa, shape, vals, fin) ==
  LET W == SelWs(t, sw) A == SelWa(t, sa) nw == Cardinality(W) na == Cardinality(A)
      shapeOk == IF na = 1 /\ nw = 1 THEN shape = <<1>>
                 ELSE IF na = 1 THEN shape = <<nw>>
                 ELSE IF nw = 1 THEN shape = <<na>>
                 ELSE shape = <<na, nw>>
  IN IF ~fin \/ ~SelOk(t, W, t.ws) \/ ~SelOk(t, A, t.wa) \/ ~shapeOk THEN NoT(t)
     ELSE LET rw(x) == Cardinality({y \in W : y < x}) ra(x) == Cardinality({y \in A : y < x}) IN
       OkT([t EXCEPT !.bsp = [i \in DOMAIN t.wa |-> [j \in DOMAIN t.ws |->
             IF t.wa[i] \in A /\ t.ws[j] \in W THEN vals[ra(t.wa[i]) * nw + rw(t.ws[j]) + 1] ELSE t.bsp[i][j]]]])
Get(t, w, a) == IF w \in RangeT(t.ws) /\ (a % FULL) \in RangeT(t.wa)
                THEN [ok |-> TRUE, v |-> t.bsp[Pos(t.wa, a % FULL)][Pos(t.ws, w)]] ELSE [ok |-> FALSE, v |-> 0]
FlatPoints(t) ==   \* all grid points, angle-major
  [k \in 1..(Len(t.wa) * Len(t.ws)) |->
     LET i == ((k - 1) \div Len(t.ws)) + 1 j == ((k - 1) % Len(t.ws)) + 1 IN <<t.ws[j], t.wa[i], t.bsp[i][j]>>]
ColSlice(t, w) == [i \in DOMAIN t.wa |-> <<w, t.wa[i], t.bsp[i][Pos(t.ws, w)]>>]

ApplyT(t, o) ==
  CASE o.op = "make" -> Make(t, o.wsr, o.war, o.hasb, o.b, o.fin)
    [] o.op = "change" -> Change(t, o.sw, o.sa, o.shape, o.vals, o.fin)
    [] OTHER -> OkT(t)

Ascending(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
GridOK(t) == /\ Ascending(t.ws) /\ Ascending(t.wa)
             /\ \A i \in DOMAIN t.wa : t.wa[i] \in 0..(FULL - 1)
             /\ Len(t.bsp) = Len(t.wa) /\ \A i \in DOMAIN t.bsp : Len(t.bsp[i]) = Len(t.ws)
=============================================================================

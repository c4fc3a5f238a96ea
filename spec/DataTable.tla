------------------------------ MODULE DataTable ------------------------------
(* The data container: an ordered list of columns over a common row range.
   A table is [cols, n]; a column is [k (name), t (type), v (values)]; a value
   is <<type, id>> and the missing value None is <<"-", 0>>.  Columns may be
   shorter than n after Extend/Append (documented: extends ONE column at its
   end); Update, Fill and Concat make the table rectangular.
   Operators return [ok, d]: ok = FALSE means the call is refused, and then d
   is the unchanged table.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoneV == <<"-", 0>>
Empty == [cols |-> <<>>, n |-> 0]

RangeOf(q) == { q[i] : i \in DOMAIN q }
Types(vals) == { v[1] : v \in RangeOf(vals) } \ {"-"}
Consistent(vals) == Cardinality(Types(vals)) <= 1
TypeOf(vals) == IF Types(vals) = {} THEN "-" ELSE CHOOSE t \in Types(vals) : TRUE
Mx(a, b) == IF a > b THEN a ELSE b
MaxLen(cols) == IF cols = <<>> THEN 0
                ELSE LET L == { Len(cols[i].v) : i \in DOMAIN cols } IN CHOOSE m \in L : \A x \in L : x <= m

Keys(d) == [i \in DOMAIN d.cols |-> d.cols[i].k]
HasKey(d, k) == \E i \in DOMAIN d.cols : d.cols[i].k = k
Idx(d, k) == CHOOSE i \in DOMAIN d.cols : d.cols[i].k = k
Col(d, k) == d.cols[Idx(d, k)]
None(m) == [i \in 1..(IF m > 0 THEN m ELSE 0) |-> NoneV]

Ok(d) == [ok |-> TRUE, d |-> d]
No(d) == [ok |-> FALSE, d |-> d]

(* --- extend / append: one column, at its own end ------------------------- *)
Extend(d, k, vals) ==
  IF ~Consistent(vals) THEN No(d)
  ELSE LET t == TypeOf(vals) IN
    IF HasKey(d, k)
    THEN LET i == Idx(d, k) c == d.cols[i] IN
         IF c.t # "-" /\ t # "-" /\ t # c.t THEN No(d)
         ELSE LET c2 == [c EXCEPT !.v = c.v \o vals, !.t = IF c.t = "-" THEN t ELSE c.t] IN
              Ok([cols |-> [d.cols EXCEPT ![i] = c2], n |-> Mx(d.n, Len(c2.v))])
    ELSE Ok([cols |-> Append(d.cols, [k |-> k, t |-> t, v |-> vals]), n |-> Mx(d.n, Len(vals))])

(* --- fill: pad the named columns (created if missing) -------------------- *)
RECURSIVE FillKeys(_, _, _)
FillKeys(d, m, ks) ==
  IF ks = <<>> THEN d
  ELSE LET k == Head(ks)
           d1 == IF HasKey(d, k) THEN d ELSE [d EXCEPT !.cols = Append(d.cols, [k |-> k, t |-> "-", v |-> <<>>])]
           i == Idx(d1, k)
           v2 == d1.cols[i].v \o None(m - Len(d1.cols[i].v))
           c2 == [k |-> k, t |-> TypeOf(v2), v |-> v2]
       IN FillKeys([cols |-> [d1.cols EXCEPT ![i] = c2], n |-> Mx(d1.n, Len(v2))], m, Tail(ks))
Fill(d, m, ks) == Ok(FillKeys(d, m, ks))
FillAll(d) == FillKeys(d, d.n, Keys(d))

(* --- update: entries is a sequence of [k, v] ------------------------------ *)
RECURSIVE ExtAll(_, _)
ExtAll(d, es) == IF es = <<>> THEN d ELSE ExtAll(Extend(d, Head(es).k, Head(es).v).d, Tail(es))
UpdAllowed(d, es) == \A i \in DOMAIN es :
    Consistent((IF HasKey(d, es[i].k) THEN Col(d, es[i].k).v ELSE <<>>) \o es[i].v)
Update(d, es, compress) ==
  IF ~UpdAllowed(d, es) THEN No(d)
  ELSE LET d1 == FillKeys(d, d.n, [i \in DOMAIN es |-> es[i].k] \o Keys(d))
           last(k) == LET v == Col(d1, k).v IN v[Len(v)]
           drop == compress /\ d1.n > 0 /\ \A i \in DOMAIN es : last(es[i].k) = NoneV
           d2 == IF ~drop THEN d1
                 ELSE [d1 EXCEPT !.cols = [i \in DOMAIN d1.cols |->
                        IF \E j \in DOMAIN es : es[j].k = d1.cols[i].k
                        THEN [d1.cols[i] EXCEPT !.v = SubSeq(@, 1, Len(@) - 1)] ELSE d1.cols[i]]]
       IN Ok(FillAll(ExtAll(d2, es)))
AsEntries(o) == [i \in DOMAIN o.cols |-> [k |-> o.cols[i].k, v |-> o.cols[i].v]]

RECURSIVE ConcatFrom(_, _)
ConcatFrom(d, ds) ==
  IF ds = <<>> THEN Ok(d)
  ELSE LET r == Update(d, AsEntries(Head(ds)), FALSE) IN IF r.ok THEN ConcatFrom(r.d, Tail(ds)) ELSE No(d)
Concat(ds) == ConcatFrom(Empty, ds)

(* --- removing ------------------------------------------------------------- *)
KeepCols(d, T(_)) == [d EXCEPT !.cols = SelectSeq(d.cols, T)]
DeleteCols(d, ks) == IF \E k \in ks : ~HasKey(d, k) THEN No(d)
                     ELSE LET T(c) == c.k \notin ks IN Ok(KeepCols(d, T))
PickIdx(v, S) ==   \* the subsequence of v at positions in S
  LET RECURSIVE go(_)
      go(i) == IF i > Len(v) THEN <<>> ELSE (IF i \in S THEN <<v[i]>> ELSE <<>>) \o go(i + 1)
  IN go(1)
DeleteRows(d, S) ==   \* S: set of 0-based row numbers
  LET G == { j \in 0..(d.n - 1) : j \in S }
      keep == { j + 1 : j \in (0..(d.n - 1)) \ S }
  IN Ok([cols |-> [i \in DOMAIN d.cols |-> [d.cols[i] EXCEPT !.v = PickIdx(@, keep)]], n |-> d.n - Cardinality(G)])
FilterTypes(d, ts) == LET T(c) == c.t \in ts IN Ok(KeepCols(d, T))
NotAllNone(c) == \E j \in DOMAIN c.v : c.v[j] # NoneV
StripCols(d) == KeepCols(d, NotAllNone)
RowNone(d, j) == \A i \in DOMAIN d.cols : j > Len(d.cols[i].v) \/ d.cols[i].v[j] = NoneV
StripRows(d) ==
  LET live == { j \in 1..d.n : ~RowNone(d, j) }
      lo == IF live = {} THEN 1 ELSE CHOOSE j \in live : \A x \in live : j <= x
      hi == IF live = {} THEN 0 ELSE CHOOSE j \in live : \A x \in live : j >= x
  IN [cols |-> [i \in DOMAIN d.cols |-> [d.cols[i] EXCEPT !.v = PickIdx(@, lo..hi)]], n |-> hi - lo + 1]
Strip(d, mode) == Ok(CASE mode = "cols" -> StripCols(d) [] mode = "rows" -> StripRows(d)
                       [] OTHER -> StripRows(StripCols(d)))

(* --- renaming and views ---------------------------------------------------- *)
Rename(d, a, b) ==
  IF a = b THEN Ok(d)
  ELSE IF HasKey(d, b) \/ ~HasKey(d, a) THEN No(d)
  ELSE LET T(c) == c.k # a IN
       Ok([d EXCEPT !.cols = Append(SelectSeq(d.cols, T), [Col(d, a) EXCEPT !.k = b])])
SliceKeys(d, ks) == LET T(c) == c.k \in ks  cs == SelectSeq(d.cols, T) IN Ok([cols |-> cs, n |-> MaxLen(cs)])
Mask(d, m) ==
  LET keep == { j \in DOMAIN m : m[j] }
      cs == [i \in DOMAIN d.cols |-> [d.cols[i] EXCEPT !.v = PickIdx(@, keep)]]
  IN Ok([cols |-> cs, n |-> MaxLen(cs)])

Rect(d) == \A i \in DOMAIN d.cols : Len(d.cols[i].v) = d.n
Rows(d, ks) == [j \in 1..d.n |-> [i \in DOMAIN ks |-> Col(d, ks[i]).v[j]]]

(* --- one operation, given as a record (shared by model checking, generation
       and trace validation) -------------------------------------------------- *)
Apply(d, o) ==
  CASE o.op = "extend" -> Extend(d, o.k, o.v)
    [] o.op = "append" -> Extend(d, o.k, <<o.v>>)
    [] o.op = "update" -> Update(d, o.es, o.compress)
    [] o.op = "fill" -> Fill(d, o.m, o.ks)
    [] o.op = "fillall" -> Fill(d, d.n, Keys(d))
    [] o.op = "filln" -> Fill(d, o.m, Keys(d))
    [] o.op = "fillk" -> Fill(d, d.n, o.ks)
    [] o.op = "delcols" -> DeleteCols(d, RangeOf(o.ks))
    [] o.op = "delrows" -> DeleteRows(d, RangeOf(o.idx))
    [] o.op = "rename" -> Rename(d, o.a, o.b)
    [] o.op = "slice" -> SliceKeys(d, RangeOf(o.ks))
    [] o.op = "mask" -> Mask(d, o.m)
    [] o.op = "strip" -> Strip(d, o.mode)
    [] o.op = "filtertypes" -> FilterTypes(d, RangeOf(o.ts))
    [] o.op = "concat" -> LET r == Concat(o.ds) IN IF r.ok THEN r ELSE No(d)
    [] o.op = "badindex" -> No(d)           \* items that are neither a row, a column, names nor a mask
    [] OTHER -> Ok(d)

(* --- properties of the design ------------------------------------------------ *)
NamesUnique(d) == \A i, j \in DOMAIN d.cols : d.cols[i].k = d.cols[j].k => i = j
ColsBounded(d) == \A i \in DOMAIN d.cols : Len(d.cols[i].v) <= d.n
Typed(d) == \A i \in DOMAIN d.cols : Types(d.cols[i].v) \subseteq {d.cols[i].t}
TableOK(d) == NamesUnique(d) /\ ColsBounded(d) /\ Typed(d) /\ d.n >= 0
RowKeeping == {"update", "fill", "fillall", "filln", "fillk", "append", "extend", "rename", "delcols", "filtertypes"}
(* old rows survive the adding operations: every old value that is not None
   stays at its row of its column (columns may be renamed or removed).        *)
OldRowsKept(d, o, d2) ==
  o.op \in {"append", "extend", "fill", "fillall", "filln", "fillk"} \/ (o.op = "update" /\ ~o.compress) =>
     \A i \in DOMAIN d.cols : HasKey(d2, d.cols[i].k)
        /\ Len(Col(d2, d.cols[i].k).v) >= Len(d.cols[i].v)
        /\ SubSeq(Col(d2, d.cols[i].k).v, 1, Len(d.cols[i].v)) = d.cols[i].v
(* rows are kept or removed as a whole, in order *)
RowsMoveTogether(d, o, d2) ==
  (o.op \in {"mask", "delrows", "strip"} /\ Rect(d)) =>
     LET ks == Keys(d2) r2 == Rows(d2, ks) r1 == Rows(d, ks)
         sub[i \in 0..Len(r2), j \in 0..Len(r1)] ==
            IF i = 0 THEN TRUE ELSE IF j = 0 THEN FALSE
            ELSE (r2[i] = r1[j] /\ sub[i-1, j-1]) \/ sub[i, j-1]
     IN Rect(d2) /\ (ks # <<>> => sub[Len(r2), Len(r1)])
Rectangular(o, d2) == o.op \in {"update", "fillall", "concat"} => Rect(d2)
=============================================================================

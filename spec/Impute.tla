------------------------------- MODULE Impute -------------------------------
(* Imputation of tables.  A table is [dt, cols]: the datetime column (seconds or
   N for none) and a sequence of columns, each a sequence of values or N.
   Fill functions: mode "copy" copies the known value, mode "line" uses
     before: right + 100 * mu   between: left + mu * (right - left)   after: left - 100 * mu
   mode "args": before 2 right + 3 mu, between 2 left + right + 5 mu, after 3 left + 4 mu
   A filled value is a rational <<num, den>>.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
N == -999999
NotNone(c) == { i \in DOMAIN c : c[i] # N }
SMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SMin(S) == CHOOSE x \in S : \A y \in S : x <= y
IAbs(x) == IF x < 0 THEN -x ELSE x
(* datetimes between two known ones not further apart than max are interpolated by position *)
FillTime(dt, max, i) ==
  IF dt[i] # N THEN dt[i]
  ELSE LET b == { j \in NotNone(dt) : j < i } a == { j \in NotNone(dt) : j > i } IN
    IF b = {} \/ a = {} THEN N
    ELSE LET l == SMax(b) r == SMin(a) IN
      IF IAbs(dt[r] - dt[l]) > max THEN N
      ELSE dt[l] + ((dt[r] - dt[l]) * (i - l)) \div (r - l)
FillTimes(dt, max) == [i \in DOMAIN dt |-> FillTime(dt, max, i)]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE <<SMin(S)>> \o Sorted(S \ {SMin(S)})
(* one value of a column, given the datetimes of all rows (none missing) *)
Left(t, c, i, max) == { j \in NotNone(c) : j < i /\ t[i] - t[j] < max }
Right(t, c, i, max) == { j \in NotNone(c) : j > i /\ t[j] - t[i] < max }
FillValue(t, c, i, max, mode) ==
  IF c[i] # N THEN <<c[i], 1>>
  ELSE LET L == Left(t, c, i, max) R == Right(t, c, i, max) IN
    IF L = {} /\ R = {} THEN <<N, 1>>
    ELSE IF L = {} THEN LET r == SMin(R) IN
      CASE mode = "copy" -> <<c[r], 1>> [] mode = "line" -> <<c[r] * max + 100 * (t[r] - t[i]), max>>
        [] mode = "args" -> <<2 * c[r] * max + 3 * (t[r] - t[i]), max>>
    ELSE LET l == SMax(L) IN
      IF R = {} \/ (R # {} /\ t[SMin(R)] - t[l] > max)
      THEN CASE mode = "copy" -> <<c[l], 1>> [] mode = "line" -> <<c[l] * max - 100 * (t[i] - t[l]), max>>
             [] mode = "args" -> <<3 * c[l] * max + 4 * (t[i] - t[l]), max>>
      ELSE LET r == SMin(R) IN
        IF mode = "copy" THEN <<c[l], 1>>
        ELSE IF mode = "args"
        THEN IF t[r] = t[l] THEN <<2 * c[l] + c[r] + 5, 1>> ELSE <<(2 * c[l] + c[r]) * (t[r] - t[l]) + 5 * (t[i] - t[l]), t[r] - t[l]>>
        ELSE IF t[r] = t[l] THEN <<c[r], 1>>
        ELSE <<c[l] * (t[r] - t[l]) + (t[i] - t[l]) * (c[r] - c[l]), t[r] - t[l]>>
Local(tab, max, mode) ==
  LET kept == SelectSeq(tab.cols, LAMBDA c : NotNone(c.v) # {})
      t0 == FillTimes(tab.dt, max)
      rows == Sorted({ i \in DOMAIN t0 : t0[i] # N })
      t == [k \in DOMAIN rows |-> t0[rows[k]]]
      orig == [c \in DOMAIN kept |-> [k \in DOMAIN rows |-> kept[c].v[rows[k]]]]
      filled == [c \in DOMAIN kept |-> [k \in DOMAIN rows |-> FillValue(t, orig[c], k, max, mode)]]
      full == Sorted({ k \in DOMAIN rows : \A c \in DOMAIN kept : filled[c][k][1] # N })
      nfilled == LET one(c) == Cardinality({ k \in DOMAIN rows : orig[c][k] = N /\ filled[c][k][1] # N })
                     RECURSIVE sum(_) sum(c) == IF c = 0 THEN 0 ELSE one(c) + sum(c - 1)
                 IN sum(Len(kept))
  IN [names |-> [c \in DOMAIN kept |-> kept[c].k],
      from |-> [k \in DOMAIN full |-> rows[full[k]]],
      dt |-> [k \in DOMAIN full |-> t[full[k]]],
      vals |-> [c \in DOMAIN kept |-> [k \in DOMAIN full |-> filled[c][full[k]]]],
      stat |-> [cols |-> Len(tab.cols) - Len(kept), rows |-> Len(tab.dt) - Len(full), filled |-> nfilled]]
RemoveOnly(tab) ==
  LET full == Sorted({ i \in DOMAIN tab.dt : tab.dt[i] # N /\ \A c \in DOMAIN tab.cols : tab.cols[c].v[i] # N })
  IN [names |-> [c \in DOMAIN tab.cols |-> tab.cols[c].k], from |-> full,
      dt |-> [k \in DOMAIN full |-> tab.dt[full[k]]],
      vals |-> [c \in DOMAIN tab.cols |-> [k \in DOMAIN full |-> <<tab.cols[c].v[full[k]], 1>>]],
      stat |-> [cols |-> 0, rows |-> Len(tab.dt) - Len(full), filled |-> 0]]
(* design properties *)
NothingMissing(r) == /\ \A k \in DOMAIN r.dt : r.dt[k] # N
                     /\ \A c \in DOMAIN r.vals : \A k \in DOMAIN r.vals[c] : r.vals[c][k][1] # N
OriginalsKept(tab, r) ==
  \A c \in DOMAIN r.names : LET o == (CHOOSE x \in { tab.cols[j] : j \in DOMAIN tab.cols } : x.k = r.names[c]).v IN
    \A k \in DOMAIN r.from : o[r.from[k]] # N => r.vals[c][k] = <<o[r.from[k]], 1>>
TimesKept(tab, r) == \A k \in DOMAIN r.from : tab.dt[r.from[k]] # N => r.dt[k] = tab.dt[r.from[k]]
OrderKept(r) == \A i, j \in DOMAIN r.from : i < j => r.from[i] < r.from[j]
CompleteRowsKept(tab, r) ==
  \A i \in DOMAIN tab.dt : (tab.dt[i] # N /\ \A c \in DOMAIN tab.cols : tab.cols[c].v[i] # N) => \E k \in DOMAIN r.from : r.from[k] = i
(* what is filled has a known value of its column closer than max *)
LocalOnly(t, c, max, mode) ==
  \A i \in DOMAIN c : (c[i] = N /\ FillValue(t, c, i, max, mode)[1] # N) => \E j \in NotNone(c) : IAbs(t[j] - t[i]) < max
=============================================================================

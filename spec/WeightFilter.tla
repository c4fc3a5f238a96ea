---------------------------- MODULE WeightFilter ----------------------------
(* Filters decide by weight.  Weights are integers (quarters); a percentage is
   given in tenths of a percent.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Sort(w) == SortSeq(w, LAMBDA a, b : a < b)
InBound(lo, hi, x) == lo <= x /\ x <= hi
(* x is at least the percentile: position (n-1)*p/1000 between the sorted weights *)
AtLeastQuantile(w, p, x) ==
  LET s == Sort(w) pos == (Len(w) - 1) * p k == pos \div 1000 fr == pos % 1000 IN
  IF fr = 0 \/ s[k + 1] = s[k + 2] THEN x >= s[k + 1] ELSE x * 1000 >= s[k + 1] * 1000 + fr * (s[k + 2] - s[k + 1])
Quantile(w, p) == [i \in DOMAIN w |-> AtLeastQuantile(w, p, w[i])]
Bound(w, lo, hi) == [i \in DOMAIN w |-> InBound(lo, hi, w[i])]
(* design properties *)
ByWeight(w, r) == \A i, j \in DOMAIN w : w[i] = w[j] => r[i] = r[j]
Monotone(w, r) == \A i, j \in DOMAIN w : (r[i] /\ ~r[j]) => w[i] > w[j]
SomeKept(w, p) == Len(w) > 0 => \E i \in DOMAIN w : Quantile(w, p)[i]
AllKeptAtZero(w) == \A i \in DOMAIN w : Quantile(w, 0)[i]
Convex(w, lo, hi) == LET r == Bound(w, lo, hi) IN \A i, j, k \in DOMAIN w : (r[i] /\ r[k] /\ w[i] <= w[j] /\ w[j] <= w[k]) => r[j]
=============================================================================

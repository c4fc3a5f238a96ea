------------------------------- MODULE Smooth -------------------------------
(* Affine smoothing of a time series x (times in seconds, not decreasing), y
   (values) with a time span T.  Plateaus are maximal runs of equal values; the
   border between two plateaus lies midway between their neighbouring times.
   All times of pieces are in quarter seconds, all heights doubled.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Starts(y) == { i \in DOMAIN y : i = 1 \/ y[i] # y[i - 1] }
RECURSIVE SortedS(_)
SortedS(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o SortedS(S \ {m})
Plateaus(x, y) ==
  LET st == SortedS(Starts(y)) n == Len(st) IN
  [k \in 1..n |->
     [lo |-> IF k = 1 THEN 4 * x[1] ELSE 2 * (x[st[k] - 1] + x[st[k]]),
      hi |-> IF k = n THEN 4 * x[Len(x)] ELSE 2 * (x[st[k + 1] - 1] + x[st[k + 1]]),
      y |-> y[st[k]]]]
(* pieces <<time from, time to, height from, height to>> *)
PiecesOf(p, k, T) ==
  LET prev == IF k = 1 THEN p[k].y ELSE p[k - 1].y
      next == IF k = Len(p) THEN p[k].y ELSE p[k + 1].y
      lo == p[k].lo hi == p[k].hi h == 2 * p[k].y
  IN IF hi - lo < 8 * T
     THEN {<<lo, (lo + hi) \div 2, prev + p[k].y, h>>, <<(lo + hi) \div 2, hi, h, next + p[k].y>>}
     ELSE {<<lo, lo + 4 * T, prev + p[k].y, h>>, <<lo + 4 * T, hi - 4 * T, h, h>>, <<hi - 4 * T, hi, h, next + p[k].y>>}
Pieces(x, y, T) == LET p == Plateaus(x, y) IN UNION { PiecesOf(p, k, T) : k \in DOMAIN p }
SAbs(a) == IF a < 0 THEN -a ELSE a
(* v (in units of 1/SC) is the height of the pieces at time x (seconds); on a vertical piece any height of it *)
OnPiece(pc, x, v, SC) ==
  LET a == pc[1] b == pc[2] t == 4 * x IN
  /\ a <= t /\ t <= b
  /\ IF a = b THEN LET lo == IF pc[3] < pc[4] THEN pc[3] ELSE pc[4] hi == pc[3] + pc[4] - lo
                   IN 2 * v >= SC * lo - 2 /\ 2 * v <= SC * hi + 2
     ELSE LET d == b - a IN
          \* 2 v / SC * d = (t - a) h1 + (b - t) h0, scaled down to stay within integers
          SAbs(2 * v * d - SC * ((t - a) * pc[4] + (b - t) * pc[3])) <= 2 * d
OnGraph(x, y, T, i, v, SC) == \E pc \in Pieces(x, y, T) : OnPiece(pc, x[i], v, SC)
(* design properties *)
Lo(y) == CHOOSE a \in { y[i] : i \in DOMAIN y } : \A j \in DOMAIN y : a <= y[j]
Hi(y) == CHOOSE a \in { y[i] : i \in DOMAIN y } : \A j \in DOMAIN y : y[j] <= a
Between(x, y, T) == \A pc \in Pieces(x, y, T) : \A h \in {pc[3], pc[4]} : 2 * Lo(y) <= h /\ h <= 2 * Hi(y)
ConstantStays(x, y, T) == Cardinality(Starts(y)) = 1 => \A pc \in Pieces(x, y, T) : pc[3] = 2 * y[1] /\ pc[4] = 2 * y[1]
Covers(x, y, T) == \A i \in DOMAIN x : \E pc \in Pieces(x, y, T) : pc[1] <= 4 * x[i] /\ 4 * x[i] <= pc[2]
Continuous(x, y, T) == (T > 0 /\ \A i \in 1..(Len(x) - 1) : x[i] < x[i + 1]) =>
   \A p, q \in Pieces(x, y, T) : (p[1] # p[2] /\ q[1] # q[2] /\ p[2] = q[1]) => p[4] = q[3]
ZeroSpanKeeps(x, y) == (\A i \in 1..(Len(x) - 1) : x[i] < x[i + 1]) => \A i \in DOMAIN x :
   (i # 1 /\ i # Len(x)) => OnGraph(x, y, 0, i, 2 * y[i], 2)
=============================================================================

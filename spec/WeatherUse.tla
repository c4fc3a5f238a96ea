----------------------------- MODULE WeatherUse -----------------------------
(* Combining weather models and adding weather to the rows of a table.
   An answer of a model is [k |-> "ok", w |-> <<[a, v], ...>>] or
   [k |-> <name of the error it raises>, w |-> <<>>].                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ignorable == {"ValueError", "TypeError", "KeyError", "NotImplementedError"}
NoV == <<"-", 0>>
RangeW(q) == { q[i] : i \in DOMAIN q }
AttrSet(w) == { w[i].a : i \in DOMAIN w }
ValOf(w, a) == w[CHOOSE i \in DOMAIN w : w[i].a = a].v
(* --- MultiWeatherModel: fold over the models -------------------------------- *)
RECURSIVE Fold(_, _, _)
Fold(acc, ans, sens) ==
  IF ans = <<>> THEN [k |-> "ok", w |-> acc]
  ELSE LET h == Head(ans) IN
    IF h.k = "ok"
    THEN LET keep == SelectSeq(acc, LAMBDA x : x.a \notin AttrSet(h.w)) IN Fold(keep \o h.w, Tail(ans), sens)
    ELSE IF sens \/ h.k \notin Ignorable THEN [k |-> h.k, w |-> <<>>]
    ELSE Fold(acc, Tail(ans), sens)
Multi(ans, sens) == Fold(<<>>, ans, sens)
AsSet(r) == { <<r.w[i].a, r.w[i].v>> : i \in DOMAIN r.w }

(* --- WeatherExpander ----------------------------------------------------------- *)
(* rows: answers per row; mode "delete" or "ignore"                               *)
Fails(ans) == \E i \in DOMAIN ans : ans[i].k \notin {"ok", "ValueError"}
KeepIdx(ans, mode) == { i \in DOMAIN ans : mode = "ignore" \/ ans[i].k = "ok" }
Pick(q, S) == LET RECURSIVE go(_)
                  go(i) == IF i > Len(q) THEN <<>> ELSE (IF i \in S THEN <<q[i]>> ELSE <<>>) \o go(i + 1)
              IN go(1)
AttrsOf(ans) == UNION { AttrSet(ans[i].w) : i \in DOMAIN ans }
WeatherCol(ans, mode, a) ==
  LET kept == Pick(ans, KeepIdx(ans, mode)) IN
  [i \in DOMAIN kept |-> IF a \in AttrSet(kept[i].w) THEN ValOf(kept[i].w, a) ELSE NoV]
OldCols(cols, ans, mode) == { [k |-> cols[i].k, v |-> Pick(cols[i].v, KeepIdx(ans, mode))] : i \in DOMAIN cols }
=============================================================================

-------------------------------- MODULE Show --------------------------------
(* Printed forms.  A diagram is printed as lines of tokens (words separated by
   blanks).  Diagrams are
     [kind |-> "table", ws, wa, b]   wind speeds and angles in halves, b[i][j] in quarters
     [kind |-> "cloud", pts]         points <<ws, wa, bsp>> in quarters
     [kind |-> "multi", names, parts] one table per sail (name: its words)
   Wide tables are elided: HEAD columns, dots, HEAD columns.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS WIDE, HEAD, LONG           \* 15, 5 (columns) and 10 (items of a data field) in the library
DOTS == "..."
Mag(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN "-" ELSE ""
Half(h) == Sgn(h) \o ToString(Mag(h) \div 2) \o (IF Mag(h) % 2 = 0 THEN ".0" ELSE ".5")
Q2 == <<".00", ".25", ".50", ".75">>
QR == <<".0", ".25", ".5", ".75">>
Quarter(v) == Sgn(v) \o ToString(Mag(v) \div 4) \o Q2[(Mag(v) % 4) + 1]        \* two decimals
Plain(v) == Sgn(v) \o ToString(Mag(v) \div 4) \o QR[(Mag(v) % 4) + 1]          \* as few decimals as possible
(* the columns shown, 0 for the dots *)
Cols(n) == IF n <= WIDE THEN [i \in 1..n |-> i]
           ELSE [i \in 1..HEAD |-> i] \o <<0>> \o [i \in 1..HEAD |-> n - HEAD + i]
Pick(n, f(_)) == [k \in DOMAIN Cols(n) |-> IF Cols(n)[k] = 0 THEN DOTS ELSE f(Cols(n)[k])]
TableLines(d) == LET n == Len(d.ws) IN
  << <<"TWA", "/", "TWS">> \o Pick(n, LAMBDA j : Half(d.ws[j])),
     [k \in 1..(1 + Len(Cols(n))) |-> "+"] >>
  \o [i \in DOMAIN d.wa |-> <<Half(d.wa[i])>> \o Pick(n, LAMBDA j : Quarter(d.b[i][j]))]
CloudLines(d) == << <<"TWS", "TWA", "BSP">>, <<"+", "+", "+">> >>
  \o [i \in DOMAIN d.pts |-> [k \in 1..3 |-> Quarter(d.pts[i][k])]]
RECURSIVE MultiLines(_, _)
MultiLines(names, parts) == IF parts = <<>> THEN <<>>
  ELSE <<Head(names)>> \o TableLines(Head(parts)) \o MultiLines(Tail(names), Tail(parts))
Lines(d) == CASE d.kind = "table" -> TableLines(d)
              [] d.kind = "cloud" -> CloudLines(d)
              [] OTHER -> MultiLines(d.names, d.parts)

(* ---- edits *)
EditTable(d, i, j, v) == [d EXCEPT !.b[i][j] = v]
EditD(d, o) == CASE o.op = "entry" -> EditTable(d, o.i, o.j, o.v)
                 [] o.op = "point" -> [d EXCEPT !.pts = Append(@, o.v)]
                 [] OTHER -> [d EXCEPT !.parts[o.p] = EditTable(@, o.i, o.j, o.v)]

(* ---- a sailing direction: angle and 100 * proportion in quarters *)
DirectionText(a, p, sail) ==
  <<"Sail", "with", "an", "angle", "of", Plain(a), "to", "the", "wind", "for", Plain(p), "percent", "of", "the">>
  \o (IF sail = <<>> THEN <<"time">> ELSE <<"time,", "while", "hissing">> \o sail)

(* ---- a data table: fields [key, type, items]; items are words *)
FieldText(f) == [key |-> f.key, type |-> f.type,
                 items |-> IF Len(f.items) < LONG THEN f.items
                           ELSE SubSeq(f.items, 1, HEAD) \o <<DOTS>> \o SubSeq(f.items, Len(f.items) - HEAD + 1, Len(f.items))]
DataText(fs) == [i \in DOMAIN fs |-> FieldText(fs[i])]

(* ---- fuzzy statements: trees as in Fuzzy; k is the name of an attribute or "" *)
Var(k) == IF k = "" THEN "x" ELSE "x[" \o k \o "]"
RECURSIVE Statement(_)
(* operands are bracketed unless they are a single word or negated single word *)
RECURSIVE Word(_)
Word(f) == f.o = "crisp" \/ (f.o = "not" /\ Word(f.l))
Arg(f) == IF Word(f) THEN Statement(f) ELSE <<"(">> \o Statement(f) \o <<")">>
Statement(f) == CASE f.o \in {"gt", "ge"} -> <<Var(f.k), ">", f.t>>
                  [] f.o \in {"lt", "le"} -> <<Var(f.k), "<", f.t>>
                  [] f.o = "eq" -> <<Var(f.k), "==", f.t>>
                  [] f.o = "crisp" -> <<"Fuzzy-Bool">>
                  [] f.o = "not" -> <<"~", "(">> \o Statement(f.l) \o <<")">>
                  [] f.o = "and" -> Arg(f.l) \o <<"&">> \o Arg(f.r)
                  [] OTHER -> Arg(f.l) \o <<"|">> \o Arg(f.r)

(* ---- properties of the printed forms *)
Elided(d) == Len(d.ws) > WIDE
(* what is shown can be read back *)
ReadsBack(d) == LET ls == TableLines(d) n == Len(d.ws) c == Cols(n) IN
  /\ Len(ls) = Len(d.wa) + 2
  /\ \A i \in DOMAIN ls : Len(ls[i]) = Len(ls[2]) + (IF i = 1 THEN 2 ELSE 0)
  /\ ~Elided(d) => \A j \in 1..n : ls[1][j + 3] = Half(d.ws[j])
  /\ \A k \in DOMAIN c : c[k] # 0 => \A i \in DOMAIN d.wa : ls[i + 2][k + 1] = Quarter(d.b[i][c[k]])
Shown(n) == { Cols(n)[k] : k \in DOMAIN Cols(n) } \ {0}
(* an edit changes the one token of its entry, and no other *)
OneToken(a, b, i, j) == LET x == TableLines(a) y == TableLines(b) IN
  \A r \in DOMAIN x : \A k \in DOMAIN x[r] :
     x[r][k] # y[r][k] => r = i + 2 /\ k > 1 /\ Cols(Len(a.ws))[k - 1] = j
=============================================================================

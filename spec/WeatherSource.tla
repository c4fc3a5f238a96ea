---------------------------- MODULE WeatherSource ----------------------------
(* Where gridded weather comes from.
   A file (NetCDF): stored axes lat, lon (ascending or descending) and time, and
   variables, each with its own sequence of dimensions over "t", "y", "x", "e", "h"
   ("e" and "h" are further dimensions, of which the reader picks one index each,
   `further` and `furtherh`, -1: none picked) and its values in row-major order.  What is read is a grid
   with ascending axes, one attribute per variable.
   A service: per location hourly records, of which the wanted attributes are
   taken in the wanted order.                                                  *)
EXTENDS Weather
Desc(q) == Len(q) > 1 /\ q[Len(q)] < q[1]
Rev(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
Asc(q) == IF Desc(q) THEN Rev(q) ELSE q
Size(f, d) == CASE d = "t" -> Len(f.time) [] d = "y" -> Len(f.lat) [] d = "x" -> Len(f.lon) [] d = "h" -> f.hsize [] OTHER -> f.esize
(* where in the file the value for the node <<i, j, k>> of the grid stands      *)
Stored(f, d, n) == CASE d = "t" -> n[1]
                     [] d = "y" -> IF Desc(f.lat) THEN Len(f.lat) + 1 - n[2] ELSE n[2]
                     [] d = "x" -> IF Desc(f.lon) THEN Len(f.lon) + 1 - n[3] ELSE n[3]
                     [] d = "h" -> f.furtherh + 1
                     [] OTHER -> f.further + 1
RECURSIVE Row(_, _, _, _)
Row(f, dims, n, acc) == IF dims = <<>> THEN acc + 1
                        ELSE Row(f, Tail(dims), n, acc * Size(f, Head(dims)) + Stored(f, Head(dims), n) - 1)
ReadVar(f, v, n) == v.vals[Row(f, v.dims, n, 0)]
Undecided(f) == \E i \in DOMAIN f.vars : \E j \in DOMAIN f.vars[i].dims :
  (f.vars[i].dims[j] = "e" /\ f.further < 0) \/ (f.vars[i].dims[j] = "h" /\ f.furtherh < 0)
Grid(f) == LET ax == <<f.time, Asc(f.lat), Asc(f.lon)>> IN
  [ax |-> ax, attrs |-> [i \in DOMAIN f.vars |-> f.vars[i].name],
   dat |-> IF Undecided(f) THEN <<>>
           ELSE [i \in DOMAIN ax[1] |-> [j \in DOMAIN ax[2] |-> [k \in DOMAIN ax[3] |-> [a \in DOMAIN f.vars |-> ReadVar(f, f.vars[a], <<i, j, k>>)]]]]]
(* writing a grid into a file, with descending axes if wanted                   *)
RECURSIVE Prod(_, _)
Prod(f, dims) == IF dims = <<>> THEN 1 ELSE Size(f, Head(dims)) * Prod(f, Tail(dims))
Node(f, d, n) == CASE d = "t" -> 1 [] d = "y" -> 2 [] OTHER -> 3
(* the digits of a row-major place                                              *)
RECURSIVE Digit(_, _, _, _)
Digit(f, dims, place, d) == IF Head(dims) = d THEN place \div Prod(f, Tail(dims)) + 1
                            ELSE Digit(f, Tail(dims), place % Prod(f, Tail(dims)), d)
WriteVar(f, g, a, dims) ==
  [name |-> g.attrs[a], dims |-> dims,
   vals |-> [m \in 1..Prod(f, dims) |->
      LET at(d) == Digit(f, dims, m - 1, d) j == IF Desc(f.lat) THEN Len(f.lat) + 1 - at("y") ELSE at("y")
          k == IF Desc(f.lon) THEN Len(f.lon) + 1 - at("x") ELSE at("x") IN g.dat[at("t")][j][k][a]]]
Write(g, dlat, dlon, dims) ==
  LET f == [time |-> g.ax[1], lat |-> IF dlat THEN Rev(g.ax[2]) ELSE g.ax[2], lon |-> IF dlon THEN Rev(g.ax[3]) ELSE g.ax[3], esize |-> 1, further |-> -1, hsize |-> 1, furtherh |-> -1, vars |-> <<>>]
  IN [f EXCEPT !.vars = [a \in DOMAIN g.attrs |-> WriteVar(f, g, a, dims)]]
=============================================================================

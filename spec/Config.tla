------------------------------- MODULE Config -------------------------------
(* Which configurations and arguments are supported.  A call is [c, p]: the name
   of the component or operation and its parameters, numbers in thousandths,
   shapes as sequences of sizes, kinds of values as words.                      *)
EXTENDS Integers, Sequences, FiniteSets
Calls == {"Ball", "ScalingBall", "Ellipsoid", "Polytope", "IDW", "ArithmeticMean", "Shepard", "Uniform", "Fibonacci", "Archimedian",
          "Quantile", "Bound", "Mean", "Member", "arith", "fuzzy-weigh", "cylinder-data", "fit", "inject", "norm", "rows", "update",
          "wind-array", "wind", "interpolate-nothing", "archimedian-points", "fmt"}
Valid(c, p) ==
  CASE c \in {"Ball", "ScalingBall", "ArithmeticMean", "Uniform", "Fibonacci", "Archimedian", "Mean"} -> p[1] > 0
    [] c = "Ellipsoid" -> p[1] = 2 /\ p[2] = 2 /\ p[3] = 2 /\ p[4] > 0        \* shape, rank, radius
    [] c = "Polytope" -> p[2] = 2 /\ p[3] = p[1]                              \* shape of the matrix, length of the vector
    [] c = "IDW" -> p[1] >= 0 /\ p[1] % 1000 = 0                              \* an integral power
    [] c = "Shepard" -> p[1] > 0 /\ p[2] > 0                                  \* tolerance, slope
    [] c = "Quantile" -> p[1] \in 0..100000
    [] c = "Bound" -> p[1] <= p[2]
    [] c = "Member" -> p[1] > 0 /\ p[2] >= 0                                  \* radius, length
    [] c = "arith" -> p[2] \in {"weigher", "int", "float", "array"}           \* operator, operand
    [] c = "fuzzy-weigh" -> p[1] \in {"data", "array"}
    [] c = "cylinder-data" -> p[1] \in {"BSP", "SOG", "both"}                 \* the boat speed of the data
    [] c = "fit" -> p[2] = 3 /\ p[1] > 0                                      \* shape
    [] c = "inject" -> p[1] = "array" /\ p[3] = 3 /\ p[2] > 0                 \* kind, shape
    [] c = "norm" -> p[2] \in {2, 3}
    [] c = "rows" -> p[1] \in {"dict", "list", "tuple"}
    [] c = "update" -> p[1] \in {"dict", "data"}
    [] c = "wind-array" -> p[1] = 2 \/ p[2] = 2
    [] c = "wind" -> p[1] = "tuple" /\ p[2] = 2
    [] c = "interpolate-nothing" -> p[1] > 0                                  \* number of points
    [] c = "archimedian-points" -> p[1] >= 3
    [] c = "fmt" -> p[1] \in {"hro", "orc", "opencpn", "array"}
NumsD == {-2000, -1, 0, 1, 50, 1000, 2500, 99999, 100000, 100001}
Ints == {-2000, -1000, 0, 1000, 2000, 7000}
Ops == {"+", "r+", "*", "r*", "-", "/", "r/"}
Types == {"weigher", "int", "float", "array", "str", "none", "list", "dict"}
Domain(c) ==
  CASE c \in {"Ball", "ArithmeticMean", "Mean"} -> { <<x>> : x \in NumsD }
    [] c \in {"ScalingBall", "Uniform", "Fibonacci", "Archimedian"} -> { <<x>> : x \in Ints }
    [] c = "Ellipsoid" -> { <<a, b, r, x>> : a, b \in 1..3, r \in 0..2, x \in {-50, 0, 1, 50, 2000} }
    [] c = "Polytope" -> { <<a, b, n>> : a, b, n \in 1..4 }
    [] c = "IDW" -> { <<x>> : x \in Ints \cup {-500, 500, 1500} }
    [] c = "Shepard" -> { <<x, y>> : x, y \in {-1000, 0, 1, 100, 2000} }
    [] c = "Quantile" -> { <<x>> : x \in NumsD }
    [] c = "Bound" -> { <<x, y>> : x, y \in {-1000, 0, 499, 500, 501, 1000} }
    [] c = "Member" -> { <<x, y>> : x, y \in {-50, 0, 1, 50, 2000} }
    [] c = "arith" -> { <<o, t>> : o \in Ops, t \in Types }
    [] c = "fuzzy-weigh" -> { <<t>> : t \in {"data", "array", "list", "dict", "none"} }
    [] c = "cylinder-data" -> { <<t>> : t \in {"BSP", "SOG", "both", "neither"} }
    [] c = "fit" -> { <<a, b>> : a \in {0, 12}, b \in 2..4 }
    [] c = "inject" -> { <<t, a, b>> : t \in {"array", "data"}, a \in {0, 1, 5}, b \in 2..4 }
    [] c = "norm" -> { <<a, b>> : a \in {1, 4}, b \in 1..5 }
    [] c = "rows" -> { <<t>> : t \in {"dict", "list", "tuple", "set", "none", "str"} }
    [] c = "update" -> { <<t>> : t \in {"dict", "data", "list", "none", "str"} }
    [] c = "wind-array" -> { <<a, b>> : a, b \in 1..4 }
    [] c = "wind" -> { <<t, n>> : t \in {"tuple", "list"}, n \in 1..3 }
    [] c \in {"interpolate-nothing", "archimedian-points"} -> { <<n>> : n \in 0..6 }
    [] c = "fmt" -> { <<t>> : t \in {"hro", "orc", "opencpn", "array", "csv", "", "HRO"} }
=============================================================================

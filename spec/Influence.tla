------------------------------ MODULE Influence ------------------------------
(* Influence models.  Angles are in thousandths of a degree, speeds in quarters.
   A model is [kind, shift]; "identity" has shift 0 for good.
     remove: one row (ws, wa - shift mod 360, speed) per data row, in order;
             the speed is the boat speed, or the speed over ground without one
     add:    the diagram's speed at (ws, wa + shift) for each row
     fit:    moves the shift to the middle of the gap in the measured angles
             (the direction of lowest density), following every rotation of the
             data; the identity stays as it is                                 *)
EXTENDS Integers, Sequences, FiniteSets

Full == 360000
Norm(a) == a % Full
Circular(a, b) == LET d == Norm(a - b) IN IF d > Full \div 2 THEN Full - d ELSE d
Shifts(m) == m.kind = "shift"
RemoveAngle(m, a) == IF Shifts(m) THEN Norm(a - m.shift) ELSE a
AddAngle(m, a) == IF Shifts(m) THEN Norm(a + m.shift) ELSE a
Remove(m, rows) == [i \in DOMAIN rows |-> <<rows[i][1], RemoveAngle(m, rows[i][2]), rows[i][3]>>]
Add(m, rows) == [i \in DOMAIN rows |-> <<rows[i][1], AddAngle(m, rows[i][2])>>]

(* The middle of the widest gap of a finite set of angles, and whether it is
   the only one that wide by a margin                                          *)
Gap(A, a) == LET nxt == { Norm(b - a) : b \in A \ {a} } IN IF nxt = {} THEN Full ELSE CHOOSE d \in nxt : \A x \in nxt : d <= x
Widest(A) == CHOOSE a \in A : \A b \in A : Gap(A, b) <= Gap(A, a)
GapMiddle(A) == LET a == Widest(A) IN Norm(a + Gap(A, a) \div 2)

(* Density of measured angles seen from a direction: gauss kernels stretched over
   an interval.  Kernel[k + 1] = 10^5 exp(-(k/20)^2)                            *)
Kernel == << 100000, 99750, 99005, 97775, 96079, 93941, 91393, 88471, 85214, 81669, 77880, 73897, 69768, 65541,
             61263, 56978, 52729, 48554, 44486, 40555, 36788, 33204, 29820, 26647, 23693, 20961, 18452, 16162,
             14086, 12215, 10540, 9049, 7730, 6571, 5558, 4677, 3916, 3263, 2705, 2231, 1832, 1496,
             1216, 983, 791, 633, 504, 400, 315, 247, 193, 150, 116, 89, 68, 52,
             39, 30, 22, 17, 12, 9, 7, 5, 4, 3, 2, 1, 1, 1,
             0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 >>
KernelAt(d, len) == LET k == d \div (50 * len) r == d % (50 * len) IN
  IF k >= 80 THEN 0 ELSE Kernel[k + 1] + ((Kernel[k + 2] - Kernel[k + 1]) * r) \div (50 * len)
RECURSIVE DensityUpTo(_, _, _, _)
DensityUpTo(A, n, a, len) == IF n = 0 THEN 0 ELSE KernelAt(Circular(A[n], a), len) + DensityUpTo(A, n - 1, a, len)
Density(A, a, len) == DensityUpTo(A, Len(A), a, len)
Lowest(A, a, len) == \A b \in 0..359 : Density(A, a, len) <= Density(A, 1000 * b, len) + 200 * Len(A)
=============================================================================

------------------------------- MODULE MCCurve -------------------------------
EXTENDS Curve, TraceLib
CONSTANTS Emitting
VARIABLES cv, n
Init == /\ cv \in [p : [1..4 -> {-1, 0, 2}], sym : {FALSE}, rad : BOOLEAN] /\ n = 0
        /\ (Emitting => Emit(cv))
Next == n < 2 /\ n' = n + 1 /\ cv' = Sym(cv)
Spec == Init /\ [][Next]_<<cv, n>>
Ws == {0, 4, 9}
As == {0, 1, 360, 720, 1000, 1439}
Inv == \A w \in Ws : \A a \in As :
  /\ \A k \in {-1, 1, 2} : At(cv, w, a + k * UFULL) = At(cv, w, a)
  /\ cv.sym => /\ At(cv, w, a) = (F(cv.p, w, a) + F(cv.p, w, UFULL - a)) \div 2
               /\ a # 0 => At(cv, w, a) = At(cv, w, UFULL - a)
               /\ At(Sym(cv), w, a) = At(cv, w, a)
=============================================================================

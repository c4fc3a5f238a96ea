---------------------------- MODULE MCModelFun ----------------------------
(* Mirror symmetry of the two sided models when both sides get the same
   parameters, and limits of the exponential terms.                           *)
EXTENDS ModelFun, TraceLib
CONSTANTS Emitting
VARIABLES st
Ps == [1..4 -> {-1, 0, 2}]
Ws == {1, 30}
Fs == {"ws_concave_dt_wa", "ws_wa_s_dt", "ws_s_dt_wa_gauss", "ws_s_s_dt_wa_gauss_comb", "ws_s_wa_gauss", "ws_s_wa_gauss_and_square"}
Par(f, q, w) == CASE f = "ws_concave_dt_wa" -> <<q[1], q[2], q[3], q[1], 30, q[4], q[2], q[1], 30, q[4], q[2]>>
                  [] f = "ws_wa_s_dt" -> <<q[1], q[2], q[3], q[4], q[2], q[1], q[3], q[4], q[1], q[2], q[1], q[3], q[4], q[1]>>
                  [] f = "ws_s_dt_wa_gauss" -> <<q[1], q[2], q[3], q[4], q[1], 60, w, q[1], 60, w>>
                  [] f = "ws_s_s_dt_wa_gauss_comb" -> <<q[1], q[2], q[3], q[4], q[1], 60, w, q[2], q[1], 60, w, q[2]>>
                  [] f = "ws_s_wa_gauss" -> <<q[1], q[2], q[3], q[4], 60, w, q[4], 60, w>>
                  [] OTHER -> <<q[1], q[2], q[3], q[4], q[1], 60, w, q[1], 60, w>>
Init == st = [f |-> ""]
Next == st.f = "" /\ \E f \in Fs : \E q \in Ps : \E w \in Ws : \E x \in {0, 2} : \E y \in {0, 30, 150, 180, 360} :
          st' = [f |-> f, p |-> Par(f, q, w), x |-> x, y |-> y] /\ (Emitting => Emit(st'))
Spec == Init /\ [][Next]_st
Inv == st.f = "" \/ Val(st.f, st.x, st.y, st.p) = Val(st.f, st.x, 360 - st.y, st.p)
=============================================================================

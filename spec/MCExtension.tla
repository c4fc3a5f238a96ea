----------------------------- MODULE MCExtension -----------------------------
(* Filling the grid cell by cell, in any order: a cell is a function of its own
   grid point and the points only.                                            *)
EXTENDS Extension, TraceLib
CONSTANTS MaxPts, Emitting
VARIABLES pts, res, nb, tab
WsLists == {<<16>>, <<16, 24>>, <<24, 16>>}
WaLists == {<<0, 40>>, <<40, 1420>>, <<1480, 20>>}
Cells == { <<w, a>> : w \in RangeT(res.ws.v), a \in RangeT(Mod(res.wa.v)) }
Cell(g) == LET S == Members(pts, nb, g) IN IF S = {} THEN 0 ELSE Lin(pts, S, g)
Init == /\ \E n \in 0..MaxPts : pts \in [1..n -> {<<16, 0, 4, 1>>, <<20, 40, 12, 2>>, <<24, 1420, 20, 1>>, <<16, 44, 9, 3>>}]
        /\ nb \in {<<4, 8>>, <<400, 400>>}
        /\ res \in [ws : [kind : {"list"}, v : WsLists], wa : [kind : {"list"}, v : WaLists]]
        /\ tab = <<>>
        /\ (Emitting => Emit([pts |-> pts, ws |-> res.ws, wa |-> res.wa, nb |-> nb]))
Next == \E g \in Cells \ DOMAIN tab : tab' = (g :> Cell(g)) @@ tab /\ UNCHANGED <<pts, res, nb>>
Spec == Init /\ [][Next]_<<pts, res, nb, tab>>
Swap(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
Inv == /\ DOMAIN tab \subseteq Cells
       /\ \A g \in DOMAIN tab : /\ ValueOk(pts, nb, "lin", g, tab[g])
                                /\ ValueOk(Swap(pts), nb, "lin", g, tab[g])
       /\ Ascending(SortedT(WaRes(res.wa))) /\ Ascending(SortedT(WsRes(res.ws)))
       /\ Cells = { <<w, a>> : w \in RangeT(SortedT(WsRes(res.ws))), a \in RangeT(SortedT(WaRes(res.wa))) }
=============================================================================

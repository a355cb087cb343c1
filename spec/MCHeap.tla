--------------------------------- MODULE MCHeap ---------------------------------
(* Independence: a table made from another, then one of the two changed by any one call. Trace.tla's frame       *)
(* conditions require that the other is as it was; the model says what a heap of two records does: nothing.      *)
EXTENDS MC

VARIABLES mk, at
K(c, r) == [c |-> c, r |-> r]
\* handles 1-3: nested tables; 4: the source; 5: what is made of it
N == [EmptyTable("N") EXCEPT !.cols = <<C("z", "int")>>, !.rows = <<<<3>>>>]
S2 == [EmptyTable("T") EXCEPT !.cols = <<C("a", "int"), C("b", "[]byte"), C("f", "float64"), C("x", "*Table")>>, !.keys = <<K("a", FALSE)>>,
                             !.rows = <<<<3, 2, 5, 1>>, <<2, 1, 4, 2>>, <<4, 2, 2, 3>>>>]
S2NoTab == [S2 EXCEPT !.cols = SubSeq(@, 1, 3), !.rows = [j \in 1..3 |-> SubSeq(@[j], 1, 3)]]
Tgt == [EmptyTable("U") EXCEPT !.cols = SubSeq(S2.cols, 1, 3), !.rows = <<<<2, 2, 2>>>>, !.keys = <<K("a", TRUE)>>]
Ns == <<BuildOp(N), BuildOp(N), BuildOp(N)>>
Makers == {O("Copy", [t |-> 4]), O("CopyCols", [t |-> 4]), O("NewTableFromRows", [t |-> 4, nm |-> "U", i |-> 0, j |-> 2]), O("NewTableFromRows", [t |-> 4, nm |-> "U", i |-> 1, j |-> 1]),
           O("NewTableReorderCols", [t |-> 4, cs |-> <<"f", "x", "a", "b">>]), O("NewTableReorderColsByColIndex", [t |-> 4, is |-> <<0, 1, 2, 3>>]),
           O("SortUnique", [t |-> 4, cs |-> <<>>]), O("CopyDeep", [t |-> 4])}
\* into a table made beforehand
Into == {O("AppendRowsFromTable", [t |-> 5, t2 |-> 4, i |-> 0, j |-> 2]), O("AppendColsFromTable", [t |-> 5, t2 |-> 4]), O("SetSortKeysFromTable", [t |-> 5, t2 |-> 4]),
         O("Merge", [t |-> 5, t2 |-> 4]), O("Merge", [t |-> 4, t2 |-> 5])}
Muts(h) == {O("SetVal", [t |-> h, c |-> "a", j |-> 0, v |-> VTok("int", 1)]), O("SetVal", [t |-> h, c |-> "b", j |-> 0, v |-> VTok("[]byte", 1)]),
            O("SetTyped", [t |-> h, by |-> "n", c |-> "f", j |-> 1, ty |-> "float64", v |-> 3, must |-> FALSE]),
            O("AppendRow", [t |-> h]), O("AppendRows", [t |-> h, n |-> 2]), O("DeleteRow", [t |-> h, i |-> 0]), O("DeleteRows", [t |-> h, i |-> 0, j |-> 1]), O("DeleteRowsAll", [t |-> h]), O("Reverse", [t |-> h]),
            O("AppendCol", [t |-> h, c |-> "n", ty |-> "int"]), O("DeleteCol", [t |-> h, c |-> "a"]), O("DeleteColByColIndex", [t |-> h, i |-> 1]), O("RenameCol", [t |-> h, c |-> "a", c2 |-> "n"]),
            O("SwapCols", [t |-> h, c |-> "a", c2 |-> "f"]), O("ReorderColsByColIndex", [t |-> h, is |-> <<1, 0, 2>>]), O("ReorderColsByColIndex", [t |-> h, is |-> <<1, 0, 2, 3>>]),
            O("OrderColsBySortKeys", [t |-> h]), O("SetSortKeys", [t |-> h, cs |-> <<"f", "a">>]), O("SetSortKeysReverse", [t |-> h, cs |-> <<"a">>]), O("AppendSortKey", [t |-> h, c |-> "f"]),
            O("DeleteSortKey", [t |-> h, c |-> "a"]), O("Sort", [t |-> h, cs |-> <<"a">>]), O("Sort", [t |-> h, cs |-> <<>>]), O("SortSimple", [t |-> h, cs |-> <<"f">>]), O("SetName", [t |-> h, nm |-> "Z"]),
            O("SetStructShape", [t |-> h, b |-> TRUE]), O("SetRowCellsToZeroValue", [t |-> h, j |-> 0]), O("SetColCellsToZeroValue", [t |-> h, c |-> "b"]), O("SetAllFloatCellsToNaN", [t |-> h]),
            O("AppendRowsFromTable", [t |-> h, t2 |-> 9 - h, i |-> 0, j |-> 0]), O("AppendColsFromTable", [t |-> h, t2 |-> 9 - h]), O("ShuffleRandom", [t |-> h])}
Init == /\ tab = EmptyTable("T") /\ hist = <<>>
        /\ \/ mk \in {Ns \o <<BuildOp(S2), m>> : m \in Makers}
           \/ mk \in {Ns \o <<BuildOp(S2), BuildOp(Tgt), m>> : m \in Into}
           \/ mk \in {Ns \o <<BuildOp(S2NoTab), BuildOp(Tgt), m>> : m \in Into}
        /\ at \in {4, 5}
Next == FALSE /\ UNCHANGED <<tab, hist, mk, at>>
All == <<mk, at>>
Emitted == /\ \A m \in Muts(at) : Emit(mk \o <<m>>)
           /\ Emit(mk \o <<O("NewTableSet", [nm |-> ""]), O("AppendTable", [s |-> 1, t |-> at]), O("SetCopy", [s |-> 1]), O("SetRenameTable", [s |-> 1, nm |-> "T", nm2 |-> "Y"]),
                           O("SetRenameTable", [s |-> 2, nm |-> "T", nm2 |-> "X"]), O("DeleteTableByTableIndex", [s |-> 1, i |-> 0]), O("SetSetName", [s |-> 2, nm |-> "Q"])>>)
           /\ DEEP => \A m \in Muts(at), n \in Muts(9 - at) : Emit(mk \o <<m, n>>)
WellFormed == WF(S2) /\ WF(S2NoTab) /\ WF(Tgt)
Laws == TRUE
================================================================================

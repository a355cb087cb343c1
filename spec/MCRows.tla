-------------------------------- MODULE MCRows ---------------------------------
(* Rows of one table: appending, deleting by index and by range, reversing, copying from itself. *)
EXTENDS MC

MaxRows == IF DEEP THEN 4 ELSE 3
Vals == IF DEEP THEN {2, 3, 4} ELSE {2, 3}
Start == {[EmptyTable("T") EXCEPT !.cols = <<C("a", "int")>>],
          [EmptyTable("T") EXCEPT !.cols = <<C("a", "int"), C("b", "string")>>, !.rows = <<<<3, 2>>>>],
          [EmptyTable("T") EXCEPT !.cols = <<C("a", "int")>>, !.keys = <<[c |-> "a", r |-> TRUE]>>],
          EmptyTable("T")}
Bound(x) == NR(x) <= MaxRows
Idx == (0 - 1)..NR(tab)
Edges == {E(O("AppendRow", [t |-> 1]), LAppendRow(tab), FAppendRow(tab)),
          E(O("DeleteRowsAll", [t |-> 1]), TRUE, FDeleteRowsAll(tab)),
          E(O("Reverse", [t |-> 1]), TRUE, FReverse(tab)),
          Ask1(O("RowCount", [t |-> 1])), Ask1(O("IsValidTable", [t |-> 1]))}
    \cup {E(O("AppendRows", [t |-> 1, n |-> n]), LAppendRows(tab, n), FAppendRows(tab, n)) : n \in (0 - 1)..2}
    \cup {E(O("DeleteRow", [t |-> 1, i |-> i]), LDeleteRow(tab, i), FDeleteRow(tab, i)) : i \in Idx}
    \cup {E(O("DeleteRows", [t |-> 1, i |-> i, j |-> j]), LDeleteRows(tab, i, j), FDeleteRows(tab, i, j)) : i \in Idx, j \in Idx}
    \cup {Ask1(O("HasRow", [t |-> 1, j |-> i])) : i \in Idx}
    \cup {Ask1(O("ReadAll", [t |-> 1, route |-> "typed-n"]))}
    \cup {Ask1(O("NewTableFromRows", [t |-> 1, nm |-> "U", i |-> i, j |-> j])) : i \in Idx, j \in Idx}
    \cup {E(O("AppendRowsFromTable", [t |-> 1, t2 |-> 1, i |-> i, j |-> j]), i <= j /\ RowOK(tab, i) /\ RowOK(tab, j),
            [tab EXCEPT !.rows = @ \o SubSeq(@, i + 1, j + 1)]) : i \in Idx, j \in Idx}
    \cup {E(O("SetVal", [t |-> 1, c |-> "a", j |-> j, v |-> VTok("int", v)]), HasC(tab, "a") /\ RowOK(tab, j), PutCell(tab, 1, j + 1, v)) : j \in Idx, v \in Vals}
    \cup {E(O("SetRowCellsToZeroValue", [t |-> 1, j |-> j]), RowOK(tab, j), FZeroRow(tab, j + 1)) : j \in Idx}
Init == \E x \in Start : tab = x /\ hist = <<BuildOp(x)>>
Next == StepBy(Edges, Bound)
Emitted == EmitBy(Edges)

WellFormed == WF(tab)
Laws == /\ FReverse(FReverse(tab)) = tab
        /\ FDeleteRow(FAppendRow(tab), NR(tab)) = tab
        /\ \A n \in 0..3 : NR(FAppendRows(tab, n)) = NR(tab) + n
        /\ NR(tab) > 0 => FDeleteRows(tab, 0, NR(tab) - 1) = FDeleteRowsAll(tab)
        /\ \A i \in 0..(NR(tab) - 1) :
              /\ FDeleteRows(tab, i, i) = FDeleteRow(tab, i)
              /\ FReverse(FDeleteRow(FReverse(tab), NR(tab) - 1 - i)) = FDeleteRow(tab, i)
              /\ \A j \in i..(NR(tab) - 1) : LET d == FDeleteRows(tab, i, j) IN
                    /\ NR(d) = NR(tab) - (j - i + 1)
                    /\ \A k \in 1..NR(d) : d.rows[k] = tab.rows[IF k <= i THEN k ELSE k + (j - i + 1)]
================================================================================

-------------------------------- MODULE MCCols ---------------------------------
(* Columns of one table: appending, deleting, renaming, swapping, reordering; sort keys follow their columns. *)
EXTENDS MC

Names == {"a", "b", "c"}
TryNames == Names \cup {"", "int", "9x", "a b"}
Types == IF DEEP THEN {"int", "string", "float64"} ELSE {"int", "string"}
K(c, r) == [c |-> c, r |-> r]
Base == [EmptyTable("T") EXCEPT !.cols = <<C("a", "int"), C("b", "string")>>, !.rows = <<<<3, 2>>, <<1, 4>>>>]
Start == {EmptyTable("T"), Base, [Base EXCEPT !.keys = <<K("a", FALSE)>>], [Base EXCEPT !.keys = <<K("b", TRUE), K("a", FALSE)>>],
          [Base EXCEPT !.keys = <<K("b", FALSE), K("a", TRUE), K("b", FALSE)>>, !.rows = <<<<4, 3>>>>]}
Bound(x) == NC(x) <= 3
Idx == (0 - 1)..NC(tab)
CN(i) == tab.cols[i + 1].n
NameLists == {[k \in 1..NC(tab) |-> tab.cols[p[k]].n] : p \in Perms(1..NC(tab))}
             \cup {<<>>, <<"a">>, <<"a", "a">>, <<"a", "b", "a">>, <<"c", "zz">>}
IdxLists == {[k \in 1..NC(tab) |-> p[k] - 1] : p \in Perms(1..NC(tab))} \cup {<<>>, <<0>>, <<0, 0>>, <<1, 2>>, <<0 - 1, 0>>, <<0, 2, 0>>}
Edges == {E(O("AppendCol", [t |-> 1, c |-> c, ty |-> ty]), LAppendCol(tab, c, ty), FAppendCol(tab, c, ty)) : c \in TryNames, ty \in Types \cup {"complex64", ""}}
    \cup {E(O("DeleteCol", [t |-> 1, c |-> c]), HasC(tab, c), FDeleteColI(tab, CI(tab, c))) : c \in TryNames}
    \cup {E(O("DeleteColByColIndex", [t |-> 1, i |-> i]), ColOK(tab, i), FDeleteColI(tab, i + 1)) : i \in Idx}
    \cup {E(O("RenameCol", [t |-> 1, c |-> c, c2 |-> d]), LRenameCol(tab, c, d), FRenameCol(tab, c, d)) : c \in Names, d \in TryNames}
    \cup {E(O("RenameColByColIndex", [t |-> 1, i |-> i, c2 |-> d]), ColOK(tab, i) /\ LRenameCol(tab, CN(i), d), FRenameCol(tab, CN(i), d)) : i \in Idx, d \in TryNames}
    \cup {E(O("SwapCols", [t |-> 1, c |-> c, c2 |-> d]), HasC(tab, c) /\ HasC(tab, d) /\ c # d, FSwapI(tab, CI(tab, c), CI(tab, d))) : c \in Names, d \in Names}
    \cup {E(O("SwapColsByColIndex", [t |-> 1, i |-> i, j |-> j]), ColOK(tab, i) /\ ColOK(tab, j) /\ i # j, FSwapI(tab, i + 1, j + 1)) : i \in Idx, j \in Idx}
    \cup {E(O("ReorderCols", [t |-> 1, cs |-> cs]), LPermN(tab, cs), FReorderN(tab, cs)) : cs \in NameLists}
    \cup {E(O("ReorderColsByColIndex", [t |-> 1, is |-> s]), LPermI(tab, s), FReorderI(tab, s)) : s \in IdxLists}
    \cup {Ask1(O("NewTableReorderCols", [t |-> 1, cs |-> cs])) : cs \in NameLists}
    \cup {Ask1(O("NewTableReorderColsByColIndex", [t |-> 1, is |-> s])) : s \in IdxLists}
    \cup {E(O("OrderColsBySortKeys", [t |-> 1]), TRUE, FOrderByKeys(tab))}
    \cup {Ask1(O("ReadAll", [t |-> 1, route |-> r])) : r \in {"typed-n", "typed-i"}}
    \cup {Ask1(O("HasCol", [t |-> 1, c |-> c])) : c \in TryNames} \cup {Ask1(O("ColIndex", [t |-> 1, c |-> c])) : c \in TryNames}
    \cup {Ask1(O("ColType", [t |-> 1, c |-> c])) : c \in TryNames} \cup {Ask1(O("ColName", [t |-> 1, i |-> i])) : i \in Idx}
    \cup {Ask1(O("IsColType", [t |-> 1, c |-> c, ty |-> ty])) : c \in Names, ty \in Types}
    \cup {Ask1(O("GetColInfoAsTable", [t |-> 1])), Ask1(O("GetSortKeysAsTable", [t |-> 1])), Ask1(O("CopyCols", [t |-> 1]))}
Init == \E x \in Start : tab = x /\ hist = <<BuildOp(x)>>
Next == StepBy(Edges, Bound)
Emitted == EmitBy(Edges)

WellFormed == WF(tab)
ColData(x, n) == <<TypeOf(x, n), [j \in 1..NR(x) |-> x.rows[j][CI(x, n)]]>>
ColNames == {tab.cols[i].n : i \in 1..NC(tab)}
SameData(x) == \A n \in ColNames : HasC(x, n) /\ ColData(x, n) = ColData(tab, n)
Laws == /\ \A i, j \in 1..NC(tab) : LET s == FSwapI(tab, i, j) IN FSwapI(s, i, j) = tab /\ SameData(s) /\ s.keys = tab.keys
        /\ \A p \in Perms(0..(NC(tab) - 1)) : SameData(FReorderI(tab, p)) /\ FReorderI(tab, p) = FReorderN(tab, [k \in 1..NC(tab) |-> CN(p[k])])
        /\ SameData(FOrderByKeys(tab)) /\ FOrderByKeys(FOrderByKeys(tab)) = FOrderByKeys(tab)
        /\ \A k \in 1..Len(KeyCols(tab)) : FOrderByKeys(tab).cols[k].n = KeyCols(tab)[k]
        /\ \A n \in ColNames :
              /\ LET d == FDeleteColI(tab, CI(tab, n)) IN WF(d) /\ ~HasC(d, n) /\ \A m \in ColNames \ {n} : ColData(d, m) = ColData(tab, m)
              /\ \A m \in Names : LRenameCol(tab, n, m) => FRenameCol(FRenameCol(tab, n, m), m, n) = tab /\ WF(FRenameCol(tab, n, m))
        /\ \A n \in Names : LAppendCol(tab, n, "int") => FDeleteColI(FAppendCol(tab, n, "int"), NC(tab) + 1) = tab
================================================================================

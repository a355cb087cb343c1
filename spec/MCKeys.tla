-------------------------------- MODULE MCKeys ---------------------------------
(* Sort keys and sorting of one table whose rows have equal, differing and missing values. *)
EXTENDS MC

T1 == [EmptyTable("T") EXCEPT !.cols = <<C("a", "int"), C("b", "string"), C("x", "time.Time")>>,
                              !.rows = <<<<3, 3, 1>>, <<2, 2, 2>>, <<3, 1, 1>>>>]
T2 == [T1 EXCEPT !.rows = <<<<4, 3, 1>>, <<4, 2, 2>>, <<2, 3, 1>>, <<4, 3, 2>>>>]
T3 == [EmptyTable("T") EXCEPT !.cols = <<C("b", "bool"), C("a", "float64")>>, !.rows = <<<<2, 4>>, <<1, 5>>, <<2, 3>>, <<1, 2>>>>]
Start == IF DEEP THEN {T1, T2, T3, [T1 EXCEPT !.rows = <<>>]} ELSE {T1, T3}
Bound(x) == Len(x.keys) <= 2
Try == {"a", "b", "x", "zz"}
Lists == IF DEEP THEN SeqsUpTo(Try, 2) ELSE SeqsUpTo({"a", "b"}, 2) \cup {<<"x">>, <<"a", "x">>, <<"zz">>}
Sortable(cs) == LKeys(tab, cs)
Edges == {E(O("SetSortKeys", [t |-> 1, cs |-> cs]), Sortable(cs), FKeys(tab, cs)) : cs \in Lists}
    \cup {E(O("SetSortKeysReverse", [t |-> 1, cs |-> cs]), \A k \in 1..Len(cs) : IsKey(tab, cs[k]), FKeysReverse(tab, cs)) : cs \in Lists}
    \cup {E(O("AppendSortKey", [t |-> 1, c |-> c]), Sortable(<<c>>), FAppendKey(tab, c)) : c \in Try}
    \cup {E(O("DeleteSortKey", [t |-> 1, c |-> c]), IsKey(tab, c), FDeleteKey(tab, c)) : c \in Try}
    \cup {E(O("Sort", [t |-> 1, cs |-> cs]), Sortable(cs) /\ (cs # <<>> \/ tab.keys # <<>>), FSort(IF cs = <<>> THEN tab ELSE FKeys(tab, cs))) : cs \in Lists}
    \cup {E(O("SortSimple", [t |-> 1, cs |-> cs]), Sortable(cs) /\ cs # <<>>, FSort(FKeys(tab, cs))) : cs \in Lists}
    \cup {E(O("Reverse", [t |-> 1]), TRUE, FReverse(tab))}
    \cup {Ask1(O("SetSortKeysFromTable", [t |-> 1, t2 |-> 1]))}
    \cup {Ask1(O("CompareRows", [t |-> 1, i |-> i, j |-> j])) : i \in (0 - 1)..NR(tab), j \in (0 - 1)..NR(tab)}
    \cup {Ask1(O("IsSortKey", [t |-> 1, c |-> c])) : c \in Try}
    \cup {Ask1(O("SortKeyCount", [t |-> 1])), Ask1(O("GetSortKeysAsTable", [t |-> 1]))}
    \cup {E(O("DeleteCol", [t |-> 1, c |-> c]), HasC(tab, c), FDeleteColI(tab, CI(tab, c))) : c \in Try}
    \cup {E(O("RenameCol", [t |-> 1, c |-> c, c2 |-> "a2"]), LRenameCol(tab, c, "a2"), FRenameCol(tab, c, "a2")) : c \in {"a"}}
    \cup {Ask1(O("OrderColsBySortKeys", [t |-> 1]))}
Small(x) == NC(x) = NC(IF HasC(x, "x") THEN T1 ELSE T3) /\ ~HasC(x, "a2")     \* do not go on from tables with other columns
Init == \E x \in Start : tab = x /\ hist = <<BuildOp(x)>>
Next == StepBy(Edges, LAMBDA x : Bound(x) /\ Small(x))
Emitted == EmitBy(Edges)

WellFormed == WF(tab)
Laws == LET s == FSort(tab) ki == KeyInfo(tab) IN
        /\ Sorted(s) /\ IsPerm(s.rows, tab.rows)
        /\ Sorted(tab) => FSort(tab) = tab
        \* whatever sorts the rows agrees on the key values at every position
        /\ \A p \in (IF NR(tab) <= 3 \/ DEEP THEN Perms(1..NR(tab)) ELSE {[j \in 1..NR(tab) |-> j]}) : LET y == [tab EXCEPT !.rows = [j \in 1..NR(tab) |-> @[p[j]]]] IN
              Sorted(y) => \A j \in 1..NR(tab) : KeyVals(ki, y.rows[j]) = KeyVals(ki, s.rows[j]) \/ CmpRows(ki, y.rows[j], s.rows[j], TRUE) = 0
        \* a comparison: antisymmetric and transitive; reversing every key reverses the order
        /\ \A i, j \in 1..NR(tab) : CmpRows(ki, tab.rows[i], tab.rows[j], TRUE) = 0 - CmpRows(ki, tab.rows[j], tab.rows[i], TRUE)
        /\ \A i, j, k \in 1..NR(tab) : CmpRows(ki, tab.rows[i], tab.rows[j], TRUE) <= 0 /\ CmpRows(ki, tab.rows[j], tab.rows[k], TRUE) <= 0
                                      => CmpRows(ki, tab.rows[i], tab.rows[k], TRUE) <= 0
        /\ (\A k \in 1..Len(ki) : ki[k].r) => \A i, j \in 1..NR(tab) : CmpRows(ki, tab.rows[i], tab.rows[j], TRUE) = CmpRows(ki, tab.rows[j], tab.rows[i], FALSE)
================================================================================

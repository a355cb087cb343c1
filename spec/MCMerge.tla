-------------------------------- MODULE MCMerge --------------------------------
(* Merging every pair of small tables, and SortUnique of every small table: an executable merge (append, sort by the *)
(* keys, fold equal keys) is shown to be one the specification allows, and the laws users rely on hold.              *)
EXTENDS MC

VARIABLES a, b, kind
K(c, r) == [c |-> c, r |-> r]
RowsOf(n) == SeqsUpTo({<<k, v>> : k \in {1, 3}, v \in {1, 4, 5}}, n)            \* k: -1, 1; v: NaN, 0, 1
KV(rows, keys, nm, c2) == [EmptyTable(nm) EXCEPT !.cols = <<C("k", "int"), C(c2, "float64")>>, !.rows = rows, !.keys = keys]
Shared == {<<KV(r1, <<K("k", FALSE)>>, "A", "v"), KV(r2, <<>>, "B", "v")>> : r1 \in RowsOf(2), r2 \in RowsOf(IF DEEP THEN 2 ELSE 1)}
Apart == {<<KV(r1, <<>>, "A", "v"), KV(r2, <<K("k", TRUE)>>, "B", "w")>> : r1 \in RowsOf(1), r2 \in RowsOf(IF DEEP THEN 2 ELSE 1)}
\* keys only, string values that differ in case, key column in another position, columns of other types
Str(rows, nm) == [EmptyTable(nm) EXCEPT !.cols = <<C("x", "string"), C("s", "string")>>, !.rows = rows, !.keys = <<K("s", FALSE)>>]
StrRows == SeqsUpTo({<<v, s>> : v \in {1, 2}, s \in {2, 3}}, 2)
Strs == {<<Str(r1, "A"), Str(r2, "B")>> : r1 \in StrRows, r2 \in SeqsUpTo({<<v, s>> : v \in {1, 4}, s \in {2, 3}}, 1)}
Odd == {<<x, y>> : x, y \in {KV(<<<<3, 5>>>>, <<K("k", FALSE)>>, "A", "v"), KV(<<>>, <<>>, "B", "v"), NilRec, EmptyTable("E"),
                              [KV(<<<<3, 3>>>>, <<K("k", FALSE)>>, "C", "v") EXCEPT !.cols[2].t = "int"],
                              [EmptyTable("D") EXCEPT !.cols = <<C("v", "float64")>>, !.rows = <<<<5>>>>],
                              [EmptyTable("F") EXCEPT !.cols = <<C("k", "string")>>, !.rows = <<<<2>>>>, !.keys = <<K("k", FALSE)>>]}}
Uniq == {KV(rows, <<K("k", r)>>, "A", "v") : rows \in RowsOf(IF DEEP THEN 4 ELSE 3), r \in {FALSE}} \cup {KV(rows, <<K("k", TRUE)>>, "A", "v") : rows \in RowsOf(2)}
        \cup {KV(rows, <<K("v", FALSE), K("k", TRUE)>>, "A", "v") : rows \in SeqsUpTo({<<k, v>> : k \in {1, 3}, v \in {3, 4, 5}}, 2)}
        \cup {Str(rows, "A") : rows \in SeqsUpTo({<<v, s>> : v \in {1, 2, 4}, s \in {2, 3}}, 3)}
\* nested tables: none, 1 without columns, 2 without rows, 3 with a row
Nests == <<BuildOp(EmptyTable("E1")), BuildOp([EmptyTable("E2") EXCEPT !.cols = <<C("i", "int")>>]), BuildOp([EmptyTable("E3") EXCEPT !.cols = <<C("i", "int")>>, !.rows = <<<<2>>>>])>>
Tab(rows, keys, nm) == [EmptyTable(nm) EXCEPT !.cols = <<C("k", "int"), C("x", "*Table")>>, !.rows = rows, !.keys = keys]
TabRows(n) == SeqsUpTo({<<k, v>> : k \in {1, 3}, v \in {FRESH, 1, 2, 3}}, n)
Tabs == {<<Tab(r1, ks[1], "A"), Tab(r2, ks[2], "B")>> : r1 \in TabRows(1), r2 \in TabRows(IF DEEP THEN 2 ELSE 1), ks \in {<<<<K("k", FALSE)>>, <<>>>>, <<<<>>, <<K("k", TRUE)>>>>}}
TabUniq == {Tab(rows, <<K("k", r)>>, "A") : rows \in TabRows(2), r \in BOOLEAN}
Init == /\ tab = EmptyTable("T") /\ hist = <<>>
        /\ \/ kind = "merge" /\ \E p \in Shared \cup Apart \cup Strs \cup Odd : a = p[1] /\ b = p[2]
           \/ kind = "unique" /\ a \in Uniq /\ b = NilRec
           \/ kind = "tabs" /\ \E p \in Tabs : a = p[1] /\ b = p[2]
           \/ kind = "tabuniq" /\ a \in TabUniq /\ b = NilRec
Next == FALSE /\ UNCHANGED <<tab, hist, a, b, kind>>
All == <<a, b, kind>>
Make(x) == IF x.nil THEN O("NewNilTable", [nm |-> ""]) ELSE BuildOp(x)
Emitted == IF kind = "merge" THEN Emit(<<Make(a), Make(b), O("Merge", [t |-> 1, t2 |-> 2]), O("Merge", [t |-> 2, t2 |-> 1]), O("Merge", [t |-> 1, t2 |-> 1])>>)
           ELSE IF kind = "tabs" THEN Emit(Nests \o <<Make(a), Make(b), O("Merge", [t |-> 4, t2 |-> 5]), O("Merge", [t |-> 5, t2 |-> 4]), O("Merge", [t |-> 4, t2 |-> 4])>>)
           ELSE IF kind = "tabuniq" THEN Emit(Nests \o <<Make(a), O("SortUnique", [t |-> 4, cs |-> <<>>]), O("SortUnique", [t |-> 4, cs |-> <<>>])>>)
           ELSE Emit(<<Make(a), O("SortUnique", [t |-> 1, cs |-> <<>>]), O("SortUnique", [t |-> 1, cs |-> <<a.cols[2].n>>]), O("SortUnique", [t |-> 1, cs |-> <<>>])>>)

\* the executable merge
Better(ty, v, w) == IF ~Missing(ty, v, {}) THEN v ELSE IF ~Missing(ty, w, {}) THEN w ELSE IF ZeroLike(ty, v) THEN v ELSE w
RECURSIVE Fold(_, _, _)
Fold(m, ki, rows) ==        \* rows sorted; the earlier of two equal rows takes precedence
    IF Len(rows) < 2 THEN rows
    ELSE IF CmpRows(ki, rows[1], rows[2], FALSE) # 0 THEN <<rows[1]>> \o Fold(m, ki, Tail(rows))
    ELSE Fold(m, ki, <<[c \in 1..NC(m) |-> Better(m.cols[c].t, rows[1][c], rows[2][c])]>> \o SubSeq(rows, 3, Len(rows)))
Spread(m, x) == [j \in 1..NR(x) |-> [c \in 1..NC(m) |-> IF HasC(x, m.cols[c].n) THEN x.rows[j][CI(x, m.cols[c].n)] ELSE AbsentVal(m.cols[c].t)]]
Folded(m) == LET s == FSort(m) IN [s EXCEPT !.rows = Fold(s, KeyInfo(s), s.rows)]
FMerge(x, y) == LET m == [EmptyTable("M") EXCEPT !.cols = MergeCols(x, y), !.keys = MergeKeys(x, y)]
                IN Folded([m EXCEPT !.rows = Spread(m, x) \o Spread(m, y)])
Legal == ~a.nil /\ ~b.nil /\ LMerge(a, b)
KeySet(x, ks) == LET ki == KeyIdx(x, ks) IN {KeyVals(ki, x.rows[j]) : j \in 1..NR(x)}
\* table 9 is none
NINE == {9}
Nine(x) == [x EXCEPT !.rows = [j \in 1..NR(x) |-> [c \in 1..NC(x) |-> IF x.cols[c].t = "*Table" /\ @[j][c] = FRESH THEN 9 ELSE @[j][c]]]]
Laws == IF kind \in {"unique", "tabuniq"} THEN
             LET u == Folded(a) IN
             /\ UniquePost(Nine(a), a.keys, Nine(u), NINE, {})
             /\ Folded(u) = u
             /\ FMerge(a, a).rows = u.rows \/ a.cols # FMerge(a, a).cols
        ELSE Legal =>
             LET m == FMerge(a, b) n == FMerge(b, a) IN
             /\ MergePost(Nine(a), Nine(b), Nine(m), NINE, {})
             /\ WF(Nine(m))
             /\ NR(m) <= NR(a) + NR(b)
             /\ NR(m) = NR(n)
             /\ {m.cols[i] : i \in 1..NC(m)} = {n.cols[i] : i \in 1..NC(n)}
             \* merging again with either table adds no rows
             /\ NR(FMerge(m, a)) = NR(m) /\ NR(FMerge(m, b)) = NR(m)
             /\ FMerge(m, m).rows = m.rows
             \* where only one of the tables has a row, its values stay
             /\ NR(b) = 0 /\ NR(a) = 1 => \A i \in 1..NC(a) : m.rows[1][CI(m, a.cols[i].n)] = a.rows[1][i]
WellFormed == \A x \in {a, b} : WFCols(x) /\ WFKeys(x) /\ (kind \in {"merge", "unique"} => WFRows(x))
================================================================================

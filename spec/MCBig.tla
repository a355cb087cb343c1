--------------------------------- MODULE MCBig ---------------------------------
(* Size: tables of many rows, many columns, many sort keys; sets of many tables; tables nested deep; long names -     *)
(* around the powers of two. What is true of small tables is true of these: $WHAT says of which calls.               *)
EXTENDS MC

WHAT == IOEnv.WHAT
VARIABLES n
Sizes == IF DEEP THEN {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513} ELSE {33, 64, 65, 128, 129, 257}
Small == IF DEEP THEN {9, 10, 11, 16, 17, 31, 32, 33, 48, 63, 64, 65, 100, 128, 129} ELSE {10, 17, 33, 65}
Init == /\ tab = EmptyTable("T") /\ hist = <<>>
        /\ n \in IF WHAT \in {"sets", "deep"} THEN Small ELSE Sizes
Next == FALSE /\ UNCHANGED <<tab, hist, n>>
All == n

K(c, r) == [c |-> c, r |-> r]
\* the rows that matter: at the ends, in the middle, around the powers of two
At == {j \in {0, 1, 30, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, n \div 2, n - 2, n - 1} : j >= 0 /\ j < n}
Ats == SetToSeq(At)
Each(f(_)) == Flat([i \in 1..Len(Ats) |-> f(Ats[i])])
Nm(i) == "c" \o ToString(i)
Types == <<"int", "string", "float64", "bool", "uint8", "[]byte">>
Ty(i) == Types[((i - 1) % 6) + 1]
Val(i, j) == ((i * 7 + j * 3 + (j \div 5)) % 2) + 1
Tall == [EmptyTable("T") EXCEPT !.cols = <<C("p", "int"), C("a", "string"), C("f", "float64")>>, !.rows = [j \in 1..n |-> <<((j * 7 + j \div 3) % 4) + 1, ((j \div 4) % 4) + 1, ((j * 3) % 4) + 2>>]]
\* sorted by p: many rows of each value
Steps == [EmptyTable("T") EXCEPT !.cols = <<C("p", "int"), C("a", "string")>>, !.rows = [j \in 1..n |-> <<IF j * 3 < n THEN 1 ELSE IF j < n - 1 THEN 2 ELSE 4, (j % 4) + 1>>], !.keys = <<K("p", FALSE)>>]
Down == [Steps EXCEPT !.rows = [j \in 1..n |-> Steps.rows[n + 1 - j]], !.keys = <<K("p", TRUE)>>]
Two == [EmptyTable("T") EXCEPT !.cols = <<C("b", "bool"), C("p", "int")>>, !.rows = [j \in 1..n |-> <<IF j * 2 <= n THEN 1 ELSE 2, IF j * 4 <= n \/ (j * 2 > n /\ j * 3 < n * 2) THEN 1 ELSE 3>>], !.keys = <<K("b", FALSE), K("p", FALSE)>>]
Wide == [EmptyTable("W") EXCEPT !.cols = [i \in 1..n |-> C(Nm(i), Ty(i))], !.rows = [j \in 1..2 |-> [i \in 1..n |-> Val(i, j)]]]
Put(h, c, j, ty, v) == O("SetVal", [t |-> h, c |-> c, j |-> j, v |-> VTok(ty, v)])
Four(h, vs) == [k \in 1..4 |-> O(<<"Search", "SearchFirst", "SearchLast", "SearchRange">>[k], [t |-> h, vs |-> vs])]
Inside(s) == <<O("NewTableSet", [nm |-> "S"]), O("AppendTable", [s |-> 1, t |-> s])>>
Trip(s, h, w) == CASE w = "text" -> [k \in 1..3 |-> O("TextRT", [t |-> h, how |-> <<"padded", "unpadded", "file">>[k]])]
                   [] w = "json" -> [k \in 1..2 |-> O("JsonRT", [t |-> h, how |-> <<"compact", "indent">>[k]])] \o Inside(h) \o <<O("SetJsonRT", [s |-> 1, how |-> "compact"])>>
                   [] w = "yaml" -> Inside(h) \o <<O("SetYamlRT", [s |-> 1, how |-> "yaml"])>>
                   [] w = "gob" -> <<O("GobRT", [t |-> h, how |-> "decode"])>> \o Inside(h) \o <<O("SetGobRT", [s |-> 1, how |-> "decode"])>>
Finite(x) == [x EXCEPT !.rows = [j \in 1..NR(x) |-> [i \in 1..NC(x) |-> IF x.cols[i].t = "float64" /\ @[j][i] = NaNTok("float64") THEN 2 ELSE @[j][i]]]]
Names(x) == [i \in 1..NC(x) |-> x.cols[i].n]
RECURSIVE Long(_, _)
Long(c, k) == IF k = 0 THEN "" ELSE IF k % 2 = 1 THEN c \o Long(c, k - 1) ELSE Long(c \o c, k \div 2)
\* tables 1..n, each in a cell of the next
Link(k) == [EmptyTable("L" \o ToString(k)) EXCEPT !.cols = <<C("i", "int"), C("x", "*Table")>>, !.rows = <<<<2, IF k = 1 THEN FRESH ELSE k - 1>>>>]
Chain == [k \in 1..n |-> BuildOp(Link(k))]
ASet == [k \in 1..n |-> BuildOp([EmptyTable("T" \o ToString(k)) EXCEPT !.cols = <<C("a", "int")>>, !.rows = <<<<(k % 4) + 1>>>>])]
        \o <<O("NewTableSet", [nm |-> "S"])>> \o [k \in 1..n |-> O("AppendTable", [s |-> 1, t |-> k])]
\* a document of n tables of one row, and one of a table of n rows
Ln(k, raw, ws, cs) == [k |-> k, raw |-> raw, ws |-> ws, cs |-> cs]
Plain(raw, ws) == Ln("line", raw, ws, <<>>)
Cells == Ln("cells", "1 \"A\"", <<"1", "\"A\"">>, <<[ty |-> "int", v |-> 3, nm |-> ""], [ty |-> "string", v |-> 2, nm |-> ""]>>)
Short == Ln("cells", "1", <<"1">>, <<[ty |-> "int", v |-> 3, nm |-> ""]>>)
Head3(nm) == <<Plain("[" \o nm \o "]", <<"[" \o nm \o "]">>), Plain("a b", <<"a", "b">>), Plain("int string", <<"int", "string">>)>>
Blank == Ln("blank", "", <<>>, <<>>)
Doc(l) == O("ParseDoc", [lines |-> l, eol |-> "\n", last |-> TRUE, how |-> "set"])

Spec == CASE WHAT = "rows" ->
               {<<BuildOp(Tall), O("AppendRow", [t |-> 1]), O("AppendRows", [t |-> 1, n |-> n]), O("Reverse", [t |-> 1]), O("HasRow", [t |-> 1, j |-> 2 * n]), O("HasRow", [t |-> 1, j |-> 2 * n + 1]),
                  O("AppendRowsFromTable", [t |-> 1, t2 |-> 1, i |-> n \div 2, j |-> 2 * n]), O("DeleteRows", [t |-> 1, i |-> 1, j |-> n]), O("RowCount", [t |-> 1]), O("DeleteRowsAll", [t |-> 1])>>,
                <<BuildOp(Tall)>> \o Each(LAMBDA j : <<O("DeleteRow", [t |-> 1, i |-> j]), O("AppendRow", [t |-> 1])>>),
                <<BuildOp(Tall)>> \o Each(LAMBDA j : <<O("DeleteRows", [t |-> 1, i |-> j, j |-> n - 1]), O("AppendRows", [t |-> 1, n |-> n - j]), Put(1, "p", n - 1, "int", 3)>>)}
          [] WHAT = "cells" ->
               {<<BuildOp(Tall)>> \o Each(LAMBDA j : <<O("SetTyped", [t |-> 1, by |-> "n", c |-> "p", i |-> 0, j |-> j, ty |-> "int", v |-> 3, must |-> FALSE]),
                                                        O("GetTyped", [t |-> 1, by |-> "i", c |-> "p", i |-> 0, j |-> j, ty |-> "int", must |-> FALSE]),
                                                        O("GetTyped", [t |-> 1, by |-> "n", c |-> "a", i |-> 1, j |-> j, ty |-> "string", must |-> FALSE]),
                                                        O("SetTyped", [t |-> 1, by |-> "i", c |-> "a", i |-> 1, j |-> j, ty |-> "string", v |-> 4, must |-> FALSE])>>)
                  \o <<O("SetColCellsToZeroValue", [t |-> 1, c |-> "a"]), O("SetAllFloatCellsToNaN", [t |-> 1])>>,
                <<BuildOp(Wide)>> \o Each(LAMBDA i : <<Put(1, Nm(i + 1), 1, Ty(i + 1), 2), O("SetTyped", [t |-> 1, by |-> "i", c |-> Nm(i + 1), i |-> i, j |-> 0, ty |-> Ty(i + 1), v |-> 1, must |-> FALSE]),
                                                        O("GetVal", [t |-> 1, by |-> "n", c |-> Nm(i + 1), i |-> i, j |-> 1, must |-> FALSE]), O("GetVal", [t |-> 1, by |-> "i", c |-> Nm(i + 1), i |-> i, j |-> 0, must |-> FALSE])>>)
                  \o <<O("SetRowCellsToZeroValue", [t |-> 1, j |-> 1]), O("SetRowFloatCellsToNaN", [t |-> 1, j |-> 0])>>}
          [] WHAT = "cols" ->
               {<<BuildOp(Wide)>> \o Each(LAMBDA i : <<O("ColIndex", [t |-> 1, c |-> Nm(i + 1)]), O("ColName", [t |-> 1, i |-> i]), O("ColType", [t |-> 1, c |-> Nm(i + 1)]), O("HasCol", [t |-> 1, c |-> Nm(i + 2)])>>),
                <<BuildOp(Wide), O("AppendCol", [t |-> 1, c |-> "z", ty |-> "int"]), O("ReorderCols", [t |-> 1, cs |-> Rev(Append(Names(Wide), "z"))]), O("ReorderColsByColIndex", [t |-> 1, is |-> [i \in 1..n + 1 |-> i % (n + 1)]]),
                  O("NewTableReorderCols", [t |-> 1, cs |-> Append(Names(Wide), "z")]), O("NewTableReorderColsByColIndex", [t |-> 1, is |-> Rev([i \in 1..n + 1 |-> i - 1])])>>,
                <<BuildOp(Wide)>> \o Each(LAMBDA i : <<O("RenameCol", [t |-> 1, c |-> Nm(i + 1), c2 |-> "d" \o ToString(i)]), O("SwapColsByColIndex", [t |-> 1, i |-> i, j |-> (i + n \div 3) % n])>>)
                  \o Each(LAMBDA i : <<O("DeleteCol", [t |-> 1, c |-> "d" \o ToString(i)]), O("AppendCol", [t |-> 1, c |-> "e" \o ToString(i), ty |-> Ty(i + 1)])>>)
                  \o <<O("DeleteColByColIndex", [t |-> 1, i |-> n - 1]), O("DeleteColByColIndex", [t |-> 1, i |-> 0])>>,
                <<BuildOp(Wide), BuildOp([Wide EXCEPT !.cols = [i \in 1..n |-> C(Nm(i + n \div 2), Ty(i + n \div 2))]]), O("AppendColsFromTable", [t |-> 1, t2 |-> 2])>>}
          [] WHAT = "sort" ->
               {<<BuildOp(Tall), O("Sort", [t |-> 1, cs |-> <<"p", "a">>]), O("SetSortKeysReverse", [t |-> 1, cs |-> <<"p">>]), O("Sort", [t |-> 1, cs |-> <<>>]), O("SortSimple", [t |-> 1, cs |-> <<"f">>]), O("Sort", [t |-> 1, cs |-> <<"a">>]),
                  O("SetSortKeys", [t |-> 1, cs |-> <<"a", "p">>])>> \o Each(LAMBDA j : <<O("CompareRows", [t |-> 1, i |-> j, j |-> n - 1]), O("CompareRows", [t |-> 1, i |-> n \div 2, j |-> j])>>),
                \* as many keys as there are cols that can be keys
                LET ks == SelectSeq(Names(Wide), LAMBDA c : TypeOf(Wide, c) \in SortTypes) m == Len(ks) IN
                <<BuildOp(Wide), O("SetSortKeys", [t |-> 1, cs |-> ks]), O("SetSortKeysReverse", [t |-> 1, cs |-> <<ks[m], ks[m \div 2]>>]), O("GetSortKeysAsTable", [t |-> 1]), O("IsSortKey", [t |-> 1, c |-> ks[m]]),
                  BuildOp(Wide), O("SetSortKeysFromTable", [t |-> 2, t2 |-> 1]), O("DeleteSortKey", [t |-> 1, c |-> ks[m \div 2]]), O("DeleteSortKey", [t |-> 1, c |-> ks[m]]), O("AppendSortKey", [t |-> 1, c |-> ks[m]]),
                  O("Sort", [t |-> 1, cs |-> <<>>]), O("OrderColsBySortKeys", [t |-> 1]), O("SortKeyCount", [t |-> 1])>>}
          [] WHAT = "search" ->
               {<<BuildOp(x)>> \o Four(1, <<VTok("int", 1)>>) \o Four(1, <<VTok("int", 2)>>) \o Four(1, <<VTok("int", 3)>>) \o Four(1, <<VTok("int", 4)>>)
                  \o <<O("NewTableFromRowsBySearchRange", [t |-> 1, nm |-> "U", vs |-> <<VTok("int", 2)>>])>> : x \in {Steps, Down}}
               \* the searches of the package, for ranges of numbers: k of n, k near the ends, the middle, powers of two
               \cup {<<O("NewTable", [nm |-> "T"])>> \o Each(LAMBDA j : <<O("PredSearchFirst", [n |-> n, k |-> j]), O("PredSearchLast", [n |-> n, k |-> j]), O("PredSearchFirst", [n |-> n * 4000000, k |-> j * 4000000 + 1]), O("PredSearchLast", [n |-> n * 4000000, k |-> j * 4000000 + 1])>>)
                       \o <<O("PredSearchFirst", [n |-> n, k |-> n]), O("PredSearchLast", [n |-> n, k |-> n]), O("PredSearchFirst", [n |-> n, k |-> n + 1]), O("PredSearchLast", [n |-> n, k |-> n + 1])>>}
               \cup {<<BuildOp(Two)>> \o Flat([k \in 1..4 |-> Four(1, <<VTok("bool", ((k - 1) % 2) + 1), VTok("int", IF k <= 2 THEN 1 ELSE 3)>>)])}
          [] WHAT = "merge" ->
               {<<BuildOp([Steps EXCEPT !.nm = "A"]), BuildOp([Down EXCEPT !.nm = "B", !.cols = <<C("p", "int"), C("b", "string")>>]), O("Merge", [t |-> 1, t2 |-> 2])>>,
                <<BuildOp([Tall EXCEPT !.keys = <<K("f", FALSE), K("a", TRUE), K("p", FALSE)>>]), BuildOp([Steps EXCEPT !.keys = <<>>, !.cols[1].n = "p", !.cols = Append(@, C("f", "float64")), !.rows = [j \in 1..NR(Steps) |-> Append(@[j], 3)]]), O("Merge", [t |-> 1, t2 |-> 2])>>}
          [] WHAT = "unique" ->
               {<<BuildOp([Tall EXCEPT !.keys = ks]), O("SortUnique", [t |-> 1, cs |-> <<>>])>> : ks \in {<<K("p", FALSE)>>, <<K("a", TRUE), K("p", FALSE)>>, <<K("f", FALSE), K("a", TRUE), K("p", FALSE)>>}}
          [] WHAT = "copy" ->
               {<<BuildOp(x), mk>> \o Each(LAMBDA j : <<Put(2, "p", j, "int", 3), Put(1, "a", j, "string", 2)>>) \o <<O("DeleteRow", [t |-> 1, i |-> 0]), O("AppendRow", [t |-> 2]), O("DeleteCol", [t |-> 2, c |-> "p"])>>
                  : x \in {Tall}, mk \in {O("Copy", [t |-> 1]), O("CopyDeep", [t |-> 1]), O("NewTableFromRows", [t |-> 1, nm |-> "U", i |-> 0, j |-> n - 1]), O("NewTableReorderCols", [t |-> 1, cs |-> <<"f", "p", "a">>])}}
               \cup {<<BuildOp(Wide), mk>> \o Each(LAMBDA i : <<Put(2, Nm(i + 1), 1, Ty(i + 1), 2), Put(1, Nm(i + 1), 1, Ty(i + 1), 1)>>) \o <<O("RenameCol", [t |-> 2, c |-> Nm(n), c2 |-> "z"]), O("DeleteCol", [t |-> 1, c |-> Nm(1)])>>
                  : mk \in {O("Copy", [t |-> 1]), O("CopyDeep", [t |-> 1])}}
          [] WHAT = "pure" ->
               {<<BuildOp(Tall)>> \o [k \in 1..8 |-> O("ReadAll", [t |-> 1, route |-> <<"val-n", "val-i", "mval-n", "mval-i", "typed-n", "typed-i", "mtyped-n", "mtyped-i">>[k]])] \o <<O("IsValidTable", [t |-> 1]), O("CsvOut", [t |-> 1, hd |-> <<>>]), O("Equals", [t |-> 1, t2 |-> 1])>>,
                <<BuildOp(Wide)>> \o [k \in 1..4 |-> O("ReadAll", [t |-> 1, route |-> <<"val-n", "val-i", "typed-n", "typed-i">>[k]])] \o <<O("IsValidTable", [t |-> 1]), O("GetColInfoAsTable", [t |-> 1]), O("CsvOut", [t |-> 1, hd |-> <<>>])>>}
          [] WHAT = "equals" ->
               {<<BuildOp(Tall), BuildOp(Tall)>> \o Each(LAMBDA j : <<Put(2, "a", j, "string", (Tall.rows[j + 1][2] % 4) + 1), O("Equals", [t |-> 1, t2 |-> 2]), O("Equals", [t |-> 2, t2 |-> 1]), Put(2, "a", j, "string", Tall.rows[j + 1][2]), O("Equals", [t |-> 2, t2 |-> 1])>>)
                  \o <<O("AppendRow", [t |-> 2]), O("Equals", [t |-> 1, t2 |-> 2]), O("Equals", [t |-> 2, t2 |-> 1])>>,
                <<BuildOp(Wide), BuildOp(Wide)>> \o Each(LAMBDA i : <<Put(2, Nm(i + 1), 1, Ty(i + 1), 3 - Val(i + 1, 2)), O("Equals", [t |-> 1, t2 |-> 2]), O("Equals", [t |-> 2, t2 |-> 1]), Put(2, Nm(i + 1), 1, Ty(i + 1), Val(i + 1, 2)), O("Equals", [t |-> 2, t2 |-> 1])>>)
                  \o <<O("RenameCol", [t |-> 2, c |-> Nm(n), c2 |-> "z"]), O("Equals", [t |-> 1, t2 |-> 2])>>}
          [] WHAT \in {"text", "json", "yaml", "gob"} ->
               {<<BuildOp(Finite(Tall))>> \o Trip(1, 1, WHAT), <<BuildOp(Finite(Wide))>> \o Trip(1, 1, WHAT),
                <<BuildOp([Finite(Wide) EXCEPT !.rows = <<@[1]>>]), O("SetStructShape", [t |-> 1, b |-> TRUE])>> \o Trip(1, 1, WHAT),
                <<BuildOp([EmptyTable(Long("n", n)) EXCEPT !.cols = <<C(Long("c", n), "string"), C("x", "int")>>, !.rows = <<<<2, 3>>, <<1, 2>>>>])>> \o Trip(1, 1, WHAT)}
          [] WHAT = "sets" ->
               {ASet \o <<O("SetTableCount", [s |-> 1]), O("SetGetTable", [s |-> 1, nm |-> "T" \o ToString(n)]), O("SetGetTableByTableIndex", [s |-> 1, i |-> n - 1]), O("SetGetTableByTableIndex", [s |-> 1, i |-> n]), O("SetTableIndex", [s |-> 1, nm |-> "T" \o ToString(n - 1)]),
                          O("SetHasTable", [s |-> 1, nm |-> "T" \o ToString(n + 1)]), O("SetCopy", [s |-> 1]), O("SetEquals", [s |-> 1, s2 |-> 2]), O("SetTextRT", [s |-> 1, how |-> "padded"]), O("SetJsonRT", [s |-> 1, how |-> "compact"]), O("SetYamlRT", [s |-> 1, how |-> "yaml"]), O("SetGobRT", [s |-> 1, how |-> "decode"]),
                          O("DeleteTableByTableIndex", [s |-> 1, i |-> n \div 2]), O("DeleteTable", [s |-> 1, nm |-> "T1"]), O("SetEquals", [s |-> 1, s2 |-> 2]), O("SetEquals", [s |-> 2, s2 |-> 1]),
                          O("SetRenameTable", [s |-> 1, nm |-> "T" \o ToString(n), nm2 |-> "Y"]), O("AppendTable", [s |-> 1, t |-> 1]), O("DeleteTable", [s |-> 1, nm |-> "Y"])>>}
          [] WHAT = "deep" ->
               {Chain \o <<O("HasCircularReference", [t |-> n]), O("IsValidTableNesting", [t |-> n]), O("IsValidTable", [t |-> n]), O("Walk", [t |-> n, nested |-> TRUE, stop |-> 0 - 1]), O("JsonRT", [t |-> n, how |-> "compact"]), O("Copy", [t |-> n]), O("CopyDeep", [t |-> n]),
                            O("Equals", [t |-> n, t2 |-> n]), O("NewTableSet", [nm |-> "S"]), O("AppendTable", [s |-> 1, t |-> n]), O("SetYamlRT", [s |-> 1, how |-> "yaml"])>>
                     \* the last one holds the first: a circle of all
                     \o <<O("SetTyped", [t |-> 1, by |-> "n", c |-> "x", j |-> 0, ty |-> "*Table", v |-> n, must |-> FALSE]), O("HasCircularReference", [t |-> n]), O("HasCircularReference", [t |-> n \div 2]), O("IsValidTableNesting", [t |-> 1]), O("IsValidTable", [t |-> n]),
                            O("JsonRT", [t |-> n, how |-> "compact"]), O("Walk", [t |-> n, nested |-> TRUE, stop |-> 0 - 1]), O("CopyDeep", [t |-> n])>>}
          [] WHAT = "csv" ->
               {<<BuildOp(Tall), O("CsvOut", [t |-> 1, hd |-> <<>>]), O("ColStrings", [t |-> 1, by |-> "n", c |-> "a", i |-> 0]), O("JoinCol", [t |-> 1, by |-> "i", i |-> 1, j |-> 0, sep |-> ";~|"])>> \o Each(LAMBDA j : <<O("ValString", [t |-> 1, by |-> "n", c |-> "a", j |-> j])>>),
                <<BuildOp(Wide), O("CsvOut", [t |-> 1, hd |-> <<>>]), O("CsvOut", [t |-> 1, hd |-> [i \in 1..n |-> "h" \o ToString(i)]])>> \o Each(LAMBDA i : <<O("ValString", [t |-> 1, by |-> "i", i |-> i, j |-> 1])>>)}
          [] WHAT = "nest" ->
               {<<BuildOp([EmptyTable("A") EXCEPT !.cols = <<C("p", "int")>>, !.rows = <<<<1>>, <<2>>, <<3>>, <<4>>>>, !.keys = <<K("p", r)>>]), BuildOp([Steps EXCEPT !.nm = "B", !.keys = <<>>]), O("Nest", [t |-> 1, t2 |-> 2, c |-> "x"])>> : r \in BOOLEAN}
               \cup {<<BuildOp([Tall EXCEPT !.keys = <<K("p", FALSE), K("a", TRUE)>>]), BuildOp([EmptyTable("B") EXCEPT !.cols = <<C("a", "string"), C("p", "int"), C("w", "bool")>>, !.rows = [k \in 1..12 |-> <<(k % 4) + 1, (k % 3) + 1, (k % 2) + 1>>]]), O("Nest", [t |-> 1, t2 |-> 2, c |-> "x"])>>}
          [] WHAT = "doc" ->
               {<<Doc(Head3("T") \o [k \in 1..n |-> Cells])>>, <<Doc(Head3("T") \o [k \in 1..n |-> Cells] \o <<Short>>)>>, <<Doc(Head3("T") \o [k \in 1..n |-> Cells] \o <<Blank>> \o Head3("U") \o <<Cells>>)>>,
                <<Doc(Flat([k \in 1..n |-> Head3("T" \o ToString(k)) \o <<Cells, Blank>>]))>>,
                <<Doc(<<Plain("[T]", <<"[T]">>)>> \o [k \in 1..n |-> Ln("field", Nm(k) \o " int = 1", <<Nm(k), "int", "=", "1">>, <<[ty |-> "int", v |-> 3, nm |-> ""]>>)])>>}
          [] WHAT = "names" ->
               {<<O("NewTable", [nm |-> Long("n", n)]), O("AppendCol", [t |-> 1, c |-> Long("c", n), ty |-> "int"]), O("AppendCol", [t |-> 1, c |-> Long("c", n - 1), ty |-> "int"]), O("AppendCol", [t |-> 1, c |-> Long("c", n) \o "d", ty |-> "string"]),
                  O("AppendCol", [t |-> 1, c |-> Long("c", n), ty |-> "bool"]), O("AppendCol", [t |-> 1, c |-> Long("c", n) \o "-", ty |-> "bool"]), O("AppendRow", [t |-> 1]), Put(1, Long("c", n), 0, "int", 3), Put(1, Long("c", n) \o "d", 0, "string", 2),
                  O("RenameCol", [t |-> 1, c |-> Long("c", n), c2 |-> Long("e", n)]), O("ColIndex", [t |-> 1, c |-> Long("c", n)]), O("SetName", [t |-> 1, nm |-> Long("n", n) \o "-"]), O("SetName", [t |-> 1, nm |-> Long("m", n)]), O("IsValidTable", [t |-> 1])>>}
Scripts == Spec
Emitted == \A s \in Scripts : Emit(s)
WellFormed == \A x \in {Tall, Steps, Down, Two, Wide} : WF(x) /\ NR(x) >= 2
Laws == Sorted(Steps) /\ Sorted(Down) /\ Sorted(Two) /\ Finite(Finite(Tall)) = Finite(Tall)
================================================================================

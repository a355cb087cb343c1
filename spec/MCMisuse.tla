-------------------------------- MODULE MCMisuse --------------------------------
(* Misuse: every call, on a nil pointer, a NilTable, a table without columns, without rows, and an ordinary one, with *)
(* right and wrong arguments. Trace.tla requires an error (a panic of Must- calls) and no change from all wrong ones. *)
EXTENDS MC

VARIABLES h, op
K(c, r) == [c |-> c, r |-> r]
NoRows == [EmptyTable("R") EXCEPT !.cols = <<C("a", "int"), C("f", "float64")>>]
Full == [EmptyTable("F") EXCEPT !.cols = <<C("a", "int"), C("f", "float64"), C("s", "string")>>, !.rows = <<<<3, 5, 2>>, <<4, 4, 3>>>>, !.keys = <<K("a", FALSE)>>]
\* handles: 0 nil, 1 NilTable, 2 no columns, 3 no rows, 4 ordinary
Pre == <<O("NewNilTable", [x |-> 0]), BuildOp(EmptyTable("E")), BuildOp(NoRows), BuildOp(Full), O("NewTableSet", [nm |-> "S"]), O("AppendTable", [s |-> 1, t |-> 4]),
         O("NewTableSet", [nm |-> ""]), O("AppendTable", [s |-> 2, t |-> 1])>>
Hs == 0..4
Cs == {"a", "f", "zz", ""}
Is == {0 - 1, 0, 1, 2, 1000000}
Nms == {"X", "", "9x", "int"}
Vs == {VTok("int", 3), VTok("string", 2), VTok("nil", 0), VTok("odd", 0)}
Lists == {<<>>, <<"a">>, <<"f", "a">>, <<"zz">>, <<"a", "zz">>}
Bs == BOOLEAN
Plain == {"AppendRow", "DeleteRowsAll", "Reverse", "ShuffleRandom", "ShufflePseudorandom", "OrderColsBySortKeys", "SetAllFloatCellsToNaN", "ColCount", "RowCount", "Name", "SortKeyCount",
          "IsNilTable", "IsStructShape", "IsValidTable", "ParentTable", "GetColInfoAsSlices", "GetColInfoAsTable", "GetSortKeysAsTable", "Copy", "CopyCols", "CopyDeep", "HasCircularReference",
          "IsValidTableNesting", "StringNested"}
ByC == {"DeleteCol", "SetColCellsToZeroValue", "SetColFloatCellsToNaN", "HasCol", "ColIndex", "ColType", "IsTableCol", "IsSortKey", "AppendSortKey", "DeleteSortKey"}
ByI == {"DeleteColByColIndex", "SetColCellsToZeroValueByColIndex", "SetColFloatCellsToNaNByColIndex", "HasColByColIndex", "ColName", "ColNameByColIndex", "ColTypeByColIndex", "IsTableColByColIndex", "DeleteRow"}
ByJ == {"HasRow", "IsValidRow", "RowByRowIndex", "SetRowCellsToZeroValue", "SetRowFloatCellsToNaN"}
ByCJ == {"HasCell", "GetCellInfo", "SetCellToZeroValue", "SetFloatCellToNaN"}
ByIJ == {"HasCellByColIndex", "GetCellInfoByColIndex", "SetCellToZeroValueByColIndex", "SetFloatCellToNaNByColIndex"}
ByN == {"SetName", "RenameTable"}
ByII == {"DeleteRows", "SwapColsByColIndex", "CompareRows"}
ByLists == {"SetSortKeys", "SetSortKeysReverse", "Sort", "SortSimple", "SortUnique", "ReorderCols", "NewTableReorderCols"}
By2 == {"Merge", "Equals", "SetSortKeysFromTable", "AppendColsFromTable"}
Searches == {"Search", "SearchFirst", "SearchLast", "SearchRange"}
SetPlain == {"SetTableCount", "SetGetName", "SetFileNameGet", "IsValidTableSet", "SetCopy"}
SetByN == {"SetGetTable", "SetHasTable", "SetTableIndex", "DeleteTable", "SetSetName", "SetSetFileName"}
SetByI == {"SetGetTableByTableIndex", "DeleteTableByTableIndex"}
Codecs == {O("TextRT", [t |-> h, how |-> "padded"]), O("TextRT", [t |-> h, how |-> "unpadded"]), O("JsonRT", [t |-> h, how |-> "compact"]), O("JsonRT", [t |-> h, how |-> "indent"]),
           O("GobRT", [t |-> h, how |-> "new"]), O("CsvOut", [t |-> h, hd |-> <<>>]), O("CsvOut", [t |-> h, hd |-> <<"x">>]), O("GenSrc", [t |-> h, w |-> "struct"]),
           O("SetTextRT", [s |-> h, how |-> "padded"]), O("SetJsonRT", [s |-> h, how |-> "compact"]), O("SetYamlRT", [s |-> h, how |-> "yaml"]), O("SetGobRT", [s |-> h, how |-> "new"])}
Ops == Plain \cup ByC \cup ByI \cup ByJ \cup ByCJ \cup ByIJ \cup ByN \cup ByII \cup ByLists \cup By2 \cup Searches \cup SetPlain \cup SetByN \cup SetByI
       \cup {"AppendRows", "AppendCol", "RenameCol", "RenameColByColIndex", "SwapCols", "SetVal", "SetValByColIndex", "GetVal", "GetTyped", "SetTyped", "IsColType", "IsColTypeByColIndex",
             "IsValidColValue", "NewTableFromRows", "NewTableFromRowsBySearchRange", "AppendRowsFromTable", "ReorderColsByColIndex", "NewTableReorderColsByColIndex", "Walk", "NewTreeTable",
             "SetRename", "SetAppend", "SetEquals", "SetWalk", "Codecs", "NewTables", "Nest", "Export", "SetStructShape"}
SetHs == {0, 1, 2}
Calls == CASE op \in Plain -> {O(op, [t |-> h])}
           [] op \in ByC -> {O(op, [t |-> h, c |-> c]) : c \in Cs}
           [] op \in ByI -> {O(op, [t |-> h, i |-> i]) : i \in Is}
           [] op \in ByJ -> {O(op, [t |-> h, j |-> i]) : i \in Is}
           [] op \in ByCJ -> {O(op, [t |-> h, c |-> c, j |-> i]) : c \in Cs, i \in Is}
           [] op \in ByIJ -> {O(op, [t |-> h, i |-> c, j |-> i]) : c \in Is, i \in Is}
           [] op \in ByN -> {O(op, [t |-> h, nm |-> n]) : n \in Nms}
           [] op \in ByII -> {O(op, [t |-> h, i |-> i, j |-> j]) : i \in Is, j \in Is}
           [] op \in ByLists -> {O(op, [t |-> h, cs |-> cs]) : cs \in Lists}
           [] op \in By2 -> {O(op, [t |-> h, t2 |-> k]) : k \in Hs}
           [] op \in Searches -> {O(op, [t |-> h, vs |-> vs]) : vs \in {<<>>} \cup {<<v>> : v \in Vs} \cup {<<VTok("int", 3), VTok("int", 3)>>}}
           [] op = "NewTableFromRowsBySearchRange" -> {O(op, [t |-> h, nm |-> n, vs |-> vs]) : n \in {"X", "9x"}, vs \in {<<>>} \cup {<<v>> : v \in Vs}}
           [] op \in SetPlain -> {O(op, [s |-> k]) : k \in SetHs}
           [] op \in SetByN -> {O(op, [s |-> k, nm |-> n]) : k \in SetHs, n \in {"F", "zz", "", "9x"}}
           [] op \in SetByI -> {O(op, [s |-> k, i |-> i]) : k \in SetHs, i \in Is}
           [] op = "AppendRows" -> {O(op, [t |-> h, n |-> n]) : n \in {0 - 1, 0, 2}}
           [] op = "AppendCol" -> {O(op, [t |-> h, c |-> c, ty |-> ty]) : c \in {"a", "n", "", "9x", "int"}, ty \in {"int", "*Table", "complex64", ""}}
           [] op = "RenameCol" -> {O(op, [t |-> h, c |-> c, c2 |-> d]) : c \in Cs, d \in {"a", "n", "", "9x"}}
           [] op = "RenameColByColIndex" -> {O(op, [t |-> h, i |-> i, c2 |-> d]) : i \in Is, d \in {"a", "n", "", "9x"}}
           [] op = "SwapCols" -> {O(op, [t |-> h, c |-> c, c2 |-> d]) : c \in Cs, d \in Cs}
           [] op = "SetVal" -> {O(op, [t |-> h, c |-> c, j |-> i, v |-> v]) : c \in Cs, i \in Is, v \in Vs}
           [] op = "SetValByColIndex" -> {O(op, [t |-> h, i |-> c, j |-> i, v |-> v]) : c \in Is, i \in Is, v \in Vs}
           [] op = "GetVal" -> {O(op, [t |-> h, by |-> "n", c |-> c, j |-> j, must |-> m]) : c \in Cs, j \in Is, m \in Bs} \cup {O(op, [t |-> h, by |-> "i", i |-> c, j |-> j, must |-> m]) : c \in Is, j \in Is, m \in Bs}
           [] op = "GetTyped" -> {O(op, [t |-> h, by |-> "n", c |-> c, j |-> j, ty |-> "int", must |-> m]) : c \in Cs, j \in Is, m \in Bs}
           [] op = "SetTyped" -> {O(op, [t |-> h, by |-> "n", c |-> c, j |-> j, ty |-> "int", v |-> 3, must |-> m]) : c \in Cs, j \in Is, m \in Bs}
           [] op = "IsColType" -> {O(op, [t |-> h, c |-> c, ty |-> ty]) : c \in Cs, ty \in {"int", "zz", ""}}
           [] op = "IsColTypeByColIndex" -> {O(op, [t |-> h, i |-> i, ty |-> ty]) : i \in Is, ty \in {"int", "zz", ""}}
           [] op = "IsValidColValue" -> {O(o, [t |-> h, c |-> c, v |-> v]) : o \in {"IsValidColValue", "IsValidCellValue"}, c \in Cs, v \in Vs}
           [] op = "NewTableFromRows" -> {O(op, [t |-> h, nm |-> n, i |-> i, j |-> j]) : n \in {"X", "9x"}, i \in Is, j \in Is}
           [] op = "AppendRowsFromTable" -> {O(op, [t |-> h, t2 |-> k, i |-> i, j |-> j]) : k \in Hs, i \in {0 - 1, 0, 1}, j \in {0 - 1, 0, 1, 9}}
           [] op \in {"ReorderColsByColIndex", "NewTableReorderColsByColIndex"} -> {O(op, [t |-> h, is |-> x]) : x \in {<<>>, <<0>>, <<1, 0>>, <<0, 0>>, <<2, 1, 0>>, <<0, 1, 3>>, <<0 - 1, 0, 1>>}}
           [] op = "Walk" -> {O(op, [t |-> h, nested |-> b, stop |-> n]) : b \in Bs, n \in {0 - 1, 0, 3}}
           [] op = "NewTreeTable" -> {O(op, [t |-> h, n |-> n]) : n \in {0 - 1, 0}}
           [] op = "SetStructShape" -> {O(op, [t |-> h, b |-> b]) : b \in Bs}
           [] op = "SetRename" -> {O("SetRenameTable", [s |-> k, nm |-> n, nm2 |-> m]) : k \in SetHs, n \in {"F", "zz", ""}, m \in {"F", "Z", "9x", ""}}
           [] op = "SetAppend" -> {O(o, [s |-> k, t |-> h]) : o \in {"Append", "AppendTable"}, k \in SetHs}
           [] op = "SetEquals" -> {O(op, [s |-> k, s2 |-> m]) : k \in SetHs, m \in SetHs}
           [] op = "SetWalk" -> {O(op, [s |-> k, nested |-> b, stop |-> n]) : k \in SetHs, b \in Bs, n \in {0 - 1, 1}}
           [] op = "Codecs" -> {o \in Codecs : "s" \in DOMAIN o.a => h <= 2}
           [] op = "NewTables" -> {O("NewTable", [nm |-> n]) : n \in Nms} \cup {O("NewTableFromMetadata", [nm |-> n, ns |-> x, ts |-> y]) : n \in {"X", "9x"}, x \in {<<>>, <<"a">>, <<"a", "a">>, <<"a", "b">>, <<"9x">>}, y \in {<<>>, <<"int">>, <<"int", "int">>, <<"zz">>}}
           [] op = "Nest" -> {O(op, [t |-> h, t2 |-> k, c |-> c]) : k \in {0, 2, 3}, c \in {"n", "a", "9x"}}
           [] op = "Export" -> {O("ValString", [t |-> h, by |-> "n", c |-> c, i |-> 0, j |-> j]) : c \in Cs, j \in Is} \cup {O("ValString", [t |-> h, by |-> "i", c |-> "", i |-> i, j |-> j]) : i \in Is, j \in Is}
                               \cup {O("ColStrings", [t |-> h, by |-> "n", c |-> c, i |-> 0]) : c \in Cs} \cup {O("JoinCol", [t |-> h, by |-> "i", i |-> i, j |-> 0, sep |-> ";~|"]) : i \in Is}
Init == op \in Ops /\ h \in Hs /\ tab = EmptyTable("T") /\ hist = <<>>
Next == FALSE /\ UNCHANGED <<tab, hist, h, op>>
All == <<h, op>>
\* in runs of twelve from the same state
RECURSIVE Chunks(_)
Chunks(s) == IF Len(s) <= 12 THEN Emit(Pre \o s) ELSE Emit(Pre \o SubSeq(s, 1, 12)) /\ Chunks(SubSeq(s, 13, Len(s)))
Emitted == Chunks(SetToSeq(Calls))
WellFormed == TRUE
Laws == TRUE
================================================================================

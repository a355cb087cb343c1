#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source, easier to edit than raw JSONL)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "Every reachable table is rectangular and type-consistent",
 "After any sequence of public API calls on a table, successful or failing, every row holds exactly one cell per column and every cell holds a value of its column's declared type. "
 "Column names are valid and unique, the lookups by name, by position and as slices agree with each other, and the table passes its own validity check. "
 "Every sort key names a column the table currently has.",
 ["histories", "inputs"], "all finite sequences of structural, row, cell and sort-key calls, with valid and invalid arguments, over tables of every column type",
 "The tests run short hand-written call sequences; stale name maps, ragged rows or dangling sort keys only appear after particular combinations (rename then sort, delete a column then search, swap then read).",
 ["gotables.go", "sort.go", "helpers.go"],
 [("parallel colNames/colTypes/colNamesMap/rows kept in step by each mutator", "gotables.go AppendCol, DeleteColByColIndex, RenameCol, ReorderColsByColIndex; sort.go SwapColsByColIndex, OrderColsBySortKeys"),
  ("IsValidTable, IsValidRow", "gotables.go")],
 ["ColCount/ColName/ColType/ColIndex/RowCount/GetValByColIndex/GetSortKeysAsTable/IsValidTable after every call"],
 [("colNames, colTypes, colNamesMap, rows, sortKeys", "column metadata, index and data that must stay in step", "gotables.go type Table")])

prop("C02", "A cell write changes only that cell and reads back exactly",
 "Setting a cell, by any of the generic or type-specific setters and by column name or by column position, changes exactly the addressed cell, and every getter for that cell then returns the identical value (bit for bit for floats). "
 "The type-specific accessors accept exactly their column's type (treating byte/uint8 and []byte/[]uint8 as the same); a wrong type, unknown column or out-of-range row is refused with an error, and every other cell keeps its value. "
 "The zero-value and NaN setters write exactly the documented cells, and the panicking variants behave as their error-returning counterparts except that an error becomes a panic.",
 ["inputs", "histories"], "all column types, all values of each type including extremes, all in-range and out-of-range positions, after any history",
 "The accessor tests write one value into a one-row table per type; 40 setters and 40 getters times all types times positions in multi-row, multi-column tables are not crossed, nor is the frame (all other cells) ever compared.",
 ["helpers.go", "gotables.go"],
 [("20 Set<Type>, 20 Set<Type>ByColIndex, 40 getters, MustSet/MustGet variants", "helpers.go"),
  ("SetVal, SetValByColIndex, GetVal, GetValByColIndex, isAlias", "gotables.go"),
  ("SetCellToZeroValue, SetRowCellsToZeroValue, SetColCellsToZeroValue, SetFloatCellToNaN and relatives", "gotables.go, helpers.go")],
 ["the full projected table after each call; the getter's result"])

prop("C03", "Row operations keep exactly the remaining rows, in order",
 "Appending rows adds exactly the requested number of rows at the end, each holding the zero value of every column's type; deleting a row or an inclusive range removes exactly those rows and keeps the others in their original order. "
 "Reversing reverses the order and shuffling permutes the rows, in both cases leaving each row's cells together. "
 "Invalid row positions or counts are refused with an error and change nothing.",
 ["histories", "inputs"], "all tables, all in-range and out-of-range indices and ranges, all interleavings of row operations",
 "Tests delete one or two chosen ranges from fixed tables; boundary ranges (first row, last row, whole table, single row, inverted) after other operations are not enumerated.",
 ["gotables.go", "helpers.go"],
 [("AppendRow, AppendRows, DeleteRow, DeleteRows, DeleteRowsAll, Reverse, ShufflePseudorandom, ShuffleRandom", "gotables.go")],
 ["the full projected table after each call"])

prop("C04", "Column operations keep each column's data with its name and type",
 "Appending a column adds it last with zero values in every existing row; deleting one removes exactly that column; renaming changes only the name (also in the sort keys that refer to it). "
 "Reordering or swapping columns, in place or into a new table, and moving the sort-key columns to the front, changes only the positions of columns: for every row and column name the cell value, and for every column name its type, are as before. "
 "Duplicate, unknown or invalid column names, types or positions and incomplete orderings are refused with an error and change nothing.",
 ["histories", "inputs"], "all tables with any number of columns and rows, all permutations, all interleavings of column operations, all column types",
 "Tests reorder one fixed table and swap columns without rows; column/data mismatches need a table with rows, differing types and a follow-up read by name.",
 ["gotables.go", "sort.go"],
 [("AppendCol, DeleteCol(ByColIndex), RenameCol(ByColIndex), ReorderCols(ByColIndex), NewTableReorderCols(ByColIndex)", "gotables.go"),
  ("SwapCols(ByColIndex), OrderColsBySortKeys", "sort.go")],
 ["the full projected table(s) after each call"])

prop("C05", "Sorting orders rows by the sort keys and keeps every row intact",
 "After sorting by the table's sort keys, or by the columns given to the call, the rows are a permutation of the original rows, with no cell moved between rows, and each adjacent pair is in order under the keys taken lexicographically, ascending unless the key is marked reverse. "
 "Order is numeric for numbers, false before true for booleans, and for strings case-insensitive first with ties broken by exact text; comparing two rows agrees with that order, ignoring the reverse flag. "
 "Sort keys are set, reversed, appended, deleted, copied and listed exactly as requested, in order; sorting without keys, or with unknown columns or column types that have no order, is an error that changes nothing.",
 ["inputs", "histories"], "all tables of any size, all sequences of sort-key calls, all key lists over every orderable column type, with any mix of reversed keys and duplicate key values (NaN excluded)",
 "Tests sort small fixed tables by int and string; per-type comparators, third keys, reversed keys on mixed types and tables larger than the insertion-sort threshold are not crossed.",
 ["sort.go"],
 [("compareFuncs, sortByKeys, Sort, SortSimple, CompareRows", "sort.go"),
  ("SetSortKeys, SetSortKeysReverse, AppendSortKey, DeleteSortKey, SetSortKeysFromTable, GetSortKeysAsTable, SortKeyCount, IsSortKey", "sort.go")],
 ["the full projected table and sort keys after each call"],
 [("sortKeys", "ordered list of (column, reverse)", "sort.go type SortKeys")])

prop("C06", "Searching a sorted table finds exactly the matching rows",
 "On a table sorted by its sort keys, searching for a full set of key values returns a matching row if one exists; the first/last/range searches return the lowest, the highest, and both row positions of the contiguous block of matching rows. "
 "If no row matches, including values below or above every row, each search reports an error with position -1 and never panics. "
 "The stand-alone first/last binary searches over a monotonic predicate return the boundary position of the predicate, or -1 (not found).",
 ["inputs", "histories"], "all sorted tables of any size, all key lists with any mix of reversed keys, all present and absent search values, all column types",
 "Tests search a handful of values in fixed tables; absent values below the first row, blocks touching either end, and mixed reverse keys are not enumerated.",
 ["sort.go"],
 [("searchByKeysFirst, searchByKeysLast, SearchRange, search, SearchFirst, SearchLast, searchValuesMatchRowValues", "sort.go")],
 ["returned positions and errors; frame of the searched table"])

prop("C07", "Merge keeps every key once and fills gaps with table1 taking precedence",
 "Merging two tables with shared sort keys yields a table whose columns are the union of both tables' columns (key columns first), sorted by the keys, with exactly one row for every distinct key value occurring in either input. "
 "Each non-key cell is the first non-missing value among the matching rows, table1's before table2's, where the type's zero value counts as missing, NaN as more missing than zero, and a cell absent from its table as NaN for floats and zero otherwise. "
 "Merging tables with no common key values, or with an empty table, follows the same rule, and the merge changes no row or cell of the inputs (at most a table without sort keys takes those of the other).",
 ["inputs"], "all pairs of tables over all column types with any overlap of keys (none, some, all), duplicates, NaN and zero cells, reversed keys, empty inputs (keys that are NaN excluded)",
 "The example test merges two fixed tables; disjoint key sets, empty inputs, duplicated keys and the six zero/NaN combinations for each type are not covered.",
 ["merge.go", "sort.go"],
 [("Merge, copyTableCells, AppendColsFromTable, SetSortKeysFromTable", "merge.go, gotables.go, sort.go")],
 ["the merged table and both inputs after the call"])

prop("C08", "SortUnique returns one row per key with gaps filled",
 "SortUnique on a table returns a new table, sorted by the given keys, containing exactly one row for every distinct key value and the same set of columns, where each non-key cell is a non-missing value taken from the rows with that key whenever one exists (zero counts as missing, NaN as more missing than zero). "
 "Tables without duplicates keep all their rows and cells; an empty table gives an empty table.",
 ["inputs"], "all tables over all column types, with any number of duplicates per key, all key lists (keys that are NaN excluded)",
 "The two existing examples use one fixed table each.",
 ["sort.go", "merge.go"],
 [("SortUnique", "sort.go"), ("Merge", "merge.go")],
 ["the returned table, and the receiver's content"])

prop("C09", "Copies and extracts are faithful and independent of their source",
 "Copying a table or a table set, copying its columns, extracting a range of rows or the rows matching a search, and appending another table's rows or columns transfer exactly the requested names, types, rows and cell values, in order. "
 "The result shares no rows with its source: any later call that changes one of them leaves the other as it was. "
 "Copy keeps the very tables nested in cells, CopyDeep replaces them by independent copies at every level, and both refuse a table in whose nesting some table occurs twice.",
 ["histories", "inputs"], "all tables and table sets, all row ranges, all later sequences of mutations of either side",
 "Tests compare a copy right after copying; shared row storage only shows when source and copy are both mutated afterwards.",
 ["gotables.go", "tree.go", "sort.go"],
 [("Table.Copy, TableSet.Copy, CopyCols, NewTableFromRows, NewTableFromRowsBySearchRange, AppendRowsFromTable, AppendColsFromTable, NewTableReorderCols", "gotables.go"), ("CopyDeep", "tree.go")],
 ["all live tables, compared after every call"])

prop("C10", "Text output parses back to the same table",
 "For every valid table and table set whose cells have a text form (of nested tables only the name has one), parsing the padded or the unpadded text, or the file written from it, yields the same name, column names and types, rows, cell values and tabular-or-struct shape. "
 "Numbers keep their exact value (64-bit integers and floats included), strings and runes their exact characters, times their instant to the nanosecond, byte slices their bytes, and writing the parsed table again gives the same text.",
 ["inputs"], "all tables and sets over all column types, all representable cell values (any valid string, any valid rune, extreme integers, subnormal floats, NaN, infinities), zero rows, zero columns, tabular and struct shape",
 "Tests parse about two dozen literals; integers above 2^53, strings with quotes, backslashes, control characters or newlines, and times with short fractions were never round-tripped in every layout.",
 ["gotables.go", "parser.go"],
 [("String, StringPadded, StringUnpadded, printMatrix, printStruct, WriteFile", "gotables.go"), ("parseString, parseFile, getRowSlice", "parser.go")],
 ["tables obtained from NewTable(Set)FromString/FromFile of the output"])

prop("C11", "JSON output is valid JSON and decodes back to the same table",
 "For every valid table and table set, including tables nested in cells at any depth, the JSON produced (compact or indented) is syntactically valid and decodes to the same names, column names and types, shape, rows and cell values at every level (sort keys are not kept). "
 "64-bit integers, finite floats, any valid UTF-8 string and any valid rune keep their exact value. "
 "What JSON cannot carry, namely NaN, infinities and a nesting in which some table occurs twice, is refused with an error, never written differently.",
 ["inputs"], "all tables and sets over all column types, extreme values, every string content, zero rows or columns, nested tables to any depth",
 "Round-trip tests use small numbers and plain ASCII strings; digits beyond 2^53 and control characters are lost or rejected only for specific values.",
 ["json.go"],
 [("getTableAsJSON_recursive, GetTableSetAsJSON, GetTableAsJSONIndent", "json.go"), ("newTableFromJSON_recursive, NewTableSetFromJSON", "json.go")],
 ["tables obtained by decoding the output; encoding/json validity of the output"])

prop("C12", "YAML output decodes back to the same table set",
 "For every valid table set, including tables nested in cells at any depth, the YAML produced decodes to a table set with the same set name, table names, column names and types, shape, rows and cell values at every level, NaN and infinities included (sort keys and the sign of zero are not kept). "
 "A nesting in which some table occurs twice is refused with an error.",
 ["inputs"], "all table sets over all column types, extreme values (whole-number floats, full uint64 range, strings that look like other YAML types), zero rows or columns, nested tables",
 "The single YAML test round-trips one document; whole-number floats, large unsigned integers and look-alike strings each take a different decoder branch.",
 ["yaml.go"],
 [("GetTableSetAsYAML, GetTableSetAsMap, getTableAsMap", "yaml.go"), ("NewTableSetFromYAML, newTableFromYAML_recursive", "yaml.go")],
 ["tables obtained by decoding the output"])

prop("C13", "GOB encoding decodes back to the same table with its sort keys",
 "For every valid table and table set without nested-table and time cells, encoding to gob and decoding yields the same names, column names and types, shape, rows, cell values and sort keys, for a set also its set and file name, and the decoded table is a valid table. "
 "A table whose rows gob cannot carry is refused with an error, never written so that it cannot be read back.",
 ["inputs", "histories"], "all tables and sets over the gob-supported column types, all values, with and without sort keys, zero rows or columns, after any history",
 "The gob examples encode tables without sort keys and with plain values.",
 ["gob.go"],
 [("exportTable, importTable, GobEncode, NewTableFromGob, NewTableSetFromGob", "gob.go")],
 ["tables obtained by decoding the buffers"])

prop("C14", "The parser accepts exactly the documented notation, with exact values",
 "A document made of well-formed tables in the documented notation (tabular or struct shape, blank-line separation, comment and blank lines, decimal, binary, octal and hexadecimal integers, quoted strings with escapes, runes, byte slices, times, NaN and infinities) parses to exactly the tables it describes. "
 "A document with a wrong number of values, duplicate column or table names, unknown types, malformed names or literals, or a number outside its column type's range is rejected with an error, never altered silently and never accepted with a wrapped or truncated value.",
 ["inputs"], "all sequences of document lines up to any length, all integer literals around each type's limits in each base, all malformed variants",
 "The parser tests hold about 50 documents; line-order and range combinations per type and base are not enumerated.",
 ["parser.go"],
 [("parseString state machine, getTableShape, getRowSlice, regular expressions per type, parseInt, parseUint, parseRune", "parser.go")],
 ["the returned table set or error"])

prop("C15", "Decoders answer every input with a valid table or an error, never a panic",
 "Given any text, JSON, YAML or gob input, however malformed or truncated, every decoder returns either an error or a table (set) that passes the validity checks; it never panics, hangs or ends the process.",
 ["inputs", "fault_sequences"], "all byte strings, in particular truncations, deletions, duplications and type-swapped edits of valid documents",
 "Tests decode a few invalid documents for text and none of the structural faults for JSON, YAML and gob.",
 ["parser.go", "json.go", "yaml.go", "gob.go"],
 [("unchecked type assertions and index accesses must be guarded", "json.go newTableFromJSON_recursive, yaml.go newTableFromYAML_recursive and isValidYAML, gob.go GobDecodeTableSet, parser.go parseString")],
 ["outcome class (ok, error, panic, hang) and IsValidTable(Set) of the result"])

prop("C16", "A table set holds uniquely named tables in insertion order",
 "After any sequence of set operations a table set contains exactly the tables appended and not deleted, in insertion order, and the set operations keep its table names unique; lookup by name, by position and index-of-name agree. "
 "Appending a nil table or a duplicate name, renaming onto an existing name, and any operation naming a table or position that is not there is refused with an error and changes nothing.",
 ["histories", "inputs"], "all sequences of append, delete, rename, lookup and copy calls over any number of tables",
 "Tests delete and rename in one or two fixed sets.",
 ["gotables.go"],
 [("AppendTable, DeleteTable(ByTableIndex), RenameTable, HasTable, GetTable(ByTableIndex), TableIndex, TableCount", "gotables.go")],
 ["the projected set after every call"],
 [("tableSet.tables", "ordered list of table pointers", "gotables.go type TableSet")])

prop("C17", "Nested tables: cycles are detected and walking visits every cell once",
 "Walking a table or table set visits every table reachable through nested cells, every row and every cell exactly once in parent-before-child, row and column order, reporting each cell's actual position, type and value, and stops at the first error a visitor returns. "
 "A nesting in which some table occurs twice, at worst inside itself, is reported as a circular reference by the circularity and nesting checks, by walking, and by the JSON and YAML encoders, which return an error instead of recursing; a nesting in which no table occurs twice is never reported. "
 "Setting a nested table stores that very table, and the SetTable setters record its parent.",
 ["inputs", "histories"], "all graphs of nested tables (trees, shared children, self-loops and longer cycles) at any depth",
 "Tests build one cycle and a few trees of depth two or three.",
 ["tree.go", "json.go", "gotables.go", "errors.go"],
 [("Walk, GetCellInfoByColIndex, IsValidTableNesting, HasCircularReference", "tree.go"), ("circRefMap in JSON recursion", "json.go"), ("SetTable, ParentTable", "helpers.go, gotables.go")],
 ["visitor call sequence; results of the checks and encoders"])

prop("C18", "Equality holds exactly when two tables have the same content",
 "Comparing two tables, or two table sets, reports equal if and only if they have the same table names, the same column names with the same types (in any column order), the same number of rows, and equal cell values row by row, nested tables and byte slices being compared by content. "
 "The comparison is reflexive (except for NaN) and symmetric, explains every inequality, ends with an error for tables nested in themselves, and any single difference in a name, type, row count or cell is detected.",
 ["inputs"], "all pairs of tables and sets, in particular pairs that differ in exactly one place, in column order only, or in a nested table",
 "The equality test compares a few fixed pairs.",
 ["gotables.go"],
 [("Table.Equals, TableSet.Equals, Uint8SliceEquals", "gotables.go")],
 ["the returned boolean and error"])

prop("C19", "Failed calls change nothing; misuse returns errors, not panics",
 "A call that returns an error leaves every table and table set exactly as it was, unless its documentation says otherwise. "
 "Calls on a nil table or set, and calls with out-of-range positions, unknown names, invalid names or types, or values of the wrong type, return an error (or the documented neutral value) and never panic, except for the variants documented to panic.",
 ["inputs", "histories"], "all calls with invalid arguments, in every reachable state, and all calls on nil receivers",
 "Tests check that an error is returned but never that the table is unchanged afterwards, and only some methods with a nil receiver.",
 ["gotables.go", "helpers.go", "sort.go", "tree.go"],
 [("argument checks at the head of each method", "gotables.go, helpers.go, sort.go, merge.go, nest.go, tree.go")],
 ["outcome and the full projected state after each failing call"])

prop("C20", "Reading, printing, encoding, comparing and searching never modify data",
 "Getters, lookups, validity checks, printing, encoding to any format, comparison, walking with read-only visitors, searching and copying leave every table and table set, including nested tables, parents and sort keys, exactly as they were, and repeating such a call gives the same answer. "
 "This holds for all tables, not only those given to the call, and also when the call fails.",
 ["histories", "inputs"], "all read-only calls in every reachable state",
 "Tests look at the result of a read, never at the receiver afterwards.",
 ["gotables.go", "json.go", "yaml.go", "gob.go", "sort.go", "tree.go"],
 [("encoders build from rows without writing", "gotables.go _String, StringNested; json.go; yaml.go getTableAsMap; gob.go exportTable")],
 ["the full projected state before and after each call"])

prop("C21", "Nest puts each child row under exactly the parent rows with its key",
 "Nesting a table into another by shared key columns gives every parent row a nested table holding exactly the rows of the other table whose key values equal that row's, with all of its columns, in key order; a row without matching rows gets a table with those columns and no rows. "
 "The keys are those of the parent table, or else of the nestable, and both tables end up sorted by them with all their rows and cells otherwise kept. "
 "What cannot be nested (no shared keys, different key types, an invalid or existing column name) is refused with an error that changes nothing.",
 ["inputs"], "all pairs of tables sharing key columns, with zero, one or several matching rows per parent row",
 "No stable test nests tables with absent, repeated or reversed keys.",
 ["nest.go"],
 [("Nest", "nest.go"), ("NewTableFromRowsBySearchRange, SearchRange", "gotables.go, sort.go")],
 ["the parent, its nested tables, and the nestable table after the call"])

prop("C22", "CSV and string exports carry exactly the table's cells",
 "CSV output read back by a standard CSV reader has the (optionally substituted) headings followed by one record per row whose fields are the cells' values in column order (NaN being an empty field, a nested table its name in brackets). "
 "Reading a cell or a column as strings, and joining a column's values, give those same values in row order.",
 ["inputs"], "all tables over the printable column types, with strings containing quotes, commas and newlines, any heading substitution",
 "One CSV example and one join example with plain values.",
 ["gotables.go"],
 [("GetTableAsCSV, GetValAsString(ByColIndex), GetColValsAsStrings, JoinColVals(ByColIndex)", "gotables.go")],
 ["the returned strings, parsed back"])

prop("C23", "Generated Go source compiles and carries a table there and back unchanged",
 "The Go type generated from a table has one field per column, with the column's name and Go type, and it compiles together with the generated functions that convert a table to a slice of that struct and back. "
 "Converting a table to the slice gives one element per row holding the row's cells, and converting the slice back gives a table with the same name, columns, rows and cells (sort keys are not kept).",
 ["inputs"], "all tables over all column types, with any number of rows, whose names are not words of the Go language or of the generated functions",
 "No stable test compiles or runs the generated source.",
 ["generate.go"],
 [("GenerateTypeStruct, GenerateTypeStructSliceFromTable, GenerateTypeStructSliceToTable", "generate.go")],
 ["the generated source, compiled and run on the table it was generated from"])

prop("C24", "JSON, YAML and GOB documents are taken exactly or refused",
 "A JSON, YAML or GOB document from any source which a decoder accepts is taken exactly: the same tables, names, columns, sort keys and rows, every cell in the column it is given under with the value it has in the document. "
 "What cannot be so taken (a number out of the range of its column's type or with a fraction in an integer column, a value of another type, an unknown column, a missing part, text after the document) is refused with an error, never dropped, moved, wrapped or rounded; only cells left out at the end of a row are zero values. "
 "A decoder never answers with neither a table (set) nor an error.",
 ["inputs", "fault_sequences"], "all documents, in particular structural edits of written documents and numbers at and around the limits of every type in every notation",
 "Tests decode documents the package wrote, and a few refused ones.",
 ["json.go", "yaml.go", "gob.go"],
 [("newTableFromJSON_recursive, NewTableSetFromJSON, NewTableFromJSONByTableName", "json.go"), ("newTableFromYAML_recursive, NewTableSetFromYAML", "yaml.go"), ("GobDecodeTable, NewTableSetFromGob", "gob.go")],
 ["the decoded tables against an independent reading of the same document"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")

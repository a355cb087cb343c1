package main

var scalarTypes = []string{"[]byte", "[]uint8", "bool", "byte", "float32", "float64", "int", "int16", "int32", "int64", "int8", "rune", "string",
	"time.Time", "uint", "uint16", "uint32", "uint64", "uint8"}
var sortTypes = []string{"bool", "float32", "float64", "uint", "int", "int16", "int32", "int64", "int8", "string", "string", "uint16", "uint32", "uint64", "uint8"}

var gobTypes = append(append([]string{}, sortTypes...), "byte", "rune", "[]byte", "[]uint8", "time.Time")

func weights(pairs ...interface{}) map[string]int {
	m := map[string]int{}
	w := 1
	for _, p := range pairs {
		switch x := p.(type) {
		case int:
			w = x
		case string:
			m[x] = w
		case []string:
			for _, s := range x {
				m[s] = w
			}
		}
	}
	return m
}

var rowOps = []string{"AppendRow", "AppendRows", "DeleteRow", "DeleteRows", "Reverse", "ShuffleRandom", "ShufflePseudorandom"}
var colOps = []string{"AppendCol", "DeleteCol", "DeleteColByColIndex", "RenameCol", "RenameColByColIndex", "ReorderCols", "ReorderColsByColIndex",
	"NewTableReorderCols", "NewTableReorderColsByColIndex", "SwapCols", "SwapColsByColIndex", "OrderColsBySortKeys"}
var cellOps = []string{"SetVal", "SetValByColIndex", "SetTyped", "SetCellToZeroValue", "SetCellToZeroValueByColIndex", "SetRowCellsToZeroValue",
	"SetColCellsToZeroValue", "SetColCellsToZeroValueByColIndex", "SetAllFloatCellsToNaN", "SetColFloatCellsToNaN", "SetColFloatCellsToNaNByColIndex", "SetRowFloatCellsToNaN",
	"SetFloatCellToNaN", "SetFloatCellToNaNByColIndex"}
var readOps = []string{"GetTyped", "GetVal", "ReadAll"}
var lookupOps = []string{"ColCount", "RowCount", "Name", "SortKeyCount", "IsNilTable", "IsStructShape", "IsValidTable", "HasCol", "HasColByColIndex", "HasRow", "HasCell", "HasCellByColIndex",
	"ColIndex", "ColName", "ColNameByColIndex", "ColType", "ColTypeByColIndex", "IsTableCol", "IsTableColByColIndex", "IsColType", "IsColTypeByColIndex", "IsValidRow", "IsValidColValue", "IsValidCellValue",
	"IsSortKey", "GetCellInfo", "GetCellInfoByColIndex", "RowByRowIndex", "ParentTable", "GetColInfoAsSlices", "GetColInfoAsTable", "GetSortKeysAsTable"}
var pkgOps = []string{"IsValidColName", "IsValidTableName", "IsValidColType", "IsNumericColType", "IsSliceColType", "IsTableColType", "Uint8SliceEquals", "TypesList"}
var keyOps = []string{"SetSortKeys", "SetSortKeysReverse", "AppendSortKey", "DeleteSortKey", "SetSortKeysFromTable", "Sort", "SortSimple"}
var searchOps = []string{"Search", "SearchFirst", "SearchLast", "SearchRange"}
var copyOps = []string{"Copy", "CopyCols", "NewTableFromRows", "NewTableFromRowsBySearchRange", "AppendRowsFromTable", "AppendColsFromTable", "CopyDeep"}
var setOps = []string{"NewTableSet", "Append", "AppendTable", "DeleteTable", "DeleteTableByTableIndex", "SetGetTable", "SetGetTableByTableIndex", "SetHasTable", "SetTableIndex",
	"SetTableCount", "SetGetName", "SetFileNameGet", "IsValidTableSet", "SetRenameTable", "SetSetName", "SetSetFileName", "SetCopy", "SetEquals", "SetWalk"}

var makeOps = []string{"Build", "NewTable", "NewTableFromMetadata", "SetName", "SetStructShape"}
var allTabOps = [][]string{rowOps, colOps, cellOps, readOps, lookupOps, pkgOps, keyOps, searchOps, copyOps, makeOps}

var profiles = map[string]*Profile{
	"core": {w: weights(3, rowOps, 3, colOps, 2, cellOps, 2, readOps, 1, lookupOps, 1, pkgOps, 2, keyOps, "CompareRows", 1, searchOps, 1, copyOps, 1, "Equals", "Build", "NewTable", "NewNilTable", "NewTableFromMetadata",
		"SetName", "RenameTable", "SetStructShape", "DeleteRowsAll", "Merge", "SortUnique"), types: allTypes, nTypes: 3, maxRows: 6, maxCols: 4, sub: 2, misuse: 15, maxTabs: 8, segLen: 50},
	"cells": {w: weights(6, cellOps, 30, "SetTyped", "GetTyped", 10, "GetVal", "ReadAll", 1, rowOps, colOps, makeOps, keyOps, "Copy", "CopyDeep", "AppendRowsFromTable"),
		types: allTypes, nTypes: 4, maxRows: 5, maxCols: 5, misuse: 10, maxTabs: 6, segLen: 60},
	"rows": {w: weights(12, rowOps, 1, "DeleteRowsAll", 4, "ReadAll", 1, cellOps, colOps, makeOps, keyOps, "CopyDeep", "Copy", "AppendRowsFromTable", "NewTableFromRows", "HasRow", "RowCount", "IsValidRow"),
		types: allTypes, nTypes: 3, maxRows: 9, maxCols: 3, sub: 3, misuse: 12, maxTabs: 6, segLen: 60},
	"cols": {w: weights(8, colOps, 3, "ReadAll", "GetTyped", 2, keyOps, 1, cellOps, makeOps, rowOps, "Copy", "CopyCols", "AppendColsFromTable", lookupOps, searchOps),
		types: allTypes, nTypes: 4, maxRows: 4, maxCols: 6, sub: 3, misuse: 12, maxTabs: 6, segLen: 60},
	"sort": {w: weights(8, keyOps, 10, "Sort", "SetSortKeysReverse", "CompareRows", 4, "SetVal", "SortSimple", 2, "AppendRowsFromTable", "Build", "RenameCol", "DeleteCol", "SwapCols", "OrderColsBySortKeys", "GetSortKeysAsTable", "IsSortKey", "SortKeyCount",
		"ShuffleRandom", 1, rowOps, "SetTyped"), types: sortTypes, nTypes: 3, maxRows: 8, maxCols: 4, sub: 2, misuse: 10, maxTabs: 5, segLen: 60, bigRows: 30},
	"search": {w: weights(14, searchOps, 8, "SetSortKeys", "Sort", 5, "SetSortKeysReverse", "Build", "PredSearchFirst", "PredSearchLast", "NewTableFromRowsBySearchRange", 2, "SetVal", "Reverse", "AppendRow", "DeleteRow", "RenameCol", "AppendSortKey"),
		types: sortTypes, nTypes: 2, maxRows: 9, maxCols: 3, sub: 2, misuse: 8, maxTabs: 4, segLen: 60, noNaN: true, bigRows: 40},
	"merge": {w: weights(20, "Merge", 8, "SetSortKeys", "Build", 5, "SetSortKeysReverse", "SetVal", "AppendRow", 2, "DeleteRow", "Sort", "AppendRowsFromTable", "ReorderCols", "SetCellToZeroValue", "SetColFloatCellsToNaN", "SetRowFloatCellsToNaN", "DeleteCol", "AppendCol", "RenameCol", "DeleteRowsAll"),
		types: append(append([]string{}, sortTypes...), "byte", "rune", "[]byte", "time.Time", "*Table"), nTypes: 3, maxRows: 6, maxCols: 4, sub: 2, misuse: 5, maxTabs: 9, segLen: 45},
	"unique": {w: weights(20, "SortUnique", 6, "SetSortKeys", "Build", 4, "SetSortKeysReverse", "SetVal", "AppendRowsFromTable", 2, "DeleteRow", "Sort", "ReorderCols", "SetCellToZeroValue", "SetColFloatCellsToNaN", "SetRowFloatCellsToNaN", "Copy", "DeleteRowsAll", "SetName"),
		types: append(append([]string{}, sortTypes...), "byte", "rune", "[]byte", "time.Time", "*Table"), nTypes: 3, maxRows: 8, maxCols: 4, sub: 2, misuse: 5, maxTabs: 9, segLen: 45},
	"copy": {w: weights(12, copyOps, 6, "NewTableReorderCols", "NewTableReorderColsByColIndex", 3, "Sort", "SetSortKeys", "SetVal", "SetTyped", "Merge", "SortUnique", "SetName", 2, rowOps, colOps, cellOps, makeOps),
		types: allTypes, nTypes: 3, maxRows: 5, maxCols: 4, sub: 3, misuse: 7, maxTabs: 9, segLen: 50},
	"equals": {w: weights(1, "~deep", 30, "Equals", 12, "~near", 8, "SetEquals", 2, "NewTableSet", "SetCopy", "AppendTable", "DeleteTable", 5, "Copy", "CopyDeep", 4, "SetVal", "ReorderCols", "SetTyped", "Build", 2, "RenameCol", "AppendRow", "DeleteRow", "SwapCols", "SetName", "AppendRowsFromTable", "Reverse", "SetCellToZeroValue", "DeleteCol", "AppendCol", "NewNilTable"),
		types: allTypes, nTypes: 3, maxRows: 3, maxCols: 3, sub: 2, misuse: 4, maxTabs: 8, segLen: 60},
	"misuse": {w: weights(3, rowOps, colOps, cellOps, readOps, lookupOps, pkgOps, keyOps, searchOps, copyOps, makeOps, 5, "Merge", "SortUnique", "CompareRows", "Equals", "Sort", "NewNilTable", "PredSearchLast", 2, setOps, "HasCircularReference", "IsValidTableNesting", "Walk"),
		types: allTypes, nTypes: 4, maxRows: 3, maxCols: 3, sub: 3, misuse: 45, maxTabs: 7, segLen: 60},
	"pure": {w: weights(3, lookupOps, pkgOps, readOps, searchOps, copyOps, 8, "Equals", "CompareRows", "Copy", "CopyDeep", "SearchRange", 3, "Walk", "SetWalk", "StringNested", "HasCircularReference", "IsValidTableNesting", "NestSet", 2, setOps, "TextRT", "JsonRT", "GobRT", "SetTextRT", "SetJsonRT", "SetYamlRT", "SetGobRT", "CsvOut", "ColStrings", "GenSrc", 1, rowOps, colOps, cellOps, keyOps, makeOps),
		types: allTypes, nTypes: 4, maxRows: 4, maxCols: 4, sub: 3, misuse: 10, withSet: true, maxTabs: 7, segLen: 60},
	"sets": {w: weights(6, setOps, 14, "AppendTable", 8, "SetRenameTable", "SetGetTable", "SetTableIndex", 2, "NewTableSet", "DeleteTable", "DeleteTableByTableIndex", "SetCopy", "SetName", "RenameTable", "Build", "NewNilTable", "NewTable", "Copy", "SetVal", "AppendRow", "SetTyped"),
		types: allTypes, nTypes: 3, maxRows: 2, maxCols: 3, sub: 2, misuse: 7, maxTabs: 9, segLen: 70},
	"nesting": {w: weights(1, "~deep", 14, "NestSet", "Walk", 8, "HasCircularReference", "IsValidTableNesting", "SetWalk", 5, "JsonRT", "SetJsonRT", "SetYamlRT", 4, "AppendTable", "CopyDeep", "Copy", "IsValidTable", "ParentTable", 2, "NewTableSet", "SetVal", "SetName", "AppendRow", "DeleteRow", "AppendCol", "SwapCols", "DeleteCol",
		"AppendRowsFromTable", "NewTreeTable", "Equals", "GetCellInfo", "RowByRowIndex", "SetCellToZeroValue", "Reverse", "NewNilTable", "Build", "SetEquals", "IsTableCol"),
		types: []string{"*Table", "*Table", "int", "string"}, nTypes: 0, maxRows: 3, maxCols: 3, sub: 2, misuse: 3, maxTabs: 9, segLen: 60},
	"nest": {w: weights(30, "~nest", 12, "Nest", 8, "SetSortKeys", "Build", 4, "SetSortKeysReverse", "SetVal", "AppendRowsFromTable", 2, "DeleteRow", "Sort", "ReorderCols", "SwapCols", "SetCellToZeroValue", "Copy", "DeleteRowsAll", "SetName", "RenameCol", "AppendCol", "DeleteCol", "SetTyped"),
		types: append(append([]string{}, sortTypes...), "byte", "rune", "[]byte", "time.Time", "*Table"), nTypes: 3, maxRows: 6, maxCols: 4, sub: 2, misuse: 5, maxTabs: 10, segLen: 30, bigRows: 14},
	"export": {w: weights(16, "CsvOut", 10, "ValString", "ColStrings", "JoinCol", 3, "Build", "SetVal", 2, "SetTyped", "SetStructShape", "SetName", "AppendRow", "AppendCol", "DeleteCol", "DeleteRow", "SwapCols", "SetSortKeys", "Sort", "SetColFloatCellsToNaN", "NewNilTable", "NestSet", "Reverse"),
		types: allTypes, nTypes: 0, maxRows: 5, maxCols: 5, misuse: 5, maxTabs: 8, segLen: 40, pool: 60, bigRows: 12},
	"gen": {w: weights(6, "~gen", "Build", 3, "AppendCol", "SetVal", "SetTyped", 2, "AppendRow", "SetName", "DeleteCol", "DeleteRowsAll", "SetStructShape", "SetSortKeys", "NestSet", "ReorderCols", 1, "GenSrc", "NewNilTable", "Copy", "DeleteRow"),
		types: allTypes, nTypes: 0, maxRows: 4, maxCols: 8, misuse: 3, maxTabs: 6, segLen: 25, tail: genTail},
	"fault": {w: weights(70, "Fault", 3, "Build", 1, "AppendTable", "SetVal", "SetSortKeys", "NestSet", "NewNilTable"),
		types: allTypes, nTypes: 0, maxRows: 3, maxCols: 5, misuse: 0, maxTabs: 5, segLen: 14, withSet: true, pool: 40},
	"faith": {w: weights(70, "FaultDoc", 3, "Build", 1, "AppendTable", "SetVal", "SetSortKeys", "NestSet", "NewNilTable", "AppendRow", "SetStructShape"),
		types: allTypes, nTypes: 0, maxRows: 3, maxCols: 5, misuse: 0, maxTabs: 5, segLen: 14, withSet: true, pool: 40},
	"doc": {w: weights(10, "ParseDoc"), types: allTypes, nTypes: 0, maxRows: 1, maxCols: 1, misuse: 0, maxTabs: 8, segLen: 20, pool: 60},
	"text": {w: weights(24, "TextRT", 14, "SetTextRT", 6, "SetPick", 4, "NewTableSet", "AppendTable", 2, "DeleteTableByTableIndex", "SetRenameTable", "SetSetName", "SetSetFileName", "Build", "NewNilTable", 2, "SetName", "RenameTable", "SetStructShape", "SetVal", "AppendRow", "DeleteRow", "AppendCol", "DeleteCol", "SwapCols", "SetSortKeys", "SetSortKeysReverse", "NestSet", "SetCellToZeroValue", "SetTyped"),
		types: allTypes, nTypes: 0, maxRows: 4, maxCols: 6, misuse: 3, maxTabs: 10, segLen: 26, withSet: true, pool: 60, bigRows: 12},
	"json": {w: weights(1, "~deep", 24, "JsonRT", 18, "SetJsonRT", 4, "NewTableSet", "AppendTable", 2, "DeleteTableByTableIndex", "SetRenameTable", "SetSetName", "SetSetFileName", "Build", "NewNilTable", 2, "SetName", "RenameTable", "SetStructShape", "SetVal", "AppendRow", "DeleteRow", "AppendCol", "DeleteCol", "SwapCols", "SetSortKeys", "SetSortKeysReverse", "NestSet", "SetCellToZeroValue", "SetTyped"),
		types: allTypes, nTypes: 0, maxRows: 4, maxCols: 6, misuse: 3, maxTabs: 10, segLen: 26, withSet: true, pool: 60, finite: true, bigRows: 12},
	"yaml": {w: weights(36, "SetYamlRT", 4, "NewTableSet", "AppendTable", 2, "DeleteTableByTableIndex", "SetRenameTable", "SetSetName", "SetSetFileName", "Build", "NewNilTable", 2, "SetName", "RenameTable", "SetStructShape", "SetVal", "AppendRow", "DeleteRow", "AppendCol", "DeleteCol", "SwapCols", "SetSortKeys", "SetSortKeysReverse", "NestSet", "SetCellToZeroValue", "SetTyped"),
		types: allTypes, nTypes: 0, maxRows: 4, maxCols: 6, misuse: 3, maxTabs: 10, segLen: 26, withSet: true, pool: 60, bigRows: 12},
	"gob": {w: weights(24, "GobRT", 16, "SetGobRT", 4, "NewTableSet", "AppendTable", 2, "DeleteTableByTableIndex", "SetRenameTable", "SetSetName", "SetSetFileName", "Build", "NewNilTable", 2, "SetName", "RenameTable", "SetStructShape", "SetVal", "AppendRow", "DeleteRow", "AppendCol", "DeleteCol", "SwapCols", "SetSortKeys", "SetSortKeysReverse", "NestSet", "SetCellToZeroValue", "SetTyped"),
		types: gobTypes, nTypes: 0, maxRows: 4, maxCols: 6, misuse: 3, maxTabs: 10, segLen: 26, withSet: true, pool: 60, bigRows: 12},
}

From feca819261a43c6c4891b990f66c660972f0a1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 01/70] fix: SwapCols and SwapColsByColIndex move the cells
 with their columns

---
 sort.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sort.go b/sort.go
index 4f107b4..a6bb2b7 100644
--- a/sort.go
+++ b/sort.go
@@ -952,6 +952,11 @@ func (table *Table) SwapColsByColIndex(colIndex1 int, colIndex2 int) error {
 
 	table.colNamesMap[colName1], table.colNamesMap[colName2] = table.colNamesMap[colName2], table.colNamesMap[colName1]
 
+	// The cells move with their cols.
+	for _, row := range table.rows {
+		row[colIndex1], row[colIndex2] = row[colIndex2], row[colIndex1]
+	}
+
 	return nil
 }
 
@@ -987,6 +992,11 @@ func (table *Table) SwapCols(colName1 string, colName2 string) error {
 
 	table.colNamesMap[colName1], table.colNamesMap[colName2] = table.colNamesMap[colName2], table.colNamesMap[colName1]
 
+	// The cells move with their cols.
+	for _, row := range table.rows {
+		row[col1], row[col2] = row[col2], row[col1]
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 64c9d0ba3c909947bf98ceb9691165413729db8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 02/70] fix: RenameCol renames the column in the sort keys that
 refer to it

---
 gotables.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gotables.go b/gotables.go
index a47e0fe..9f8f58e 100644
--- a/gotables.go
+++ b/gotables.go
@@ -2655,6 +2655,13 @@ func (table *Table) RenameCol(oldName string, newName string) error {
 	delete(table.colNamesMap, oldName)    // Delete the old one.
 	table.colNamesMap[newName] = colIndex // Add the new one.
 
+	// Rename col in any sort keys that refer to it.
+	for keyIndex := range table.sortKeys {
+		if table.sortKeys[keyIndex].colName == oldName {
+			table.sortKeys[keyIndex].colName = newName
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From bd88dfe64d836e4b04210fa37c69b8d992d28782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 03/70] fix: DeleteCol deletes the sort keys of the deleted
 column

---
 gotables.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gotables.go b/gotables.go
index 9f8f58e..5f24d67 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1875,6 +1875,13 @@ func (table *Table) DeleteColByColIndex(colIndex int) error {
 		//		if isValidRow, err := table.IsValidRow(rowIndex); !isValidRow { where(fmt.Sprintf("%s\n", err)) }
 	}
 
+	// Delete any sort keys that refer to the deleted col.
+	for keyIndex := len(table.sortKeys) - 1; keyIndex >= 0; keyIndex-- {
+		if table.sortKeys[keyIndex].colName == colName {
+			table.sortKeys = append(table.sortKeys[:keyIndex], table.sortKeys[keyIndex+1:]...)
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 20e79f8aa894e1cc82aca054bdb0c3cb46bddd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 04/70] fix: OrderColsBySortKeys accepts a column listed twice
 in the sort keys

---
 sort.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sort.go b/sort.go
index a6bb2b7..6142b59 100644
--- a/sort.go
+++ b/sort.go
@@ -862,13 +862,19 @@ func (table *Table) OrderColsBySortKeys() error {
 	// Populate new order ...
 
 	// First slots with key col names.
+	// A col which is listed more than once in the sort keys takes its first position.
+	row := 0
+	var placed map[string]bool = make(map[string]bool)
 	for key = 0; key < table.SortKeyCount(); key++ {
 		keyName := table.sortKeys[key].colName
-		newOrder[key] = keyName
+		if !placed[keyName] {
+			placed[keyName] = true
+			newOrder[row] = keyName
+			row++
+		}
 	}
 
 	// Subsequent slots with non-key col names.
-	row := table.SortKeyCount()
 	for col := 0; col < table.ColCount(); col++ {
 		colName := table.colNames[col]
 		var isSortKey bool
-- 
2.43.0


From 6b86dbb6bba28f6afcaabf4f66dee2a10d2829ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 05/70] fix: zero-value and NaN setters report cells and rows
 that do not exist

---
 gotables.go | 4 ++++
 helpers.go  | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/gotables.go b/gotables.go
index 5f24d67..18421b1 100644
--- a/gotables.go
+++ b/gotables.go
@@ -773,6 +773,10 @@ func (table *Table) SetRowFloatCellsToNaN(rowIndex int) error {
 		return fmt.Errorf("%s table.%s table is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
+	if hasRow, err := table.HasRow(rowIndex); !hasRow {
+		return err
+	}
+
 	var err error
 	var colType string
 	for colIndex := 0; colIndex < table.ColCount(); colIndex++ {
diff --git a/helpers.go b/helpers.go
index 83fc552..f433213 100644
--- a/helpers.go
+++ b/helpers.go
@@ -4855,6 +4855,10 @@ func (table *Table) SetCellToZeroValueByColIndex(colIndex int, rowIndex int) err
 		return fmt.Errorf("table.%s: table is <nil>", UtilFuncName())
 	}
 
+	if hasCell, err := table.HasCellByColIndex(colIndex, rowIndex); !hasCell {
+		return err
+	}
+
 	var colType = table.colTypes[colIndex]
 
 	switch colType {
@@ -4937,6 +4941,10 @@ func (table *Table) SetRowCellsToZeroValue(rowIndex int) error {
 		return fmt.Errorf("table.%s: table is an unnamed NilTable. Call table.SetName() to un-Nil it", UtilFuncName())
 	}
 
+	if hasRow, err := table.HasRow(rowIndex); !hasRow {
+		return err
+	}
+
 	for colIndex := 0; colIndex < table.ColCount(); colIndex++ {
 		var colType string = table.colTypes[colIndex]
 		switch colType {
-- 
2.43.0


From 5c4b756f4e7270b6738e0283bce3dbf560cb6b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 06/70] fix: Set<Type>ByColIndex return an error for a column
 that does not exist

---
 helpers.go | 100 ++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 80 insertions(+), 20 deletions(-)

diff --git a/helpers.go b/helpers.go
index f433213..819d756 100644
--- a/helpers.go
+++ b/helpers.go
@@ -969,7 +969,10 @@ func (table *Table) SetByteSliceByColIndex(colIndex int, rowIndex int, newVal []
 			UtilFuncName(), table.Name(), colIndex)
 	}
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1010,7 +1013,10 @@ func (table *Table) SetUint8SliceByColIndex(colIndex int, rowIndex int, newVal [
 			UtilFuncName(), table.Name(), colIndex)
 	}
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1045,7 +1051,10 @@ func (table *Table) SetBoolByColIndex(colIndex int, rowIndex int, newVal bool) e
 
 	const valType string = "bool"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1080,7 +1089,10 @@ func (table *Table) SetByteByColIndex(colIndex int, rowIndex int, newVal byte) e
 
 	const valType string = "byte"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1115,7 +1127,10 @@ func (table *Table) SetFloat32ByColIndex(colIndex int, rowIndex int, newVal floa
 
 	const valType string = "float32"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1150,7 +1165,10 @@ func (table *Table) SetFloat64ByColIndex(colIndex int, rowIndex int, newVal floa
 
 	const valType string = "float64"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1185,7 +1203,10 @@ func (table *Table) SetIntByColIndex(colIndex int, rowIndex int, newVal int) err
 
 	const valType string = "int"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1220,7 +1241,10 @@ func (table *Table) SetInt16ByColIndex(colIndex int, rowIndex int, newVal int16)
 
 	const valType string = "int16"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1255,7 +1279,10 @@ func (table *Table) SetInt32ByColIndex(colIndex int, rowIndex int, newVal int32)
 
 	const valType string = "int32"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1290,7 +1317,10 @@ func (table *Table) SetInt64ByColIndex(colIndex int, rowIndex int, newVal int64)
 
 	const valType string = "int64"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1325,7 +1355,10 @@ func (table *Table) SetInt8ByColIndex(colIndex int, rowIndex int, newVal int8) e
 
 	const valType string = "int8"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1360,7 +1393,10 @@ func (table *Table) SetRuneByColIndex(colIndex int, rowIndex int, newVal rune) e
 
 	const valType string = "rune"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1395,7 +1431,10 @@ func (table *Table) SetStringByColIndex(colIndex int, rowIndex int, newVal strin
 
 	const valType string = "string"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1430,7 +1469,10 @@ func (table *Table) SetUintByColIndex(colIndex int, rowIndex int, newVal uint) e
 
 	const valType string = "uint"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1465,7 +1507,10 @@ func (table *Table) SetUint16ByColIndex(colIndex int, rowIndex int, newVal uint1
 
 	const valType string = "uint16"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1500,7 +1545,10 @@ func (table *Table) SetUint32ByColIndex(colIndex int, rowIndex int, newVal uint3
 
 	const valType string = "uint32"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1535,7 +1583,10 @@ func (table *Table) SetUint64ByColIndex(colIndex int, rowIndex int, newVal uint6
 
 	const valType string = "uint64"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1570,7 +1621,10 @@ func (table *Table) SetUint8ByColIndex(colIndex int, rowIndex int, newVal uint8)
 
 	const valType string = "uint8"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1614,7 +1668,10 @@ func (table *Table) SetTableByColIndex(colIndex int, rowIndex int, newVal *Table
 	// This may help with reporting errors.
 	newVal.parentTable = table
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1649,7 +1706,10 @@ func (table *Table) SetTimeByColIndex(colIndex int, rowIndex int, newVal time.Ti
 
 	const valType string = "time.Time"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
-- 
2.43.0


From 149d2438caf969b433d63c4cf6df93bbcfa9d0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 07/70] fix: SetTable records the parent table only when the
 cell is set

---
 helpers.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/helpers.go b/helpers.go
index 819d756..9914665 100644
--- a/helpers.go
+++ b/helpers.go
@@ -868,9 +868,6 @@ func (table *Table) SetTable(colName string, rowIndex int, newVal *Table) error
 			UtilFuncNameNoParens(), colName, rowIndex, table.Name(), colName)
 	}
 
-	// This may help with reporting errors.
-	newVal.parentTable = table
-
 	colType, err := table.ColType(colName)
 	if err != nil {
 		return err
@@ -894,6 +891,9 @@ func (table *Table) SetTable(colName string, rowIndex int, newVal *Table) error
 		return err
 	}
 
+	// This may help with reporting errors.
+	newVal.parentTable = table
+
 	// Set the newVal
 	// Note: This essentially inlines SetValByColIndex(): an average 30% speedup.
 	table.rows[rowIndex][colIndex] = newVal
@@ -1665,9 +1665,6 @@ func (table *Table) SetTableByColIndex(colIndex int, rowIndex int, newVal *Table
 			UtilFuncNameNoParens(), colIndex, rowIndex, table.Name(), colIndex)
 	}
 
-	// This may help with reporting errors.
-	newVal.parentTable = table
-
 	colType, err := table.ColTypeByColIndex(colIndex)
 	if err != nil {
 		return err
@@ -1686,6 +1683,9 @@ func (table *Table) SetTableByColIndex(colIndex int, rowIndex int, newVal *Table
 		return err
 	}
 
+	// This may help with reporting errors.
+	newVal.parentTable = table
+
 	// Set the newVal
 	// Note: This essentially inlines SetValByColIndex(): an average 5 times speedup.
 	table.rows[rowIndex][colIndex] = newVal
-- 
2.43.0


From 2cf93bd77ae189e27f2d3d9382e601cf83f8be43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 08/70] fix: SetSortKeys and SetSortKeysReverse leave the sort
 keys alone when they fail

---
 sort.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sort.go b/sort.go
index 6142b59..fb98837 100644
--- a/sort.go
+++ b/sort.go
@@ -171,11 +171,14 @@ func (table *Table) SetSortKeys(sortColNames ...string) error {
 		return fmt.Errorf("table.%s table is <nil>", UtilFuncName())
 	}
 
+	var oldSortKeys = table.sortKeys // To reinstate in case there is an error.
+
 	table.sortKeys = newSortKeys() // Replace any existing sort keys.
 
 	for _, colName := range sortColNames {
 		err := table.AppendSortKey(colName)
 		if err != nil {
+			table.sortKeys = oldSortKeys
 			//			errSortKey := errors.New(fmt.Sprintf("SetSortKeys(%v): %v\n", sortColNames, err))
 			errSortKey := fmt.Errorf("SetSortKeys(%v): %v", sortColNames, err)
 			return errSortKey
@@ -197,9 +200,12 @@ func (table *Table) SetSortKeysReverse(reverseSortColNames ...string) error {
 		return fmt.Errorf("table.%s table is <nil>", UtilFuncName())
 	}
 
+	var oldSortKeys = append(newSortKeys(), table.sortKeys...) // To reinstate in case there is an error.
+
 	for _, colName := range reverseSortColNames {
 		err := table.setSortKeyReverse(colName)
 		if err != nil {
+			table.sortKeys = oldSortKeys
 			errSortKey := fmt.Errorf("SetSortKeysReverse(%v): %v", reverseSortColNames, err)
 			return errSortKey
 		}
-- 
2.43.0


From bb2ea48a1a36bddb9a57c89ccab3230b81da3bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 09/70] fix: SortKeyCount of a nil table does not panic

---
 sort.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sort.go b/sort.go
index fb98837..7495e67 100644
--- a/sort.go
+++ b/sort.go
@@ -794,6 +794,10 @@ func newSortKeys() SortKeys {
 }
 
 func (table *Table) SortKeyCount() int {
+	if table == nil {
+		return -1
+	}
+
 	return len(table.sortKeys)
 }
 
-- 
2.43.0


From dbbca82d393a520d19926167917b1b96dccdf972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 10/70] fix: GetCellInfo and RowByRowIndex report cells and
 rows that do not exist

---
 tree.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tree.go b/tree.go
index 480072e..c90ae96 100644
--- a/tree.go
+++ b/tree.go
@@ -219,6 +219,10 @@ func (table *Table) GetCellInfoByColIndex(colIndex int, rowIndex int) (cellInfo
 		return cellInfo, fmt.Errorf("table.%s(): table is nil", UtilFuncNameNoParens())
 	}
 
+	if hasCell, err := table.HasCellByColIndex(colIndex, rowIndex); !hasCell {
+		return cellInfo, err
+	}
+
 	cellInfo.Table = table
 	cellInfo.ColIndex = colIndex
 	cellInfo.RowIndex = rowIndex
@@ -280,6 +284,10 @@ func (table *Table) RowByRowIndex(rowIndex int) (row Row, err error) {
 		return row, fmt.Errorf("table.%s(): table is nil", UtilFuncNameNoParens())
 	}
 
+	if hasRow, err := table.HasRow(rowIndex); !hasRow {
+		return row, err
+	}
+
 	row.Table = table
 	row.RowIndex = rowIndex
 
-- 
2.43.0


From 6e529521d66297481cd70dcecff0142fb3bf0eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 11/70] fix: IsValidCellValue accepts every value that SetVal
 accepts

---
 gotables.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gotables.go b/gotables.go
index 18421b1..5498382 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3158,10 +3158,18 @@ func (table *Table) IsValidCellValue(colName string, value interface{}) (bool, e
 		return false, fmt.Errorf("table[%s] col=%s type=%s invalid value: <nil>", table.Name(), colName, colType)
 	}
 
-	valueType := reflect.TypeOf(value)
-	valueTypeName := valueType.Name()
+	if tableValue, isTable := value.(*Table); isTable && tableValue == nil {
+		return false, fmt.Errorf("table[%s] col=%s type=%s invalid value: <nil>", table.Name(), colName, colType)
+	}
+
+	// Same type check as in SetValByColIndex()
+	valueTypeName := fmt.Sprintf("%T", value)
+	if valueTypeName == "*gotables.Table" {
+		// "*gotables.Table" not accepted as a gotables custom type. Use "*Table" instead.
+		valueTypeName = "*Table"
+	}
 
-	if valueTypeName != colType {
+	if valueTypeName != colType && !isAlias(colType, valueTypeName) {
 		return false, fmt.Errorf("table[%s] col=%s type=%s invalid value: %v", table.Name(), colName, colType, value)
 	}
 
-- 
2.43.0


From 25c96e60cac71463bf6e64a1120df43a9bbd6f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 12/70] fix: IsValidTable reports an inconsistent column lookup
 map

---
 gotables.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index 5498382..5a968c2 100644
--- a/gotables.go
+++ b/gotables.go
@@ -2825,7 +2825,7 @@ func (table *Table) IsValidTable() (isValid bool, err error) {
 
 	_, err = table.isValidColNamesMap()
 	if err != nil {
-		return false, nil
+		return false, err
 	}
 
 	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
-- 
2.43.0


From bc8d0c1b2cea42cdc38bcae1007d30369c979150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 13/70] fix: CopyDeep copies the table and every table nested
 in it

---
 tree.go | 51 +++++++++++++++++----------------------------------
 1 file changed, 17 insertions(+), 34 deletions(-)

diff --git a/tree.go b/tree.go
index c90ae96..fae5672 100644
--- a/tree.go
+++ b/tree.go
@@ -414,61 +414,44 @@ func (table *Table) CopyDeep() (tableCopy *Table, err error) {
 		return nil, fmt.Errorf("table.%s: table is nil", UtilFuncName())
 	}
 
-	// This may seem odd, but this is the point in CopyDeep() where it's possible
-	// to set tableCopy before all the recursive calls have occurred.
-	tableCopy = table
-
-	var visitTable = func(t *Table) (err error) {
-		// where(fmt.Sprintf("[%s]", t.Name()))
-		return
+	// Copy() refuses a table with a circular reference, so the recursion below ends.
+	tableCopy, err = table.Copy()
+	if err != nil {
+		return nil, err
 	}
 
-	var visitCell = func(walkDeep bool, cell CellInfo) (err error) {
-		if IsTableColType(cell.ColType) {
-			// where(fmt.Sprintf("[%s] IsTableColType", cell.Table.Name()))
-
+	for colIndex, colType := range tableCopy.colTypes {
+		if !IsTableColType(colType) {
+			continue
+		}
+		for rowIndex := 0; rowIndex < tableCopy.RowCount(); rowIndex++ {
 			var nestedTable *Table
-			nestedTable, err = cell.Table.GetTableByColIndex(cell.ColIndex, cell.RowIndex)
+			nestedTable, err = table.GetTableByColIndex(colIndex, rowIndex)
 			if err != nil {
-				return
+				return nil, err
 			}
-			// where(fmt.Sprintf("nestedTable = %p", nestedTable))
 
 			var isNilTable bool
 			isNilTable, err = nestedTable.IsNilTable()
 			if err != nil {
-				return
+				return nil, err
 			}
 
 			var nestedTableCopy *Table
 			if isNilTable {
-				nestedTableCopy = NewNilTable()	// New reference just to be on the safe side.
+				nestedTableCopy = NewNilTable() // New reference just to be on the safe side.
 			} else {
-				nestedTableCopy, err = nestedTable.Copy()
+				nestedTableCopy, err = nestedTable.CopyDeep()
 				if err != nil {
-					return
+					return nil, err
 				}
 			}
 
-			err = cell.Table.SetTableByColIndex(cell.ColIndex, cell.RowIndex, nestedTableCopy)
+			err = tableCopy.SetTableByColIndex(colIndex, rowIndex, nestedTableCopy)
 			if err != nil {
-			// where(fmt.Sprintf("nestedTableCopy = %p", nestedTableCopy))
-				return
+				return nil, err
 			}
 		}
-		tableCopy = cell.Table
-
-		return
-	}
-
-	const walkDeep = true
-	var walkSafe WalkSafe = make(WalkSafe)
-	// where(fmt.Sprintf("declaring walkSafe = %p", walkSafe))
-	// where("BEGIN Walk()")
-	err = table.Walk(walkDeep, walkSafe, visitTable, nil, visitCell)
-	// where("END Walk()")
-	if err != nil {
-		return nil, err
 	}
 
 	return
-- 
2.43.0


From 720944b14bcffa8b022fa3bd9731a9680d6482b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 14/70] fix: AppendRowsFromTable leaves the table alone when it
 fails

---
 gotables.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gotables.go b/gotables.go
index 5a968c2..02b7696 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3522,10 +3522,9 @@ func (table *Table) AppendColsFromTable(fromTable *Table) error {
 	return nil
 }
 
-func (toTable *Table) AppendRowsFromTable(fromTable *Table, firstRow int, lastRow int) error {
+func (toTable *Table) AppendRowsFromTable(fromTable *Table, firstRow int, lastRow int) (err error) {
 	// where("caller: " + UtilFuncCaller())
 	// where(UtilFuncName())
-	var err error
 
 	if toTable == nil {
 		return fmt.Errorf("toTable.table.%s: table is <nil>", UtilFuncName())
@@ -3557,6 +3556,14 @@ func (toTable *Table) AppendRowsFromTable(fromTable *Table, firstRow int, lastRo
 		}
 	}
 
+	// If a row cannot be copied, take away the rows already appended.
+	var rowCount int = toTable.RowCount()
+	defer func() {
+		if err != nil {
+			toTable.rows = toTable.rows[:rowCount]
+		}
+	}()
+
 	// Note: multiple assignment syntax in for loop.
 	for fromRow, toRow := firstRow, toTable.RowCount(); fromRow <= lastRow; fromRow, toRow = fromRow+1, toRow+1 {
 
-- 
2.43.0


From e3d791acc24c6c60373970b41f063b10deb55830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 15/70] fix: AppendColsFromTable leaves the table alone when it
 fails

---
 gotables.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/gotables.go b/gotables.go
index 02b7696..14b0b00 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3488,6 +3488,22 @@ func (table *Table) AppendColsFromTable(fromTable *Table) error {
 		return err
 	}
 
+	// Check all the columns before appending any: a failure must leave the table alone.
+	for colIndex := 0; colIndex < fromTable.ColCount(); colIndex++ {
+		colName := fromTable.colNames[colIndex]
+		colType := fromTable.colTypes[colIndex]
+		if hasCol, _ := table.HasCol(colName); hasCol {
+			colInfo, err := table.getColInfo(colName)
+			if err != nil {
+				return err
+			}
+			if colType != colInfo.colType {
+				return fmt.Errorf("[%s].%s([%s]): skipping duplicate colName %q (is okay), but expecting type %q, not %q",
+					table.Name(), UtilFuncName(), fromTable.Name(), colName, colInfo.colType, colType)
+			}
+		}
+	}
+
 	for rowIndex := 0; rowIndex < colsTable.RowCount(); rowIndex++ {
 		colName, err := colsTable.GetString("colName", rowIndex)
 		if err != nil {
-- 
2.43.0


From 7fd14af670f06ef376eff96d8add44ad0b9460c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 16/70] fix: searchByKeysLast does not look at row -1

---
 sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sort.go b/sort.go
index 7495e67..188c147 100644
--- a/sort.go
+++ b/sort.go
@@ -1078,7 +1078,7 @@ func (table *Table) searchByKeysLast(searchValues []interface{}) (int, error) {
 
 	// See logic at: https://golang.org/pkg/sort/#Search
 	// See Search() source code at: https://golang.org/src/sort/search.go?s=2247:2287#L49
-	if searchIndex < table.RowCount() && searchValuesMatchRowValues(table, searchValues, searchIndex) {
+	if searchIndex >= 0 && searchIndex < table.RowCount() && searchValuesMatchRowValues(table, searchValues, searchIndex) {
 		return searchIndex, nil
 	} else {
 		return -1, fmt.Errorf("[%s].Search(%v) search values not in table: %v",
-- 
2.43.0


From 33750c940e8745b160564d4bb894cd34a2e1cb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 17/70] fix: Walk returns an error for a nil walkSafe

---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index fae5672..c2e6fcd 100644
--- a/tree.go
+++ b/tree.go
@@ -84,7 +84,7 @@ func (table *Table) Walk(
 		return
 	}
 
-	if table == nil {
+	if walkSafe == nil {
 		err = fmt.Errorf("table.%s(): walkSafe is nil", UtilFuncNameNoParens())
 		return
 	}
-- 
2.43.0


From 369915fae321790db335ae8dfe6c9d703e73590f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 18/70] fix: IsValidTableNesting looks at the nested cell it is
 visiting

---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index c2e6fcd..830b8d7 100644
--- a/tree.go
+++ b/tree.go
@@ -345,7 +345,7 @@ func (rootTable *Table) IsValidTableNesting() (valid bool, err error) {
 	visitCell = func(walkNestedTables bool, cellInfo CellInfo) (err error) {
 		if IsTableColType(cellInfo.ColType) {
 			var nestedTable *Table
-			nestedTable, err = rootTable.GetTableByColIndex(cellInfo.ColIndex, cellInfo.RowIndex)
+			nestedTable, err = cellInfo.Table.GetTableByColIndex(cellInfo.ColIndex, cellInfo.RowIndex)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From a32f28d5304aa6f4c831a9f2e3ec40d70148f450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 19/70] fix: Equals compares nested tables by column name

---
 gotables.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index 14b0b00..3bd4acc 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3419,7 +3419,7 @@ func (table1 *Table) Equals(table2 *Table) (equals bool, err error) {
 				if err != nil {
 					return false, err
 				}
-				nestedTable2, err := table2.GetTableByColIndex(colIndex, rowIndex)
+				nestedTable2, err := table2.GetTable(colName, rowIndex)
 				if err != nil {
 					return false, err
 				}
-- 
2.43.0


From c15d696bfa8c8a78ef820cf3c9729b344a089803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 20/70] fix: Merge returns a new merged table when a table is
 empty or no keys match

---
 merge.go | 58 ++++++++++++++------------------------------------------
 1 file changed, 14 insertions(+), 44 deletions(-)

diff --git a/merge.go b/merge.go
index 2131936..b516c59 100644
--- a/merge.go
+++ b/merge.go
@@ -79,23 +79,6 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return nil
 	}
 
-	// Local function.
-	sortMerged := func(localMerged *Table) (*Table, error) {
-		if localMerged.SortKeyCount() == 0 {
-			err = setSortKeysBetweenTables()
-			if err != nil {
-				return nil, err
-			}
-		}
-
-		err = localMerged.Sort()
-		if err != nil {
-			return nil, err
-		}
-
-		return localMerged, nil
-	}
-
 	if table1 == nil {
 		err = fmt.Errorf("func (table1 *Table) %s(table2 *Table): table1 is <nil>", UtilFuncName())
 		return merged, err
@@ -106,24 +89,6 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return merged, err
 	}
 
-	// TODO: this value of merged is never used (SA4006)
-	if table1.RowCount() == 0 {
-		merged, err = sortMerged(table2)
-		if err != nil {
-			return nil, err
-		}
-		return table2, nil
-	}
-
-	// TODO: this value of merged is never used (SA4006)
-	if table2.RowCount() == 0 {
-		merged, err = sortMerged(table1)
-		if err != nil {
-			return nil, err
-		}
-		return table1, nil
-	}
-
 	// Check that table1 and table2 have the same sort columns.
 	err = setSortKeysBetweenTables()
 	if err != nil {
@@ -242,6 +207,8 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 
 	// where(fmt.Sprintf("BEFORE Merge()\n%s\n", merged))
 
+	var duplicates int // Number of rows tagged for deletion.
+
 	// Loop through to the second-last row, comparing each row with the row after it.
 	for rowIndex := 0; rowIndex < merged.RowCount()-1; rowIndex++ {
 
@@ -435,6 +402,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 			if err != nil {
 				return nil, err
 			}
+			duplicates++
 		}
 	}
 
@@ -448,16 +416,18 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return nil, err
 	}
 
-	// Find the block of rows to delete.
-	first, last, err := merged.SearchRange(true)
-	if err != nil {
-		return nil, err
-	}
+	// Find the block of rows to delete. There is none if all the keys are different.
+	if duplicates > 0 {
+		first, last, err := merged.SearchRange(true)
+		if err != nil {
+			return nil, err
+		}
 
-	// Delete the block of rows.
-	err = merged.DeleteRows(first, last)
-	if err != nil {
-		return nil, err
+		// Delete the block of rows.
+		err = merged.DeleteRows(first, last)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	// Delete the temporary tag columns.
-- 
2.43.0


From f5a1561bc404defdf15bc6cbcdbc3edf10e936c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 21/70] fix: Merge and SortUnique restore the sort keys of the
 tables when they fail

---
 merge.go | 8 ++++++++
 sort.go  | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/merge.go b/merge.go
index b516c59..7e8da7e 100644
--- a/merge.go
+++ b/merge.go
@@ -89,6 +89,14 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return merged, err
 	}
 
+	// If the tables cannot be merged, leave them as they were.
+	table1SortKeys, table2SortKeys := table1.sortKeys, table2.sortKeys
+	defer func() {
+		if err != nil {
+			table1.sortKeys, table2.sortKeys = table1SortKeys, table2SortKeys
+		}
+	}()
+
 	// Check that table1 and table2 have the same sort columns.
 	err = setSortKeysBetweenTables()
 	if err != nil {
diff --git a/sort.go b/sort.go
index 188c147..754d902 100644
--- a/sort.go
+++ b/sort.go
@@ -1289,6 +1289,14 @@ func (inputTable *Table) SortUnique(sortCols ...string) (newTableUnique *Table,
 		return nil, fmt.Errorf("inputTable.%s table is <nil>", UtilFuncName())
 	}
 
+	// If there is an error, leave the sort keys of the input table as they were.
+	inputSortKeys := inputTable.sortKeys
+	defer func() {
+		if err != nil {
+			inputTable.sortKeys = inputSortKeys
+		}
+	}()
+
 	if len(sortCols) > 0 {
 		// Sort mode (1)
 		err := inputTable.SetSortKeys(sortCols...)
-- 
2.43.0


From 588b395afd1ef15d9410d298ad255faab501803c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 22/70] fix: Merge merges matching rows with cells of every
 type

---
 merge.go | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index 7e8da7e..6aa9624 100644
--- a/merge.go
+++ b/merge.go
@@ -26,6 +26,7 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+	"time"
 )
 
 /*
@@ -288,7 +289,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
-				case "int8", "int16", "int32", "int64", "int":
+				case "int8", "int16", "int32", "int64", "int", "rune":
 					var tmp1 interface{}
 					var tmp2 interface{}
 					var val1 int64
@@ -316,7 +317,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
-				case "uint8", "uint16", "uint32", "uint64", "uint":
+				case "uint8", "uint16", "uint32", "uint64", "uint", "byte":
 					var tmp1 interface{}
 					var tmp2 interface{}
 					var val1 uint64
@@ -386,6 +387,29 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
+				case "[]byte", "[]uint8", "time.Time", "*Table":
+					var val1 interface{}
+					var val2 interface{}
+					val1, err = merged.GetValByColIndex(colIndex, rowIndex)
+					if err != nil {
+						return nil, err
+					}
+					val2, err = merged.GetValByColIndex(colIndex, rowIndex+1)
+					if err != nil {
+						return nil, err
+					}
+					if !isZeroMergeVal(val1) { // Covers combinations (c) and (d)
+						err = merged.SetValByColIndex(colIndex, rowIndex+1, val1) // Use val1
+						if err != nil {
+							return nil, err
+						}
+					} else if !isZeroMergeVal(val2) { // Covers combination (b)
+						err = merged.SetValByColIndex(colIndex, rowIndex, val2) // Use val2
+						if err != nil {
+							return nil, err
+						}
+					}
+					// Otherwise both vals must be zero. Do nothing.
 				default:
 					// Should never reach here.
 					var isValid bool
@@ -460,6 +484,19 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 	return merged, nil
 }
 
+// Is this []byte, time.Time or *Table a zero value (a missing value)?
+func isZeroMergeVal(val interface{}) bool {
+	switch v := val.(type) {
+	case []byte:
+		return len(v) == 0
+	case time.Time:
+		return v.Equal(MinTime)
+	case *Table:
+		return v == nil || v.isNilTable
+	}
+	return false
+}
+
 // This copies from left (srcTable) to right (targTable) beginning at beginRow in targTable.
 func (srcTable *Table) copyTableCells(beginRow int, targTable *Table) error {
 	for srcCol := 0; srcCol < srcTable.ColCount(); srcCol++ {
-- 
2.43.0


From 1613ac64161824eb5afb698bebe70e4bcd4c59e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 23/70] fix: column setters by index report a missing column of
 a table without rows

---
 gotables.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gotables.go b/gotables.go
index 3bd4acc..24a3fe3 100644
--- a/gotables.go
+++ b/gotables.go
@@ -848,6 +848,10 @@ func (table *Table) SetColCellsToZeroValueByColIndex(colIndex int) error {
 		return fmt.Errorf("%s table.%s table is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
+	if hasCol, err := table.HasColByColIndex(colIndex); !hasCol {
+		return err
+	}
+
 	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
 		err := table.SetCellToZeroValueByColIndex(colIndex, rowIndex)
 		if err != nil {
@@ -888,6 +892,10 @@ func (table *Table) SetColFloatCellsToNaNByColIndex(colIndex int) error {
 		return fmt.Errorf("%s table.%s table is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
+	if hasCol, err := table.HasColByColIndex(colIndex); !hasCol {
+		return err
+	}
+
 	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
 		err := table.SetFloatCellToNaNByColIndex(colIndex, rowIndex)
 		if err != nil {
-- 
2.43.0


From edbdc6ca676461f1504e22bd12e5df205fec34b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 24/70] fix: AppendRowsFromTable checks the row range of a
 table appended to itself

---
 gotables.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gotables.go b/gotables.go
index 24a3fe3..2aa0fd6 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3580,6 +3580,16 @@ func (toTable *Table) AppendRowsFromTable(fromTable *Table, firstRow int, lastRo
 		}
 	}
 
+	// Check the rows before appending any: fromTable may be toTable itself, which grows.
+	if firstRow <= lastRow {
+		if hasRow, err := fromTable.HasRow(firstRow); !hasRow {
+			return err
+		}
+		if hasRow, err := fromTable.HasRow(lastRow); !hasRow {
+			return err
+		}
+	}
+
 	// If a row cannot be copied, take away the rows already appended.
 	var rowCount int = toTable.RowCount()
 	defer func() {
-- 
2.43.0


From ac30f4ed9ab9f6d8e5ecf221dd88c46aa2893adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 25/70] fix: SetSortKeysFromTable keeps the direction of each
 key of a column listed twice

---
 sort.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/sort.go b/sort.go
index 754d902..a89e7a6 100644
--- a/sort.go
+++ b/sort.go
@@ -815,7 +815,7 @@ func (table *Table) SetSortKeysFromTable(fromTable *Table) error {
 
 	var err error
 	var ascending []string // They default to ascending, and may be later reversed.
-	var descending []string
+	var descending []bool
 
 	keysTable, err := fromTable.GetSortKeysAsTable()
 	if err != nil {
@@ -837,9 +837,7 @@ func (table *Table) SetSortKeysFromTable(fromTable *Table) error {
 		}
 
 		ascending = append(ascending, colName)
-		if reverse {
-			descending = append(descending, colName)
-		}
+		descending = append(descending, reverse)
 	}
 
 	err = table.SetSortKeys(ascending...)
@@ -847,9 +845,9 @@ func (table *Table) SetSortKeysFromTable(fromTable *Table) error {
 		return err
 	}
 
-	err = table.SetSortKeysReverse(descending...)
-	if err != nil {
-		return err
+	// By position: a column may be listed twice.
+	for keyIndex := range table.sortKeys {
+		table.sortKeys[keyIndex].reverse = descending[keyIndex]
 	}
 
 	return nil
-- 
2.43.0


From b5c3742bf7ae6485f0af86bd5059266e9ee3e2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 26/70] fix: AppendTable refuses a nil table

---
 gotables.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gotables.go b/gotables.go
index 2aa0fd6..8275a15 100644
--- a/gotables.go
+++ b/gotables.go
@@ -423,6 +423,10 @@ func (tableSet *TableSet) AppendTable(newTable *Table) error {
 		return fmt.Errorf("%s tableSet.%s tableSet is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
+	if newTable == nil {
+		return fmt.Errorf("%s tableSet.%s newTable is <nil>", UtilFuncSource(), UtilFuncName())
+	}
+
 	// Note: Could maintain a map in parallel for rapid lookup of table names.
 	for _, existingTable := range tableSet.tables {
 		if existingTable.Name() == newTable.Name() {
-- 
2.43.0


From e1f3e9de05b53fefd45286061be52832142c8386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 27/70] fix: Equals of tables with a circular reference ends
 with an error

---
 gotables.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index 8275a15..46d48dd 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3309,6 +3309,11 @@ func isExportableName(name string) bool {
 	Useful for testing.
 */
 func (table1 *Table) Equals(table2 *Table) (equals bool, err error) {
+	return table1.equals(table2, map[[2]*Table]struct{}{})
+}
+
+// comparing holds the pairs of tables that are being compared: meeting one of them again means a circular reference.
+func (table1 *Table) equals(table2 *Table, comparing map[[2]*Table]struct{}) (equals bool, err error) {
 
 	if table1 == nil {
 		return false, fmt.Errorf("table1.%s(table2): table1 is nil", UtilFuncNameNoParens())
@@ -3336,6 +3341,14 @@ func (table1 *Table) Equals(table2 *Table) (equals bool, err error) {
 		return false, fmt.Errorf("table1[%s].Equals(table2[]): table2 is a NilTable", table1.Name())
 	}
 
+	var pair = [2]*Table{table1, table2}
+	if _, exists := comparing[pair]; exists {
+		return false, fmt.Errorf("table1[%s].Equals(table2[%s]): %s",
+			table1.Name(), table2.Name(), NewCircRefError(table1, table2, ""))
+	}
+	comparing[pair] = EmptyStruct
+	defer delete(comparing, pair)
+
 	// Compare table names.
 	if table1.Name() != table2.Name() {
 		return false, fmt.Errorf("table1[%s].Equals(table2[%s]): table1.Name() %q != table2.Name() %q",
@@ -3437,7 +3450,7 @@ func (table1 *Table) Equals(table2 *Table) (equals bool, err error) {
 				}
 
 				// Recursive call to compare nested tables.
-				equals, err := nestedTable1.Equals(nestedTable2)
+				equals, err := nestedTable1.equals(nestedTable2, comparing)
 				if !equals {
 
 					if nestedTable1.parentTable != nil {
-- 
2.43.0


From 08f1f87ab987141de3c203df11c3047f91351606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 28/70] fix: padded text keeps integers exact (no detour
 through float64)

---
 gotables.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gotables.go b/gotables.go
index 46d48dd..7e56860 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1345,9 +1345,9 @@ func printMatrix(tableName string, matrix [][]string, width []int, precis []int,
 			if alignRight[col] {
 				// TODO: Move this functionality to where printMatrix is called.
 				var toWrite string
-				if row <= 1 { // It's a colName or typeName
+				if row <= 1 || (colTypes[col] != "float32" && colTypes[col] != "float64") { // It's a colName or typeName or an integer
 					toWrite = matrix[col][row]
-				} else { // It's numeric. Note: float conversion handles int conversion.
+				} else { // It's a float.
 					var bits int
 					switch colTypes[col] {
 					case "float32":
-- 
2.43.0


From 770bedfdc96067ba0545796f7a69b6f633fe9a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 29/70] fix: unpadded text supports byte, byte slice and time
 columns

---
 gotables.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index 7e56860..b2717cb 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1244,9 +1244,13 @@ func (table *Table) _String(horizontalSeparator byte) string {
 				case "bool":
 					tVal = row[colIndex].(bool)
 					buf.WriteString(fmt.Sprintf("%t", tVal))
-				case "uint8":
+				case "uint8", "byte":
 					ui8Val = row[colIndex].(uint8)
 					buf.WriteString(fmt.Sprintf("%d", ui8Val))
+				case "[]uint8", "[]byte":
+					buf.WriteString(fmt.Sprintf("%v", row[colIndex].([]uint8)))
+				case "time.Time":
+					buf.WriteString(row[colIndex].(time.Time).Format(time.RFC3339Nano))
 				case "uint16":
 					ui16Val = row[colIndex].(uint16)
 					buf.WriteString(fmt.Sprintf("%d", ui16Val))
-- 
2.43.0


From 30f7322d7f20b48829e1fdbaa47b4e31fc652486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 30/70] fix: text of struct-shape tables escapes strings and
 runes

---
 gotables.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gotables.go b/gotables.go
index b2717cb..b35c610 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1652,11 +1652,11 @@ func printStruct(table *Table) string {
 			switch table.colTypes[colIndex] {
 			case "string":
 				// Note 1: GetValAsStringByColIndex() doesn't include delimiters around strings.
-				// Note 2: Don't use %q. Use \"%s\" instead. Because %q replicates escape slashes.
-				s += " = " + fmt.Sprintf("\"%s\"", asString)
+				// Note 2: The parser unquotes strings, so escape them here as for tables in tabular shape.
+				s += " = " + strconv.Quote(asString)
 			case "rune":
 				// Note: GetValAsStringByColIndex() doesn't include delimiters around runes.
-				s += " = " + fmt.Sprintf("'%s'", asString)
+				s += " = " + strconv.QuoteRune(table.rows[RowIndexZero][colIndex].(rune))
 			default:
 				// All other types don't have delimiters.
 				s += " = " + asString
-- 
2.43.0


From 207ad317a4315c530d0fdbc11b69759b623dd229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 31/70] fix: unpadded text of a table set keeps the set's name

---
 gotables.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gotables.go b/gotables.go
index b35c610..da983a6 100644
--- a/gotables.go
+++ b/gotables.go
@@ -341,6 +341,9 @@ func (tableSet *TableSet) _String(horizontalSeparator byte) string {
 	}
 
 	var buf bytes.Buffer
+	if tableSet.Name() != "" {
+		buf.WriteString(fmt.Sprintf("[[%s]]\n\n", tableSet.Name()))
+	}
 	//	buf.WriteString("# From file: \"" + tableSet.name + "\"\n\n")
 	var tableSep = ""
 	var table *Table
-- 
2.43.0


From a659a6d8ef786a49e525e489ee869aacc9fdeef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 32/70] fix: parser reads infinities as written, and NaN only
 at the start of the value

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 48847af..3f12f7d 100644
--- a/parser.go
+++ b/parser.go
@@ -139,7 +139,7 @@ var intRegexp *regexp.Regexp
 // Allow negative float numbers! 15/03/2017 Amazed that this was missed during initial testing!
 // var floatRegexp		*regexp.Regexp = regexp.MustCompile(`(^[-+]?(\b[0-9]+\.([0-9]+\b)?|\b\.[0-9]+\b))|([Nn][Aa][Nn])|(\b[-+]?\d+\b)`)
 // From Regular Expressions Cookbook.
-var floatRegexp *regexp.Regexp = regexp.MustCompile(`^([-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?)|([Nn][Aa][Nn])`)
+var floatRegexp *regexp.Regexp = regexp.MustCompile(`^(([-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?)|([-+]?Inf)|([Nn][Aa][Nn]))`)
 
 const tableSetNamePattern string = `^\[\[[a-zA-Z_][a-zA-Z0-9_]*\]\]$`
 const namePattern string = `^[a-zA-Z_][a-zA-Z0-9_]*$`
-- 
2.43.0


From 93f19c54ec06dbe5031066592b4c09d0d0f9b517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 33/70] fix: parser matches a rune literal only at its place
 and up to its own end

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 3f12f7d..35cbd3c 100644
--- a/parser.go
+++ b/parser.go
@@ -121,7 +121,7 @@ var boolRegexp *regexp.Regexp = regexp.MustCompile(`^\b(true|false)\b`)
 
 // Note: (\\') successfully parses '\'' It needs to go before ([^']*)
 //             This may not be terribly efficient, awaiting a more specific regular expresssion.
-const runeRegexpString string = `'((\\n)|(\\')|([^']\\[xuU].*)|([^']*))'`
+const runeRegexpString string = `^'((\\.[^']*)|([^']*))'`
 
 var runeRegexp *regexp.Regexp = regexp.MustCompile(runeRegexpString)
 
-- 
2.43.0


From 2cae69b2511593c4e97f7286ee6f4042985d1ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:03 +0000
Subject: [PATCH 34/70] fix: parser reads times with any number of fractional
 digits, and only at their place

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 35cbd3c..e736cec 100644
--- a/parser.go
+++ b/parser.go
@@ -151,7 +151,7 @@ const tableNameNilPattern string = `^(\[\])`                  // Don't add $ at
 // const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(Z|([+-]\d{2}:\d{2}))`
 // RFC3339Nano = "2006-01-02T15:04:05.999999999Z07:00"
 // const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d+)?(Z|([+-]\d{2}:\d{2}))`
-const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{9})?(Z|([+-]\d{2}:\d{2}))`
+const rfc3339TimePattern string = `^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{1,9})?(Z|([+-]\d{2}:\d{2}))`
 
 var tableSetNameRegexp *regexp.Regexp = regexp.MustCompile(tableSetNamePattern)
 var tableNameRegexp *regexp.Regexp = regexp.MustCompile(tableNamePattern)
-- 
2.43.0


From 9eb834927965af80b7e94786995faa4087793fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 35/70] fix: parser requires white space between values

---
 parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.go b/parser.go
index e736cec..fe9f2b7 100644
--- a/parser.go
+++ b/parser.go
@@ -1261,6 +1261,10 @@ func (p *parser) getRowSlice(line string, table *Table, colNames []string, colTy
 		}
 
 		remaining = remaining[rangeFound[1]:]
+		if len(remaining) > 0 && remaining[0] != ' ' && remaining[0] != '\t' {
+			return nil, fmt.Errorf("%s col %s expecting white space after a value of type %s but found: %s",
+				p.gotFilePos(), colNames[i], colTypes[i], remaining)
+		}
 		//		remaining = strings.TrimLeft(remaining, " \t\r\n") // Remove leading whitespace. Is \t\r\n overkill?
 		remaining = strings.TrimLeft(remaining, " \t") // Remove leading whitespace.
 		colCount++
-- 
2.43.0


From add0f153ab732ba91f3f4d3fafdbde5463b0d5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 36/70] fix: parser refuses col names without col types at the
 end of the document

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index fe9f2b7..8672d05 100644
--- a/parser.go
+++ b/parser.go
@@ -524,6 +524,9 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 		}
 
 		if readError == io.EOF {
+			if expecting == _COL_TYPES {
+				return nil, fmt.Errorf("%s expecting row of col names to be followed by a row of col types", p.gotFilePos())
+			}
 			return tables, nil // It's not an error to reach EOF. It just means end of document.
 		}
 	}
-- 
2.43.0


From 29d21bbc03ab146eca0c2449d0dff6db91051c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 37/70] fix: parser refuses text it would ignore on the lines
 of a struct-shape table

---
 parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 8672d05..2ad7fe4 100644
--- a/parser.go
+++ b/parser.go
@@ -401,6 +401,10 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 					}
 				*/
 
+				if !structHasRowData && len(lineSplit) > 2 {
+					return nil, fmt.Errorf("#6 %s looks like struct without data but found: %s", p.gotFilePos(), line)
+				}
+
 				if structHasRowData {
 					// Find the equals sign byte location within the string so we can locate the value data after equals.
 					// We know it's there (from the line split above), so don't check for nil returned.
@@ -409,7 +413,7 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 						return nil, fmt.Errorf("%s expecting <name> <type> = <value> but found: %s", p.gotFilePos(), line)
 					}
 					// Just because the first line is isStructShape with data doesn't mean subsequent lines are.
-					if len(lineSplit) < 4 {
+					if len(lineSplit) < 4 || lineSplit[structEqualsIndex] != "=" {
 						return nil, fmt.Errorf("#5 %s looks like struct with data but found: %s", p.gotFilePos(), line)
 					}
 					var valueData string = line[rangeFound[1]:]        // Just after = equals sign.
-- 
2.43.0


From 690d72f1f6841b4b26ade66a4883321865319d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 38/70] fix: names are not valid because their UTF-8 bytes look
 like Latin-1 letters

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 2ad7fe4..5155f00 100644
--- a/parser.go
+++ b/parser.go
@@ -814,11 +814,11 @@ func isValidName(name string) (bool, error) {
 	if len(name) == 0 {
 		return false, fmt.Errorf("%s: len(name) == 0", UtilFuncName())
 	}
-	if !unicode.IsLetter(rune(name[0])) && name[0] != '_' {
+	if (name[0] > unicode.MaxASCII || !unicode.IsLetter(rune(name[0]))) && name[0] != '_' {
 		return false, fmt.Errorf("%s: invalid first char: %c (expecting letter or '_')", UtilFuncName(), name[0])
 	}
 	for i := 1; i < len(name); i++ {
-		if !unicode.IsLetter(rune(name[i])) && name[i] != '_' && !unicode.IsNumber(rune(name[i])) {
+		if name[i] > unicode.MaxASCII || !unicode.IsLetter(rune(name[i])) && name[i] != '_' && !unicode.IsNumber(rune(name[i])) {
 			return false, fmt.Errorf("%s: invalid char: %c (expecting letter or '_' or number)", UtilFuncName(), name[0])
 		}
 	}
-- 
2.43.0


From deead81a9442e0ae1ff935bf6db805463f0c9f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 39/70] fix: JSON: quote strings as JSON, not as Go source

---
 json.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/json.go b/json.go
index 376de3a..72ff645 100644
--- a/json.go
+++ b/json.go
@@ -100,7 +100,7 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 	// Add this table to the circular reference map.
 	refMap[table] = EmptyStruct
 
-	buf.WriteString(fmt.Sprintf(`"tableName":%q,`, table.Name()))
+	buf.WriteString(`"tableName":` + quoteJSON(table.Name()) + `,`)
 
 	isStructShape, err := table.IsStructShape()
 	if err != nil {
@@ -143,7 +143,7 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 			switch val.(type) {
 
 			case string:
-				buf.WriteString(fmt.Sprintf("%q", val.(string)))
+				buf.WriteString(quoteJSON(val.(string)))
 
 			case bool, int, uint, int8, int16, int64, uint8, uint16, uint32, uint64, float32, float64:
 				var valStr string
@@ -164,7 +164,7 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 				case "int32":
 					buf.WriteString(valStr)
 				case "rune":
-					buf.WriteString(fmt.Sprintf("%q", valStr))
+					buf.WriteString(quoteJSON(valStr))
 				default:
 					msg := invalidColTypeMsg(table.Name(), fmt.Sprintf("%s: %s", UtilFuncName(), table.colTypes[colIndex]))
 					buf.WriteString(msg)
@@ -531,7 +531,7 @@ func (tableSet *TableSet) GetTableSetAsJSON() (jsonTableSetString string, err er
 	var buf bytes.Buffer
 
 	buf.WriteByte(123) // Opening brace outermost
-	buf.WriteString(fmt.Sprintf(`"tableSetName":%q,`, tableSet.Name()))
+	buf.WriteString(`"tableSetName":` + quoteJSON(tableSet.Name()) + `,`)
 	buf.WriteString(`"tables":[`) // Opening array of tables
 
 	var tableCount int = tableSet.TableCount()
@@ -674,6 +674,15 @@ func NewTableFromJSONByTableName(jsonString string, tableName string) (table *Ta
 	return
 }
 
+// Quote s as a JSON string. Go's %q is not JSON: it escapes some characters in ways JSON does not know.
+func quoteJSON(s string) string {
+	var buf bytes.Buffer
+	var encoder *json.Encoder = json.NewEncoder(&buf)
+	encoder.SetEscapeHTML(false)
+	_ = encoder.Encode(s) // Encoding a string does not fail.
+	return strings.TrimSuffix(buf.String(), "\n")
+}
+
 func indentJSON(jsonString string) (jsonStringIndented string, err error) {
 
 	var buf bytes.Buffer
-- 
2.43.0


From f8c172d0f332df8e7cb750d785eecd1fbb9143a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 40/70] fix: JSON: decode integers exactly, and refuse numbers
 that do not fit the col type

---
 json.go | 109 +++++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 85 insertions(+), 24 deletions(-)

diff --git a/json.go b/json.go
index 72ff645..fcfd199 100644
--- a/json.go
+++ b/json.go
@@ -5,11 +5,11 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
-	_ "math"
+	"math"
 	_ "os"
 	"reflect"
 	"regexp"
-	_ "strconv"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -394,40 +394,54 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 
 				// Deal with conversions to larger ints: int64 uint64
 				case json.Number: // We set to json.Number with: decoder.UseNumber()
-					var float64Val float64
-					float64Val, err = cell.(json.Number).Float64()
+					var number json.Number = cell.(json.Number)
+					var intVal int64
+					var uintVal uint64
+					var floatVal float64
+
+					// Check that the number fits the col type.
+					switch colType {
+					case "int", "int8", "int16", "int32", "int64":
+						intVal, err = intFromJSON(number, intBits[colType])
+					case "uint", "uint8", "byte", "uint16", "uint32", "uint64":
+						uintVal, err = uintFromJSON(number, intBits[colType])
+					case "float32":
+						floatVal, err = strconv.ParseFloat(number.String(), 32)
+					case "float64":
+						floatVal, err = strconv.ParseFloat(number.String(), 64)
+					}
 					if err != nil {
-						err := fmt.Errorf("could not convert json.Number to float64")
-						return nil, fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), err)
+						return nil, fmt.Errorf("%s %s: could not convert JSON number to gotables %s: %v",
+							UtilFuncSource(), UtilFuncName(), colType, err)
 					}
 
 					switch colType { // We need to convert them back to gotables numeric types
 					case "int64":
-						err = table.SetInt64ByColIndex(colIndex, rowIndex, int64(float64Val))
+						err = table.SetInt64ByColIndex(colIndex, rowIndex, intVal)
 					case "uint64":
-						err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64(float64Val))
+						err = table.SetUint64ByColIndex(colIndex, rowIndex, uintVal)
 					case "float32":
-						err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(float64Val))
+						err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(floatVal))
 					case "float64":
-						err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64Val)
+						err = table.SetFloat64ByColIndex(colIndex, rowIndex, floatVal)
 					case "int":
-						err = table.SetIntByColIndex(colIndex, rowIndex, int(float64Val))
+						err = table.SetIntByColIndex(colIndex, rowIndex, int(intVal))
 					case "uint":
-						err = table.SetUintByColIndex(colIndex, rowIndex, uint(float64Val))
+						err = table.SetUintByColIndex(colIndex, rowIndex, uint(uintVal))
 					case "byte":
-						err = table.SetByteByColIndex(colIndex, rowIndex, byte(float64Val))
+						err = table.SetByteByColIndex(colIndex, rowIndex, byte(uintVal))
 					case "int8":
-						err = table.SetInt8ByColIndex(colIndex, rowIndex, int8(float64Val))
+						err = table.SetInt8ByColIndex(colIndex, rowIndex, int8(intVal))
 					case "int16":
-						err = table.SetInt16ByColIndex(colIndex, rowIndex, int16(float64Val))
+						err = table.SetInt16ByColIndex(colIndex, rowIndex, int16(intVal))
 					case "int32":
-						err = table.SetInt32ByColIndex(colIndex, rowIndex, int32(float64Val))
+						err = table.SetInt32ByColIndex(colIndex, rowIndex, int32(intVal))
 					case "uint8":
-						err = table.SetUint8ByColIndex(colIndex, rowIndex, uint8(float64Val))
+						err = table.SetUint8ByColIndex(colIndex, rowIndex, uint8(uintVal))
 					case "uint16":
-						err = table.SetUint16ByColIndex(colIndex, rowIndex, uint16(float64Val))
+						err = table.SetUint16ByColIndex(colIndex, rowIndex, uint16(uintVal))
 					case "uint32":
-						err = table.SetUint32ByColIndex(colIndex, rowIndex, uint32(float64Val))
+						err = table.SetUint32ByColIndex(colIndex, rowIndex, uint32(uintVal))
 					default:
 						return nil, fmt.Errorf("%s %s: unexpected value of type: %s",
 							UtilFuncSource(), UtilFuncName(), colType)
@@ -443,14 +457,19 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 				case []interface{}: // This cell is a slice (probably either byte or uint8)
 					var interfaceSlice []interface{} = cell.([]interface{})
 					var byteSlice []byte = []byte{} // Ready to append to.
-					var float64Val float64
+					var byteVal uint64
 					for _, sliceVal := range interfaceSlice {
-						float64Val, err = sliceVal.(json.Number).Float64()
+						number, ok := sliceVal.(json.Number)
+						if !ok {
+							return nil, fmt.Errorf("%s %s: expecting a number in %s but got type %T",
+								UtilFuncSource(), UtilFuncName(), colType, sliceVal)
+						}
+						byteVal, err = uintFromJSON(number, 8)
 						if err != nil {
-							err := fmt.Errorf("could not convert json.Number to float64")
-							return nil, fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), err)
+							return nil, fmt.Errorf("%s %s: could not convert JSON number to gotables %s: %v",
+								UtilFuncSource(), UtilFuncName(), colType, err)
 						}
-						byteSlice = append(byteSlice, byte(float64Val))
+						byteSlice = append(byteSlice, byte(byteVal))
 					}
 					err = table.SetByteSliceByColIndex(colIndex, rowIndex, byteSlice)
 					if err != nil {
@@ -674,6 +693,48 @@ func NewTableFromJSONByTableName(jsonString string, tableName string) (table *Ta
 	return
 }
 
+var intBits = map[string]int{
+	"int": strconv.IntSize, "int8": 8, "int16": 16, "int32": 32, "int64": 64,
+	"uint": strconv.IntSize, "uint8": 8, "byte": 8, "uint16": 16, "uint32": 32, "uint64": 64,
+}
+
+// The exact integer value of a JSON number such as 123 or 1.23e2
+func intFromJSON(number json.Number, bitSize int) (int64, error) {
+	intVal, err := strconv.ParseInt(number.String(), 10, bitSize)
+	if err == nil {
+		return intVal, nil
+	}
+	if strings.ContainsAny(number.String(), ".eE") {
+		if s, ok := wholeNumber(number); ok {
+			return strconv.ParseInt(s, 10, bitSize)
+		}
+	}
+	return 0, err
+}
+
+// The exact unsigned integer value of a JSON number such as 123 or 1.23e2
+func uintFromJSON(number json.Number, bitSize int) (uint64, error) {
+	uintVal, err := strconv.ParseUint(number.String(), 10, bitSize)
+	if err == nil {
+		return uintVal, nil
+	}
+	if strings.ContainsAny(number.String(), ".eE") {
+		if s, ok := wholeNumber(number); ok {
+			return strconv.ParseUint(s, 10, bitSize)
+		}
+	}
+	return 0, err
+}
+
+// The digits of a JSON number written with a fraction or an exponent, if it is a whole number.
+func wholeNumber(number json.Number) (digits string, ok bool) {
+	floatVal, err := number.Float64()
+	if err != nil || floatVal != math.Trunc(floatVal) || math.Abs(floatVal) > 1<<53 {
+		return "", false
+	}
+	return strconv.FormatFloat(floatVal, 'f', 0, 64), true
+}
+
 // Quote s as a JSON string. Go's %q is not JSON: it escapes some characters in ways JSON does not know.
 func quoteJSON(s string) string {
 	var buf bytes.Buffer
-- 
2.43.0


From 5a0a31c4f7aa2fe1becd15dcbe88d040438a5cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 41/70] fix: JSON: refuse NaN and infinities instead of writing
 an invalid document

---
 json.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/json.go b/json.go
index fcfd199..18cffe2 100644
--- a/json.go
+++ b/json.go
@@ -151,6 +151,11 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 				if err != nil {
 					return err
 				}
+				switch valStr {
+				case "NaN", "+Inf", "-Inf":
+					return fmt.Errorf("%s: table [%s] col %s row %d: %s has no JSON representation",
+						UtilFuncName(), table.Name(), table.colNames[colIndex], rowIndex, valStr)
+				}
 				buf.WriteString(valStr)
 
 			// rune vs int32
-- 
2.43.0


From 96d698ae8e61880f90258b6e854b3c907ed7f478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 42/70] fix: JSON: return errors for malformed documents
 instead of panicking

---
 json.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/json.go b/json.go
index 18cffe2..23c6155 100644
--- a/json.go
+++ b/json.go
@@ -320,7 +320,11 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 		var colName string
 		var colType string
 		var val interface{}
-		for colName, val = range colNameAndType.(map[string]interface{}) {
+		colMap, isMap := colNameAndType.(map[string]interface{})
+		if !isMap || len(colMap) != 1 {
+			return nil, fmt.Errorf("expecting one col name and type from JSON metadata but got: %v", colNameAndType)
+		}
+		for colName, val = range colMap {
 			// There's only one map element here: colName and colType.
 		}
 		var ok bool
@@ -351,11 +355,22 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 			return nil, err
 		}
 
-		var row []interface{} = val.([]interface{})
+		row, isRow := val.([]interface{})
+		if !isRow {
+			return nil, fmt.Errorf("expecting a row of cells from JSON but got type %T: %v", val, val)
+		}
+		if len(row) > table.ColCount() {
+			return nil, fmt.Errorf("expecting at most %d cell%s in JSON row %d but got: %d",
+				table.ColCount(), plural(table.ColCount()), rowIndex, len(row))
+		}
 		for colIndex, val := range row {
 			// where(fmt.Sprintf("\t\tcol [%d] %v", colIndex, val))
 			var cell interface{}
-			for _, cell = range val.(map[string]interface{}) {
+			cellMap, isMap := val.(map[string]interface{})
+			if !isMap {
+				return nil, fmt.Errorf("expecting a cell from JSON but got type %T: %v", val, val)
+			}
+			for _, cell = range cellMap {
 				// There's only one map element here: colName and colType.
 				// where(fmt.Sprintf("\t\t\tcol=%d row=%d celltype=%T cell=%v", colIndex, rowIndex, cell, cell))
 
@@ -366,6 +381,9 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 					case "rune":
 						var stringVal = cell.(string)
 						var runeSlice []rune = []rune(stringVal)
+						if len(runeSlice) != 1 {
+							return nil, fmt.Errorf("%s %s: expecting one rune but got: %q", UtilFuncSource(), UtilFuncName(), stringVal)
+						}
 						var runeVal rune = runeSlice[0]
 						err = table.SetRuneByColIndex(colIndex, rowIndex, runeVal)
 					case "time.Time":
@@ -639,7 +657,10 @@ func NewTableSetFromJSON(jsonTableSetString string) (tableSet *TableSet, err err
 	// (3) Loop through the array of tables.
 	for _, tableMapInterface = range tablesMap {
 
-		tableMap = tableMapInterface.(map[string]interface{})
+		tableMap, exists = tableMapInterface.(map[string]interface{})
+		if !exists {
+			return nil, fmt.Errorf("%s: expecting a JSON table but got type %T", UtilFuncName(), tableMapInterface)
+		}
 
 		var table *Table
 		table, err = newTableFromJSON_recursive(tableMap)
-- 
2.43.0


From f59200c1a4b094a5f341fd329a16be3ee413b965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 43/70] fix: YAML: GetTableSetAsYAML() returns its errors

---
 yaml.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaml.go b/yaml.go
index 09d961b..757a32a 100644
--- a/yaml.go
+++ b/yaml.go
@@ -377,13 +377,13 @@ func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 	var yamlMap map[string]interface{}
 	yamlMap, err = tableSet.GetTableSetAsMap()
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 
 	var yamlBytes []byte
 	yamlBytes, err = yaml.Marshal(yamlMap)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 
 	yamlString = string(yamlBytes)
-- 
2.43.0


From 6d317f1a1578cd9aa72c366225876a3129750fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 44/70] fix: YAML: decode whole numbers in float64 cols

---
 yaml.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaml.go b/yaml.go
index 757a32a..d84cb78 100644
--- a/yaml.go
+++ b/yaml.go
@@ -229,6 +229,8 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 					err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64(intVal))
 				case "float32":
 					err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(intVal))
+				case "float64":
+					err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64(intVal))
 				case "time.Time":
 					err = table.SetTimeByColIndex(colIndex, rowIndex, row[colIndex].(time.Time))
 				case "rune":
-- 
2.43.0


From 497827a64add42b02d26895528533ca0966e5bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 45/70] fix: YAML: refuse circular references instead of
 recursing without end

---
 yaml.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/yaml.go b/yaml.go
index d84cb78..039388b 100644
--- a/yaml.go
+++ b/yaml.go
@@ -412,7 +412,7 @@ func (tableSet *TableSet) GetTableSetAsMap() (yamlMap map[string]interface{}, er
 		}
 
 		var yamlTable map[string]interface{}
-		yamlTable, err = table.getTableAsMap()
+		yamlTable, err = table.getTableAsMap(make(circRefMap))
 		if err != nil {
 			return
 		}
@@ -426,7 +426,10 @@ func (tableSet *TableSet) GetTableSetAsMap() (yamlMap map[string]interface{}, er
 	return
 }
 
-func (table *Table) getTableAsMap() (yamlTable map[string]interface{}, err error) {
+func (table *Table) getTableAsMap(refMap circRefMap) (yamlTable map[string]interface{}, err error) {
+
+	// Add this table to the circular reference map.
+	refMap[table] = EmptyStruct
 
 	var yamlObject map[string]interface{} // Cell name and value pair.
 	var yamlTableData [][]interface{}
@@ -527,7 +530,14 @@ func (table *Table) getTableAsMap() (yamlTable map[string]interface{}, err error
 				return err
 			}
 
-			anyVal, err = nestedTable.getTableAsMap()
+			_, exists := refMap[nestedTable]
+			if exists && !nestedTable.isNilTable {
+				err = fmt.Errorf("%s: circular reference in table [%s]: a reference to table [%s] already exists",
+					UtilFuncName(), cell.Table.Name(), nestedTable.Name())
+				return err
+			}
+
+			anyVal, err = nestedTable.getTableAsMap(refMap)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 1855d8c31f508b2e903e3f6bd0b3514a85964221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 46/70] fix: YAML: return errors for malformed documents
 instead of panicking

---
 yaml.go | 85 +++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 52 insertions(+), 33 deletions(-)

diff --git a/yaml.go b/yaml.go
index 039388b..1ffad6f 100644
--- a/yaml.go
+++ b/yaml.go
@@ -55,9 +55,7 @@ func NewTableSetFromYAML(yamlTableSetString string) (tableSet *TableSet, err err
 	// (2) Retrieve and process tables.
 	var tablesMap []interface{}
 	var anyVal interface{}
-	anyVal, exists = tableSetMap["tables"]
-	tablesMap = anyVal.([]interface{})
-
+	tablesMap, exists = tableSetMap["tables"].([]interface{})
 	if !exists {
 		return nil, fmt.Errorf("%s %s: in YAML doc: 'tables' is missing", UtilFuncSource(), UtilFuncName())
 	}
@@ -67,17 +65,20 @@ func NewTableSetFromYAML(yamlTableSetString string) (tableSet *TableSet, err err
 	// (3) Loop through the array of tables.
 	for _, anyVal = range tablesMap {
 
-		tableMap = anyVal.(map[string]interface{})
+		tableMap, exists = anyVal.(map[string]interface{})
+		if !exists {
+			return nil, fmt.Errorf("%s %s: in YAML doc: expecting a table but got type %T", UtilFuncSource(), UtilFuncName(), anyVal)
+		}
 
 		var table *Table
 		table, err = newTableFromYAML_recursive(tableMap)
 		if err != nil {
-			return
+			return nil, err
 		}
 
 		err = tableSet.Append(table)
 		if err != nil {
-			return
+			return nil, err
 		}
 	}
 
@@ -136,13 +137,17 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 		var colName string
 		var colType string
 		var typeVal interface{}
-		for colName, typeVal = range colNameAndType.(map[string]interface{}) {
+		colMap, isMap := colNameAndType.(map[string]interface{})
+		if !isMap || len(colMap) != 1 {
+			return nil, fmt.Errorf("expecting one col name and type from YAML metadata but got: %v", colNameAndType)
+		}
+		for colName, typeVal = range colMap {
 			// There's only one map element here: colName and colType.
 		}
 		colType, ok := typeVal.(string)
 		if !ok {
 			err = fmt.Errorf("expecting colType string value from YAML but got type %T and value: %v", typeVal, typeVal)
-			return
+			return nil, err
 		}
 
 		colType = trimQuote(colType) // YAML likes to quote some strings.
@@ -173,7 +178,11 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 		dataMapSlice = whatever.([]interface{})
 		data = make([][]interface{}, len(dataMapSlice))
 		for i, el1 := range dataMapSlice {
-			for _, el2 := range el1.([]interface{}) {
+			rowSlice, isRow := el1.([]interface{})
+			if !isRow {
+				return nil, fmt.Errorf("%s %s: in YAML doc: expecting a row of cells but got type %T", UtilFuncSource(), UtilFuncName(), el1)
+			}
+			for _, el2 := range rowSlice {
 				data[i] = append(data[i], el2)
 			}
 		}
@@ -196,6 +205,10 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 			return
 		}
 		row = data[rowIndex]
+		if len(row) > table.ColCount() {
+			return nil, fmt.Errorf("%s %s: in YAML doc: expecting at most %d cell%s in row %d but got: %d",
+				UtilFuncSource(), UtilFuncName(), table.ColCount(), plural(table.ColCount()), rowIndex, len(row))
+		}
 		for colIndex := 0; colIndex < len(row); colIndex++ {
 			switch row[colIndex].(type) {
 			case uint:
@@ -231,8 +244,6 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 					err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(intVal))
 				case "float64":
 					err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64(intVal))
-				case "time.Time":
-					err = table.SetTimeByColIndex(colIndex, rowIndex, row[colIndex].(time.Time))
 				case "rune":
 					err = table.SetRuneByColIndex(colIndex, rowIndex, rune(intVal))
 				default:
@@ -277,36 +288,36 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 				err = table.SetTimeByColIndex(colIndex, rowIndex, row[colIndex].(time.Time))
 			case interface{}:
 				switch table.colTypes[colIndex] {
-				case "byte":
-					err = table.SetByteByColIndex(colIndex, rowIndex, row[colIndex].(byte))
-
 				case "uint":
-					var uint64Val uint64 = row[colIndex].(uint64)
+					uint64Val, ok := row[colIndex].(uint64)
+					if !ok || uint64(uint(uint64Val)) != uint64Val {
+						return nil, yamlCellError(table, colIndex, row[colIndex])
+					}
 					err = table.SetUintByColIndex(colIndex, rowIndex, uint(uint64Val))
 
-				case "uint16":
-					err = table.SetUint16ByColIndex(colIndex, rowIndex, row[colIndex].(uint16))
-
-				case "uint32":
-					err = table.SetUint32ByColIndex(colIndex, rowIndex, row[colIndex].(uint32))
-
 				case "uint64":
-					err = table.SetUint64ByColIndex(colIndex, rowIndex, row[colIndex].(uint64))
-
-				case "int8":
-					err = table.SetInt8ByColIndex(colIndex, rowIndex, row[colIndex].(int8))
-
-				case "int16":
-					err = table.SetInt16ByColIndex(colIndex, rowIndex, row[colIndex].(int16))
+					uint64Val, ok := row[colIndex].(uint64)
+					if !ok {
+						return nil, yamlCellError(table, colIndex, row[colIndex])
+					}
+					err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64Val)
 
 				case "int64":
-					err = table.SetInt64ByColIndex(colIndex, rowIndex, row[colIndex].(int64))
+					int64Val, ok := row[colIndex].(int64)
+					if !ok {
+						return nil, yamlCellError(table, colIndex, row[colIndex])
+					}
+					err = table.SetInt64ByColIndex(colIndex, rowIndex, int64Val)
 
 				case "*Table":
 					var tableOut *Table
-					tableOut, err = newTableFromYAML_recursive(row[colIndex].(map[string]interface{}))
+					nestedMap, ok := row[colIndex].(map[string]interface{})
+					if !ok {
+						return nil, yamlCellError(table, colIndex, row[colIndex])
+					}
+					tableOut, err = newTableFromYAML_recursive(nestedMap)
 					if err != nil {
-						return
+						return nil, err
 					}
 					err = table.SetTableByColIndex(colIndex, rowIndex, tableOut)
 
@@ -321,11 +332,14 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 						sliceVal = row[colIndex].([]interface{})
 						byteSliceVal = make([]byte, len(sliceVal))
 						for i := 0; i < len(sliceVal); i++ {
-							var intVal int = sliceVal[i].(int)
+							intVal, ok := sliceVal[i].(int)
+							if !ok || int(byte(intVal)) != intVal {
+								return nil, yamlCellError(table, colIndex, sliceVal[i])
+							}
 							byteSliceVal[i] = byte(intVal)
 						}
-					case interface{}:
 					default:
+						return nil, yamlCellError(table, colIndex, row[colIndex])
 					}
 					switch table.colTypes[colIndex] {
 					case "[]byte":
@@ -370,6 +384,11 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 	return
 }
 
+func yamlCellError(table *Table, colIndex int, val interface{}) error {
+	return fmt.Errorf("in YAML doc: table [%s] col %s of type %s: unexpected value of type %T: %v",
+		table.Name(), table.colNames[colIndex], table.colTypes[colIndex], val, val)
+}
+
 func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 
 	if tableSet == nil {
-- 
2.43.0


From 665d4f4dd0a3972e6f5cf47f9b6ceeb20af3dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 47/70] fix: YAML: refuse numbers that do not fit the col type

---
 yaml.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/yaml.go b/yaml.go
index 1ffad6f..40ef546 100644
--- a/yaml.go
+++ b/yaml.go
@@ -3,6 +3,7 @@ package gotables
 import (
 	_ "encoding/json"
 	"fmt"
+	"math"
 	_ "os"
 	_ "strings"
 	"time"
@@ -215,6 +216,9 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 				err = table.SetUintByColIndex(colIndex, rowIndex, row[colIndex].(uint))
 			case int:
 				var intVal = row[colIndex].(int)
+				if !intFitsColType(intVal, table.colTypes[colIndex]) {
+					return nil, yamlCellError(table, colIndex, row[colIndex])
+				}
 				switch table.colTypes[colIndex] {
 				case "int":
 					err = table.SetIntByColIndex(colIndex, rowIndex, row[colIndex].(int))
@@ -264,6 +268,9 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 				switch table.colTypes[colIndex] {
 				case "float32":
 					var float64Val float64 = row[colIndex].(float64)
+					if math.IsInf(float64(float32(float64Val)), 0) && !math.IsInf(float64Val, 0) {
+						return nil, yamlCellError(table, colIndex, row[colIndex])
+					}
 					err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(float64Val))
 				case "float64":
 					err = table.SetFloat64ByColIndex(colIndex, rowIndex, row[colIndex].(float64))
@@ -389,6 +396,27 @@ func yamlCellError(table *Table, colIndex int, val interface{}) error {
 		table.Name(), table.colNames[colIndex], table.colTypes[colIndex], val, val)
 }
 
+// Is intVal in the range of colType? (Types other than integer types are not checked.)
+func intFitsColType(intVal int, colType string) bool {
+	switch colType {
+	case "int8":
+		return int(int8(intVal)) == intVal
+	case "int16":
+		return int(int16(intVal)) == intVal
+	case "int32", "rune":
+		return int(int32(intVal)) == intVal
+	case "uint8", "byte":
+		return int(uint8(intVal)) == intVal
+	case "uint16":
+		return int(uint16(intVal)) == intVal
+	case "uint32":
+		return int(uint32(intVal)) == intVal
+	case "uint", "uint64":
+		return intVal >= 0
+	}
+	return true
+}
+
 func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 
 	if tableSet == nil {
-- 
2.43.0


From 68965a377fcdaf66878896a63960f6fcdcaba9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 48/70] fix: GOB: encode and decode sort keys

---
 gob.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/gob.go b/gob.go
index 978b96b..50fd593 100644
--- a/gob.go
+++ b/gob.go
@@ -68,7 +68,7 @@ func (table *Table) exportTable() (*TableExported, error) {
 		return nil, err
 	}
 
-	tableExported.SortKeys = []SortKeyExported{}
+	tableExported.SortKeys = make([]SortKeyExported, len(table.sortKeys))
 	for keyIndex, _ := range table.sortKeys {
 		tableExported.SortKeys[keyIndex] = SortKeyExported{}
 		tableExported.SortKeys[keyIndex].ColName = table.sortKeys[keyIndex].colName
@@ -131,15 +131,6 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 		return nil, err
 	}
 
-	table.sortKeys = []sortKey{}
-	for keyIndex, _ := range table.sortKeys {
-		table.sortKeys[keyIndex] = sortKey{}
-		table.sortKeys[keyIndex].colName = tableExported.SortKeys[keyIndex].ColName
-		table.sortKeys[keyIndex].colType = tableExported.SortKeys[keyIndex].ColType
-		table.sortKeys[keyIndex].reverse = tableExported.SortKeys[keyIndex].Reverse
-		table.sortKeys[keyIndex].sortFunc = tableExported.SortKeys[keyIndex].SortFunc
-	}
-
 	table.isStructShape = tableExported.StructShape
 
 	isValid, err = table.IsValidTable()
@@ -147,6 +138,16 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 		return nil, err
 	}
 
+	// GOB does not encode functions, so AppendSortKey() looks up the sort function of each sort key.
+	table.sortKeys = newSortKeys()
+	for keyIndex, _ := range tableExported.SortKeys {
+		err = table.AppendSortKey(tableExported.SortKeys[keyIndex].ColName)
+		if err != nil {
+			return nil, err
+		}
+		table.sortKeys[keyIndex].reverse = tableExported.SortKeys[keyIndex].Reverse
+	}
+
 	return table, nil
 }
 
-- 
2.43.0


From df289ba9e750ec941c35fcf5f65047b4252a4c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 49/70] fix: GOB: return errors for a nil table set and an
 empty buffer

---
 gob.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gob.go b/gob.go
index 50fd593..7d7ff7a 100644
--- a/gob.go
+++ b/gob.go
@@ -192,6 +192,10 @@ func (tableSet *TableSet) GobEncode() ([]bytes.Buffer, error) {
 	var encodedTableSet []bytes.Buffer
 	var err error
 
+	if tableSet == nil {
+		return emptyBuffer, fmt.Errorf("tableSet.%s() tableSet is <nil>", UtilFuncName())
+	}
+
 	for tableIndex := 0; tableIndex < len(tableSet.tables); tableIndex++ {
 		var table *Table = tableSet.tables[tableIndex]
 		var encodedTable *bytes.Buffer
@@ -254,6 +258,11 @@ func NewTableSetFromGob(buffer []bytes.Buffer) (*TableSet, error) {
 func GobDecodeTableSet(buffer []bytes.Buffer) (*TableSet, error) {
 	var tableSet *TableSet
 	var err error
+
+	if len(buffer) == 0 {
+		return nil, fmt.Errorf("%s: buffer is empty: there is no table set header", UtilFuncName())
+	}
+
 	tableSet, err = NewTableSet("")
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 51e20d6c9e8ed2785292477ecc0bdf959c06bfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 50/70] fix: GOB: refuse cell values which are not of their col
 type

---
 gob.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gob.go b/gob.go
index 7d7ff7a..6450b09 100644
--- a/gob.go
+++ b/gob.go
@@ -138,6 +138,16 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 		return nil, err
 	}
 
+	// The type of each cell value is not part of IsValidTable()
+	for rowIndex := 0; rowIndex < rowCount; rowIndex++ {
+		for colIndex := 0; colIndex < colCount; colIndex++ {
+			isValid, err = table.IsValidCellValue(table.colNames[colIndex], table.rows[rowIndex][colIndex])
+			if !isValid {
+				return nil, err
+			}
+		}
+	}
+
 	// GOB does not encode functions, so AppendSortKey() looks up the sort function of each sort key.
 	table.sortKeys = newSortKeys()
 	for keyIndex, _ := range tableExported.SortKeys {
-- 
2.43.0


From 13e6640a59a63987bbd9ee9457d013dadc449f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 51/70] fix: YAML: strings of several lines beginning with
 white space read back exactly

---
 yaml.go | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/yaml.go b/yaml.go
index 40ef546..c0ffaea 100644
--- a/yaml.go
+++ b/yaml.go
@@ -5,8 +5,9 @@ import (
 	"fmt"
 	"math"
 	_ "os"
-	_ "strings"
+	"strings"
 	"time"
+	"unicode"
 
 	yaml "gopkg.in/yaml.v3"
 )
@@ -430,7 +431,7 @@ func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 	}
 
 	var yamlBytes []byte
-	yamlBytes, err = yaml.Marshal(yamlMap)
+	yamlBytes, err = yaml.Marshal(quoteIndentedText(yamlMap))
 	if err != nil {
 		return "", err
 	}
@@ -440,6 +441,44 @@ func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 	return
 }
 
+/*
+	yaml.v3 writes a text of several lines which begins with white space as a block it reads back differently.
+	Return a copy of val which has such strings in double quotes.
+*/
+func quoteIndentedText(val interface{}) interface{} {
+	switch val := val.(type) {
+	case string:
+		if strings.Contains(val, "\n") && strings.TrimLeftFunc(val, unicode.IsSpace) != val {
+			return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Style: yaml.DoubleQuotedStyle, Value: val}
+		}
+	case map[string]interface{}:
+		out := make(map[string]interface{}, len(val))
+		for key, elem := range val {
+			out[key] = quoteIndentedText(elem)
+		}
+		return out
+	case []map[string]interface{}:
+		out := make([]interface{}, len(val))
+		for i, elem := range val {
+			out[i] = quoteIndentedText(elem)
+		}
+		return out
+	case [][]interface{}:
+		out := make([]interface{}, len(val))
+		for i, elem := range val {
+			out[i] = quoteIndentedText(elem)
+		}
+		return out
+	case []interface{}:
+		out := make([]interface{}, len(val))
+		for i, elem := range val {
+			out[i] = quoteIndentedText(elem)
+		}
+		return out
+	}
+	return val
+}
+
 func (tableSet *TableSet) GetTableSetAsMap() (yamlMap map[string]interface{}, err error) {
 
 	if tableSet == nil {
-- 
2.43.0


From e391e2b883436595cb32a25ffecf23a76462cf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 52/70] fix: Nest: a table without sort keys takes those of
 nestable

---
 nest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nest.go b/nest.go
index 38bb58a..1069b5f 100644
--- a/nest.go
+++ b/nest.go
@@ -56,7 +56,7 @@ func (table *Table) Nest(nestable *Table, nestColName string) error {
 
 	// Use whichever table has sort keys for the shared keys. table is dominant over nestable.
 	if table.SortKeyCount() == 0 {
-		err = nestable.SetSortKeysFromTable(table)
+		err = table.SetSortKeysFromTable(nestable)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 239a7d7a30ef94b1f0cf67381f6884d3189a7672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 53/70] fix: Nest: a row without matching rows in nestable gets
 a table without rows

---
 nest.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/nest.go b/nest.go
index 1069b5f..83b118b 100644
--- a/nest.go
+++ b/nest.go
@@ -110,13 +110,20 @@ func (table *Table) Nest(nestable *Table, nestColName string) error {
 			}
 		}
 
+		nestTableName := nestColName
+		var newTable *Table
+
 		firstRow, lastRow, err := nestable.SearchRange(keys...)
 		if err != nil {
-			return err
+			// No matching rows. The search terms themselves are valid.
+			newTable, err = NewTable(nestTableName)
+			if err != nil {
+				return err
+			}
+			err = newTable.AppendColsFromTable(nestable)
+		} else {
+			newTable, err = nestable.NewTableFromRows(nestTableName, firstRow, lastRow)
 		}
-
-		nestTableName := nestColName
-		newTable, err := nestable.NewTableFromRows(nestTableName, firstRow, lastRow)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From c903c9c734a7d9dce8e23ab7ef6a948e21351c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 54/70] fix: Nest: what it refuses is left unchanged

---
 nest.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/nest.go b/nest.go
index 83b118b..e450ada 100644
--- a/nest.go
+++ b/nest.go
@@ -54,6 +54,41 @@ func (table *Table) Nest(nestable *Table, nestColName string) error {
 		return fmt.Errorf("table.%s(nestable, nestColName): nestable is <nil>", UtilFuncName())
 	}
 
+	// Check everything that can be wrong before changing anything.
+	if table.isNilTable {
+		return fmt.Errorf("table.%s: table is an unnamed NilTable. Call table.SetName() to un-Nil it", UtilFuncName())
+	}
+
+	if isValid, err := IsValidColName(nestColName); !isValid {
+		return err
+	}
+
+	if hasCol, _ := table.HasCol(nestColName); hasCol {
+		return fmt.Errorf("table [%s].%s(nestable, nestColName): col already exists: %s", table.Name(), UtilFuncName(), nestColName)
+	}
+
+	var sharedKeys SortKeys = table.sortKeys
+	if len(sharedKeys) == 0 {
+		sharedKeys = nestable.sortKeys
+	}
+	if len(sharedKeys) == 0 {
+		return fmt.Errorf("table [%s].%s(nestable, nestColName): neither table has sort keys", table.Name(), UtilFuncName())
+	}
+	for _, key := range sharedKeys {
+		tableColType, err := table.ColType(key.colName)
+		if err != nil {
+			return err
+		}
+		nestableColType, err := nestable.ColType(key.colName)
+		if err != nil {
+			return err
+		}
+		if tableColType != nestableColType {
+			return fmt.Errorf("table [%s].%s(nestable, nestColName): sort key col %s is type %s in table but type %s in nestable",
+				table.Name(), UtilFuncName(), key.colName, tableColType, nestableColType)
+		}
+	}
+
 	// Use whichever table has sort keys for the shared keys. table is dominant over nestable.
 	if table.SortKeyCount() == 0 {
 		err = table.SetSortKeysFromTable(nestable)
-- 
2.43.0


From 5e50e3fb7bbae966b6bb20389bce7d95a19522e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 55/70] fix: GetTableAsCSV: an empty value of a table with one
 column is a record

---
 gotables.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gotables.go b/gotables.go
index da983a6..b4edf90 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1791,6 +1791,13 @@ func (table *Table) GetTableAsCSV(optionalSubstituteHeadingNames ...string) (str
 			}
 		}
 
+		if len(record) == 1 && record[0] == "" {
+			// An empty line would not be a record. The csv writer never quotes an empty field.
+			csvWriter.Flush()
+			buf.WriteString("\"\"\n")
+			continue
+		}
+
 		err = csvWriter.Write(record)
 		if err != nil {
 			return "", err
-- 
2.43.0


From ac1132738856632221abc88c3a6382884dcc8562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 10:05:06 +1100
Subject: [PATCH 56/70] fix: generated source calls GetTime/SetTime and
 GetTable/SetTable

---
 generate.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/generate.go b/generate.go
index 949cbdc..38f46a1 100644
--- a/generate.go
+++ b/generate.go
@@ -325,6 +325,12 @@ func typeProper(typeName string) string {
 
 // Returns getter/setter name without Get/Set prefix
 func accessorName(typeName string) string {
+	switch typeName {
+	case "time.Time":
+		return "Time"
+	case "*Table":
+		return "Table"
+	}
 	if strings.HasPrefix(typeName, "[]") {
 		return fmt.Sprintf("%sSlice", typeProper(typeName[2:]))
 	} else {
-- 
2.43.0


From efa1f850d6b264300f304cfdd9ec0837a751989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 10:05:09 +1100
Subject: [PATCH 57/70] fix: GenerateTypeStruct: *Table fields are
 *gotables.Table

---
 generate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generate.go b/generate.go
index 38f46a1..f4335f2 100644
--- a/generate.go
+++ b/generate.go
@@ -68,6 +68,9 @@ func (table *Table) GenerateTypeStruct() (string, error) {
 		if err != nil {
 			return "", err
 		}
+		if colType == "*Table" {
+			colType = "*gotables.Table"
+		}
 		buf.WriteString("\t")
 		buf.WriteString(colName)
 		buf.WriteString(" ")
-- 
2.43.0


From a2f1cb5a0d8b046c9138ea81addc7621436ae31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 10:05:12 +1100
Subject: [PATCH 58/70] fix: generated source no longer declares variables
 named after columns

---
 generate.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/generate.go b/generate.go
index f4335f2..4bc4399 100644
--- a/generate.go
+++ b/generate.go
@@ -245,6 +245,10 @@ func (table *Table) GenerateTypeStructSliceFromTable() (string, error) {
 
 	buf.WriteString(fmt.Sprintf("\tvar %s []%s = make([]%s, table.RowCount())\n\n", tableName, tableName, tableName))
 
+	if table.ColCount() > 0 {
+		buf.WriteString("\tvar err error\n\n")
+	}
+
 	buf.WriteString("\tfor rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {\n")
 	var sep string = ""
 	for colIndex := 0; colIndex < table.ColCount(); colIndex++ {
@@ -257,11 +261,11 @@ func (table *Table) GenerateTypeStructSliceFromTable() (string, error) {
 			return "", err
 		}
 		buf.WriteString(sep)
-		buf.WriteString(fmt.Sprintf("\t\t%s, err := table.%s(%q, rowIndex)\n", colName, getterName(colType), colName))
+		buf.WriteString(fmt.Sprintf("\t\t%s[rowIndex].%s, err = table.%s(%q, rowIndex)\n",
+			tableName, colName, getterName(colType), colName))
 		buf.WriteString("\t\tif err != nil {\n")
 		buf.WriteString("\t\t\treturn nil, err\n")
 		buf.WriteString("\t\t}\n")
-		buf.WriteString(fmt.Sprintf("\t\t%s[rowIndex].%s = %s\n", tableName, colName, colName))
 		sep = "\n"
 	}
 
-- 
2.43.0


From 9e53b3c38465310a792268b769edc41c85b40e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:35 +0000
Subject: [PATCH 59/70] fix: StringNested leaves the nested tables as they are

---
 gotables.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/gotables.go b/gotables.go
index b4edf90..51717b3 100644
--- a/gotables.go
+++ b/gotables.go
@@ -4581,7 +4581,7 @@ func (table *Table) IsTableCol(colName string) (isTableCol bool, err error) {
 }
 
 func (table *Table) StringNested() (stringNested string) {
-	table.stringNested_recursive(table.Name(), "", "", 0, &stringNested)
+	table.stringNested_recursive(table.Name(), "", "", 0, &stringNested, map[*Table]struct{}{table: EmptyStruct})
 	return
 }
 
@@ -4613,9 +4613,10 @@ func (tableSet *TableSet) StringNested() (stringNested string) {
 */
 
 var globalDepth int
-func (table *Table) stringNested_recursive(parentTableName string, parentTailName, parentColName string, parentRowIndex int, stringNested *string) {
+func (table *Table) stringNested_recursive(parentTableName string, parentTailName, parentColName string, parentRowIndex int, stringNested *string, path map[*Table]struct{}) {
 //where(fmt.Sprintf("depth=%d [%s]",  globalDepth, table.Name()))
 globalDepth++
+defer func() { globalDepth-- }()
 
 	const debug = true
 
@@ -4668,19 +4669,26 @@ globalDepth++
 				}
 				newName := headName + tailName
 //where(fmt.Sprintf("newName = %s", newName))
-				err = nestedTable.SetName(newName)
-				if err != nil {
-					return
+
+				// A table which (indirectly) contains itself is not printed again inside itself.
+				if _, circular := path[nestedTable]; circular {
+					continue
 				}
+				path[nestedTable] = EmptyStruct
+
+				// Print a renamed (shallow) copy: the nested table itself keeps its name.
+				renamed := *nestedTable
+				renamed.tableName = newName
+				renamed.isNilTable = false
 
 // where(fmt.Sprintf("\n>>> nestedTable.stringNested_recursive(%q, %q, %d, stringNested=\n%s)",
 // table.Name(), colName, rowIndex, *stringNested))
-				nestedTable.stringNested_recursive(headName, tailName, colName, rowIndex, stringNested)
+				renamed.stringNested_recursive(headName, tailName, colName, rowIndex, stringNested, path)
+
+				delete(path, nestedTable)
 			}
 		}
 	}
 
-	globalDepth--
-
 	return
 }
-- 
2.43.0


From f5eb6fccd9ae935abdaa00d841f04cb32ad96795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:42 +0000
Subject: [PATCH 60/70] fix: generated source in the documentation of
 GenerateTypeStructSliceFromTable

---
 generate.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/generate.go b/generate.go
index 4bc4399..3b4e9a2 100644
--- a/generate.go
+++ b/generate.go
@@ -160,36 +160,33 @@ func (tableSet *TableSet) generateTypeStructSet() (string, error) {
 
 		        var MyTable []MyTable = make([]MyTable, table.RowCount())
 
+		        var err error
+
 		        for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
-		                f, err := table.GetFloat32("f", rowIndex)
+		                MyTable[rowIndex].f, err = table.GetFloat32("f", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].f = f
 
-		                b, err := table.GetBool("b", rowIndex)
+		                MyTable[rowIndex].b, err = table.GetBool("b", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].b = b
 
-		                i, err := table.GetInt("i", rowIndex)
+		                MyTable[rowIndex].i, err = table.GetInt("i", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].i = i
 
-		                str, err := table.GetString("str", rowIndex)
+		                MyTable[rowIndex].str, err = table.GetString("str", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].str = str
 
-		                bb, err := table.GetByteSlice("bb", rowIndex)
+		                MyTable[rowIndex].bb, err = table.GetByteSlice("bb", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].bb = bb
 		        }
 
 		        return MyTable, nil
-- 
2.43.0


From 05b79e54c0a4b7e1b73e00e28a3d258c5e817dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 61/70] fix: GOB: derive the col names map from the col names
 when decoding

---
 gob.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gob.go b/gob.go
index 6450b09..ecd9251 100644
--- a/gob.go
+++ b/gob.go
@@ -117,8 +117,11 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 	}
 
 	table.colNamesMap = map[string]int{}
-	for key, val := range tableExported.ColNamesMap {
-		table.colNamesMap[key] = val
+	for colIndex, colName := range table.colNames {
+		if _, exists := table.colNamesMap[colName]; exists {
+			return nil, fmt.Errorf("importTable() [%s] col already exists: %s", tableName, colName)
+		}
+		table.colNamesMap[colName] = colIndex
 	}
 
 	var rowCount int = len(tableExported.Rows)
-- 
2.43.0


From def3225d8ef88a6157b33a611735df4fe7f6b090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 62/70] fix: GOB: check cell types before walking the decoded
 table

---
 gob.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/gob.go b/gob.go
index ecd9251..f102eab 100644
--- a/gob.go
+++ b/gob.go
@@ -136,13 +136,12 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 
 	table.isStructShape = tableExported.StructShape
 
-	isValid, err = table.IsValidTable()
-	if !isValid {
-		return nil, err
-	}
-
-	// The type of each cell value is not part of IsValidTable()
+	// The type of each cell value is not part of IsValidTable(), which depends on it.
 	for rowIndex := 0; rowIndex < rowCount; rowIndex++ {
+		if len(table.rows[rowIndex]) != colCount {
+			return nil, fmt.Errorf("importTable() [%s] row %d: expecting %d cells but found: %d",
+				tableName, rowIndex, colCount, len(table.rows[rowIndex]))
+		}
 		for colIndex := 0; colIndex < colCount; colIndex++ {
 			isValid, err = table.IsValidCellValue(table.colNames[colIndex], table.rows[rowIndex][colIndex])
 			if !isValid {
@@ -151,6 +150,11 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 		}
 	}
 
+	isValid, err = table.IsValidTable()
+	if !isValid {
+		return nil, err
+	}
+
 	// GOB does not encode functions, so AppendSortKey() looks up the sort function of each sort key.
 	table.sortKeys = newSortKeys()
 	for keyIndex, _ := range tableExported.SortKeys {
-- 
2.43.0


From 44e67812cf3c12083ae98266917bd68837a29e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:42 +0000
Subject: [PATCH 63/70] fix: padded text reads back as the same float where the
 shortest form is not the nearest

---
 gotables.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gotables.go b/gotables.go
index 51717b3..09cbc23 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1372,6 +1372,10 @@ func printMatrix(tableName string, matrix [][]string, width []int, precis []int,
 						return ""
 					}
 					toWrite = strconv.FormatFloat(float64Val, 'f', precis[col], bits)
+					// The shortest form of a float is not always the nearest to it: rounded to as many places, it may be another float.
+					if rounded, err := strconv.ParseFloat(toWrite, bits); err == nil && rounded != float64Val && float64Val == float64Val {
+						toWrite = matrix[col][row]
+					}
 					//					width[col] = max(width[col], len(toWrite))
 				}
 				//				s = fmt.Sprintf("%s%*s", sep, width[col], matrix[col][row])	// Align right
-- 
2.43.0


From 0b940a5acc5e756cf3ce49cbb384b76f6b3ace56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:03 +0000
Subject: [PATCH 64/70] fix: refuse JSON data which is not an array of rows

---
 json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json.go b/json.go
index 23c6155..844049c 100644
--- a/json.go
+++ b/json.go
@@ -343,6 +343,9 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 	var data []interface{}
 	data, exists = jsonMap["data"].([]interface{})
 	if !exists {
+		if jsonMap["data"] != nil {
+			return nil, fmt.Errorf("expecting an array of rows from JSON data but got type %T: %v", jsonMap["data"], jsonMap["data"])
+		}
 		// Zero rows in this table. That's okay.
 		return table, nil
 	}
-- 
2.43.0


From a06e3bee59e72d1a2ea20e421b8100117ea27ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:07 +0000
Subject: [PATCH 65/70] fix: refuse a JSON cell which is not given under the
 name of its col

---
 json.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index 844049c..866a0ea 100644
--- a/json.go
+++ b/json.go
@@ -373,8 +373,12 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 			if !isMap {
 				return nil, fmt.Errorf("expecting a cell from JSON but got type %T: %v", val, val)
 			}
+			if _, exists = cellMap[table.colNames[colIndex]]; !exists || len(cellMap) != 1 {
+				return nil, fmt.Errorf("expecting one JSON cell of col %q in row %d but got: %v",
+					table.colNames[colIndex], rowIndex, cellMap)
+			}
 			for _, cell = range cellMap {
-				// There's only one map element here: colName and colType.
+				// There's only one map element here: colName and cell value.
 				// where(fmt.Sprintf("\t\t\tcol=%d row=%d celltype=%T cell=%v", colIndex, rowIndex, cell, cell))
 
 				var colType string = table.colTypes[colIndex]
-- 
2.43.0


From c81b2a0d2412bfdcf673ea2525e7ce8ce8fca464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:23 +0000
Subject: [PATCH 66/70] fix: refuse text after a JSON document

---
 json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/json.go b/json.go
index 866a0ea..44ce2f4 100644
--- a/json.go
+++ b/json.go
@@ -637,6 +637,10 @@ func NewTableSetFromJSON(jsonTableSetString string) (tableSet *TableSet, err err
 	if err != nil {
 		return nil, err
 	}
+	_, err = decoder.Token()
+	if err != io.EOF {
+		return nil, fmt.Errorf("%s: expecting one JSON document but found more text after it", UtilFuncName())
+	}
 
 	// (1) Retrieve and process TableSet name.
 	var tableSetName string
-- 
2.43.0


From 85f80087d1a82c2c1e2066c8c59f706faa4d4be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:26 +0000
Subject: [PATCH 67/70] fix: refuse YAML data which is not rows of cells

---
 yaml.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaml.go b/yaml.go
index c0ffaea..fae168d 100644
--- a/yaml.go
+++ b/yaml.go
@@ -188,7 +188,9 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 				data[i] = append(data[i], el2)
 			}
 		}
+	case nil:
 	default:
+		return nil, fmt.Errorf("%s %s: in YAML doc: expecting 'data' to be rows of cells but got type %T", UtilFuncSource(), UtilFuncName(), whatever)
 	}
 
 	whatever, exists = existsInMap(tableMap, "data")
-- 
2.43.0


From 514e8bfe42a56d3d8d255a932e6860be1856d2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:29 +0000
Subject: [PATCH 68/70] fix: refuse a GOB table with more col types than col
 names

---
 gob.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gob.go b/gob.go
index f102eab..03d4c33 100644
--- a/gob.go
+++ b/gob.go
@@ -110,9 +110,9 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 
 	table.colTypes = make([]string, colCount)
 	elementCount = copy(table.colTypes, tableExported.ColTypes)
-	if elementCount != colCount {
+	if elementCount != colCount || len(tableExported.ColTypes) != colCount {
 		err = fmt.Errorf("importTable() [%s] expecting to import %d col types but imported: %d",
-			tableName, colCount, elementCount)
+			tableName, colCount, len(tableExported.ColTypes))
 		return nil, err
 	}
 
-- 
2.43.0


From aa57fe992ee1516a9ab3e0ede2b9577b1ad36303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:21 +0000
Subject: [PATCH 69/70] fix: take a JSON number with a fraction or an exponent
 into an integer col exactly or not at all

---
 json.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/json.go b/json.go
index 44ce2f4..f92ecaa 100644
--- a/json.go
+++ b/json.go
@@ -5,7 +5,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
-	"math"
 	_ "os"
 	"reflect"
 	"regexp"
@@ -765,11 +764,39 @@ func uintFromJSON(number json.Number, bitSize int) (uint64, error) {
 
 // The digits of a JSON number written with a fraction or an exponent, if it is a whole number.
 func wholeNumber(number json.Number) (digits string, ok bool) {
-	floatVal, err := number.Float64()
-	if err != nil || floatVal != math.Trunc(floatVal) || math.Abs(floatVal) > 1<<53 {
+	const maxDigits = 20 // The largest uint64 has 20 digits.
+
+	mantissa, exponent := number.String(), 0
+	if i := strings.IndexAny(mantissa, "eE"); i >= 0 {
+		var err error
+		exponent, err = strconv.Atoi(mantissa[i+1:])
+		if err != nil {
+			return "", false
+		}
+		mantissa = mantissa[:i]
+	}
+
+	var sign string
+	if strings.HasPrefix(mantissa, "-") {
+		sign, mantissa = "-", mantissa[1:]
+	}
+
+	if i := strings.IndexByte(mantissa, '.'); i >= 0 {
+		exponent -= len(mantissa) - i - 1
+		mantissa = mantissa[:i] + mantissa[i+1:]
+	}
+
+	digits = strings.TrimRight(mantissa, "0")
+	exponent += len(mantissa) - len(digits)
+	digits = strings.TrimLeft(digits, "0")
+	if digits == "" {
+		return "0", true
+	}
+	if exponent < 0 || exponent > maxDigits {
 		return "", false
 	}
-	return strconv.FormatFloat(floatVal, 'f', 0, 64), true
+
+	return sign + digits + strings.Repeat("0", exponent), true
 }
 
 // Quote s as a JSON string. Go's %q is not JSON: it escapes some characters in ways JSON does not know.
-- 
2.43.0


From 3b21c39248447036d5af4627ad6b3440a84a0cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:11 +0000
Subject: [PATCH 70/70] fix: merge tables that have a col named _TABLE_ or
 _DELETE_

---
 merge.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index 6aa9624..59fdaf5 100644
--- a/merge.go
+++ b/merge.go
@@ -138,8 +138,19 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 
 	var tempColCount int // To ignore temporary columns.
 
+	// Local function.
+	// Temporary columns must not have the name of a column of either table.
+	unusedColName := func(colName string) string {
+		for {
+			if exists, _ := merged.HasCol(colName); !exists {
+				return colName
+			}
+			colName += "_"
+		}
+	}
+
 	// Add a column to keep track of which columns came from which table.
-	const tableNumberColName = "_TABLE_"
+	tableNumberColName := unusedColName("_TABLE_")
 	err = merged.AppendCol(tableNumberColName, "int")
 	if err != nil {
 		return nil, err
@@ -207,7 +218,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 	}
 
 	// Add a column to keep track of which columns are duplicates, to be deleted later.
-	const deleteColName = "_DELETE_"
+	deleteColName := unusedColName("_DELETE_")
 	err = merged.AppendCol(deleteColName, "bool")
 	if err != nil {
 		return nil, err
-- 
2.43.0


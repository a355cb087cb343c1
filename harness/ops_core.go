package main

// Registry of the calls the traces consist of: construction, rows, columns, cells, lookups.

import (
	"errors"
	"fmt"
	"strings"

	g "github.com/urban-wombat/gotables"
)

type opDef struct {
	gen   func(c *Ctx) M
	exec  func(c *Ctx, a Args, r M) error
	makes bool // creates a new root table
}

var ops = map[string]*opDef{}
var opNames []string

func reg(name string, gen func(c *Ctx) M, exec func(c *Ctx, a Args, r M) error) *opDef {
	o := &opDef{gen: gen, exec: exec}
	ops[name] = o
	opNames = append(opNames, name)
	return o
}
func (o *opDef) mk() { o.makes = true }

// ret registers a returned table under "h".
func (c *Ctx) ret(r M, t *g.Table, err error) error {
	r["h"] = 0
	if t != nil {
		r["h"] = c.newRoot(t)
	}
	return err
}

func toCols(x interface{}) []PCol {
	switch y := x.(type) {
	case []PCol:
		return y
	case []interface{}:
		out := []PCol{}
		for _, z := range y {
			m := z.(map[string]interface{})
			out = append(out, PCol{m["n"].(string), m["t"].(string)})
		}
		return out
	}
	panic("harness: cols")
}
func toRows(x interface{}) [][]int {
	switch y := x.(type) {
	case [][]int:
		return y
	case []interface{}:
		out := [][]int{}
		for _, z := range y {
			row := []int{}
			for _, v := range z.([]interface{}) {
				row = append(row, int(v.(float64)))
			}
			out = append(out, row)
		}
		return out
	}
	panic("harness: rows")
}

func must(err error) {
	if err != nil {
		panic(err.Error())
	}
}

func init() {
	reg("Reset", nil, func(c *Ctx, a Args, r M) error { return nil })

	// Build makes a whole table through the public API (a setup step).
	reg("Build", func(c *Ctx) M { return c.buildSpec(c.prof.maxCols, c.prof.maxRows) }, func(c *Ctx, a Args, r M) error {
		t, err := g.NewTable(a.s("nm"))
		if err != nil {
			return err
		}
		cols, rows := toCols(a["cols"]), toRows(a["rows"])
		for _, col := range cols {
			if err := t.AppendCol(col.N, col.T); err != nil {
				return err
			}
		}
		for i, row := range rows {
			if err := t.AppendRow(); err != nil {
				return err
			}
			for j, tok := range row {
				if cols[j].T == "*Table" {
					if tok == 0 {
						continue
					}
					if err := t.SetTableByColIndex(j, i, c.tabs[tok]); err != nil {
						return err
					}
					continue
				}
				if err := t.SetValByColIndex(j, i, c.p.val(cols[j].T, tok)); err != nil {
					return err
				}
			}
		}
		if ks, ok := a["keys"]; ok {
			names, revs := []string{}, []string{}
			for _, k := range ks.([]interface{}) {
				m := k.(map[string]interface{})
				names = append(names, m["c"].(string))
				if m["r"].(bool) {
					revs = append(revs, m["c"].(string))
				}
			}
			if len(names) > 0 {
				if err := t.SetSortKeys(names...); err != nil {
					return err
				}
				if len(revs) > 0 {
					if err := t.SetSortKeysReverse(revs...); err != nil {
						return err
					}
				}
			}
		}
		return c.ret(r, t, nil)
	}).mk()

	reg("NewTable", func(c *Ctx) M { return M{"nm": c.tabN()} }, func(c *Ctx, a Args, r M) error {
		t, err := g.NewTable(a.s("nm"))
		return c.ret(r, t, err)
	}).mk()
	reg("NewNilTable", func(c *Ctx) M { return M{} }, func(c *Ctx, a Args, r M) error {
		return c.ret(r, g.NewNilTable(), nil)
	}).mk()
	reg("NewTableFromMetadata", func(c *Ctx) M {
		ns, ts := []string{}, []string{}
		names := c.colNm()
		pm := c.r.Perm(len(names))
		n := c.r.Intn(c.prof.maxCols + 2)
		if n > len(names) {
			n = len(names)
		}
		for i := 0; i < n; i++ {
			ns = append(ns, names[pm[i]])
			ts = append(ts, c.typ())
		}
		if c.bad() {
			switch c.r.Intn(4) {
			case 0:
				ts = append(ts, "int")
			case 1:
				ns = append(ns, "q")
			case 2:
				if n > 0 {
					ns, ts = append(ns, ns[0]), append(ts, ts[0])
				}
			case 3:
				if n > 0 {
					ns[c.r.Intn(n)] = badColNames[c.r.Intn(len(badColNames))]
				}
			}
		}
		return M{"nm": c.tabN(), "ns": ns, "ts": ts}
	}, func(c *Ctx, a Args, r M) error {
		t, err := g.NewTableFromMetadata(a.s("nm"), a.ss("ns"), a.ss("ts"))
		return c.ret(r, t, err)
	}).mk()

	// ---- rows ----
	onT := func(name string, f func(t *g.Table) error) {
		reg(name, func(c *Ctx) M { return M{"t": c.pickT()} }, func(c *Ctx, a Args, r M) error { return f(c.tab(a, "t")) })
	}
	onT("AppendRow", (*g.Table).AppendRow)
	reg("AppendRows", func(c *Ctx) M {
		n := c.r.Intn(4)
		if c.prof.maxRows > 8 && c.r.Intn(16) == 0 || c.prof.maxRows > 50 && c.pct(50) { // many rows at once
			n = 60 + c.r.Intn(80)
		}
		if c.bad() {
			n = -1 - c.r.Intn(3)
		}
		return M{"t": c.pickT(), "n": n}
	}, func(c *Ctx, a Args, r M) error { return c.tab(a, "t").AppendRows(a.i("n")) })
	reg("DeleteRow", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "i": c.rowI(h)} },
		func(c *Ctx, a Args, r M) error { return c.tab(a, "t").DeleteRow(a.i("i")) })
	reg("DeleteRows", func(c *Ctx) M {
		h := c.pickT()
		i, j := c.rowI(h), c.rowI(h)
		if i > j && !c.bad() {
			i, j = j, i
		}
		return M{"t": h, "i": i, "j": j}
	}, func(c *Ctx, a Args, r M) error { return c.tab(a, "t").DeleteRows(a.i("i"), a.i("j")) })
	onT("DeleteRowsAll", (*g.Table).DeleteRowsAll)
	onT("Reverse", (*g.Table).Reverse)
	onT("ShuffleRandom", (*g.Table).ShuffleRandom)
	onT("ShufflePseudorandom", (*g.Table).ShufflePseudorandom)

	// ---- columns ----
	reg("AppendCol", func(c *Ctx) M {
		h := c.pickT()
		if len(c.st(h).Cols) >= c.prof.maxCols+3 {
			return nil
		}
		return M{"t": h, "c": c.newColN(h), "ty": c.typ()}
	}, func(c *Ctx, a Args, r M) error { return c.tab(a, "t").AppendCol(a.s("c"), a.s("ty")) })
	reg("DeleteCol", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "c": c.colN(h)} },
		func(c *Ctx, a Args, r M) error { return c.tab(a, "t").DeleteCol(a.s("c")) })
	reg("DeleteColByColIndex", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "i": c.colI(h)} },
		func(c *Ctx, a Args, r M) error { return c.tab(a, "t").DeleteColByColIndex(a.i("i")) })
	reg("RenameCol", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "c": c.colN(h), "c2": c.newColN(h)} },
		func(c *Ctx, a Args, r M) error { return c.tab(a, "t").RenameCol(a.s("c"), a.s("c2")) })
	reg("RenameColByColIndex", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "i": c.colI(h), "c2": c.newColN(h)} },
		func(c *Ctx, a Args, r M) error { return c.tab(a, "t").RenameColByColIndex(a.i("i"), a.s("c2")) })
	reg("ReorderCols", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "cs": c.permN(h)} },
		func(c *Ctx, a Args, r M) error { return c.tab(a, "t").ReorderCols(a.ss("cs")...) })
	reg("ReorderColsByColIndex", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "is": c.permI(h)} },
		func(c *Ctx, a Args, r M) error { return c.tab(a, "t").ReorderColsByColIndex(a.is("is")...) })
	reg("NewTableReorderCols", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "cs": c.permN(h)} },
		func(c *Ctx, a Args, r M) error {
			t, err := c.tab(a, "t").NewTableReorderCols(a.ss("cs")...)
			return c.ret(r, t, err)
		}).mk()
	reg("NewTableReorderColsByColIndex", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "is": c.permI(h)} },
		func(c *Ctx, a Args, r M) error {
			t, err := c.tab(a, "t").NewTableReorderColsByColIndex(a.is("is")...)
			return c.ret(r, t, err)
		}).mk()
	reg("SwapCols", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "c": c.colN(h), "c2": c.colN(h)} },
		func(c *Ctx, a Args, r M) error { return c.tab(a, "t").SwapCols(a.s("c"), a.s("c2")) })
	reg("SwapColsByColIndex", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "i": c.colI(h), "j": c.colI(h)} },
		func(c *Ctx, a Args, r M) error { return c.tab(a, "t").SwapColsByColIndex(a.i("i"), a.i("j")) })
	onT("OrderColsBySortKeys", (*g.Table).OrderColsBySortKeys)

	// ---- table attributes ----
	reg("SetName", func(c *Ctx) M { return M{"t": c.pickT(), "nm": c.tabN()} },
		func(c *Ctx, a Args, r M) error { return c.tab(a, "t").SetName(a.s("nm")) })
	reg("RenameTable", func(c *Ctx) M { return M{"t": c.pickT(), "nm": c.tabN()} },
		func(c *Ctx, a Args, r M) error { return c.tab(a, "t").RenameTable(a.s("nm")) })
	reg("SetStructShape", func(c *Ctx) M { return M{"t": c.pickT(), "b": c.pct(50)} },
		func(c *Ctx, a Args, r M) error { return c.tab(a, "t").SetStructShape(a.b("b")) })

	// ---- cells ----
	reg("SetVal", func(c *Ctx) M {
		h := c.pickT()
		n := c.colN(h)
		return M{"t": h, "c": n, "j": c.rowI(h), "v": c.valFor(c.colType(h, n))}
	}, func(c *Ctx, a Args, r M) error {
		return c.tab(a, "t").SetVal(a.s("c"), a.i("j"), c.concrete(a.val("v")))
	})
	reg("SetValByColIndex", func(c *Ctx) M {
		h := c.pickT()
		i := c.colI(h)
		return M{"t": h, "i": i, "j": c.rowI(h), "v": c.valFor(c.colTypeI(h, i))}
	}, func(c *Ctx, a Args, r M) error {
		return c.tab(a, "t").SetValByColIndex(a.i("i"), a.i("j"), c.concrete(a.val("v")))
	})
	typedArgs := func(c *Ctx, set bool) M {
		h := c.pickT()
		m := M{"t": h, "j": c.rowI(h), "must": c.pct(30)}
		ct := ""
		if c.pct(50) {
			n := c.colN(h)
			m["by"], m["c"] = "n", n
			ct = c.colType(h, n)
		} else {
			i := c.colI(h)
			m["by"], m["i"] = "i", i
			ct = c.colTypeI(h, i)
		}
		if c.bad() || !isType(ct) {
			ct = allTypes[c.r.Intn(len(allTypes))]
		} else {
			switch ct { // aliases are interchangeable
			case "byte", "uint8":
				ct = []string{"byte", "uint8"}[c.r.Intn(2)]
			case "[]byte", "[]uint8":
				ct = []string{"[]byte", "[]uint8"}[c.r.Intn(2)]
			case "int32", "rune":
				ct = []string{"int32", "rune"}[c.r.Intn(2)]
			}
		}
		m["ty"] = ct
		if set {
			v := c.tokFor(ct)
			if ct == "*Table" && c.bad() {
				v = 0
			}
			m["v"] = v
		}
		return m
	}
	reg("SetTyped", func(c *Ctx) M { return typedArgs(c, true) }, func(c *Ctx, a Args, r M) error {
		t, ac := c.tab(a, "t"), accessors[a.s("ty")]
		v := c.concrete(Val{a.s("ty"), a.i("v")})
		if a.s("by") == "n" {
			if a.b("must") {
				ac.msetN(t, a.s("c"), a.i("j"), v)
				return nil
			}
			return ac.setN(t, a.s("c"), a.i("j"), v)
		}
		if a.b("must") {
			ac.msetI(t, a.i("i"), a.i("j"), v)
			return nil
		}
		return ac.setI(t, a.i("i"), a.i("j"), v)
	})
	reg("GetTyped", func(c *Ctx) M { return typedArgs(c, false) }, func(c *Ctx, a Args, r M) error {
		t, ac := c.tab(a, "t"), accessors[a.s("ty")]
		var v interface{}
		var err error
		r["v"] = tokMissing
		if a.s("by") == "n" {
			if a.b("must") {
				v = ac.mgetN(t, a.s("c"), a.i("j"))
			} else {
				v, err = ac.getN(t, a.s("c"), a.i("j"))
			}
		} else {
			if a.b("must") {
				v = ac.mgetI(t, a.i("i"), a.i("j"))
			} else {
				v, err = ac.getI(t, a.i("i"), a.i("j"))
			}
		}
		if err != nil {
			return err
		}
		r["v"] = c.tokOf(a.s("ty"), v)
		return nil
	})
	reg("GetVal", func(c *Ctx) M {
		h := c.pickT()
		m := M{"t": h, "j": c.rowI(h), "must": c.pct(30)}
		if c.pct(50) {
			m["by"], m["c"] = "n", c.colN(h)
		} else {
			m["by"], m["i"] = "i", c.colI(h)
		}
		return m
	}, func(c *Ctx, a Args, r M) error {
		t := c.tab(a, "t")
		var v interface{}
		var err error
		r["v"] = tokMissing
		ct := "int"
		if a.s("by") == "n" {
			ct = c.colType(a.i("t"), a.s("c"))
			if a.b("must") {
				v = t.GetValMustGet(a.s("c"), a.i("j"))
			} else {
				v, err = t.GetVal(a.s("c"), a.i("j"))
			}
		} else {
			ct = c.colTypeI(a.i("t"), a.i("i"))
			if a.b("must") {
				v = t.GetValByColIndexMustGet(a.i("i"), a.i("j"))
			} else {
				v, err = t.GetValByColIndex(a.i("i"), a.i("j"))
			}
		}
		if err != nil {
			return err
		}
		r["v"] = c.tokOf(ct, v)
		return nil
	})
	// ReadAll reads every cell of a table by one route.
	routes := []string{"val-n", "val-i", "mval-n", "mval-i", "typed-n", "typed-i", "mtyped-n", "mtyped-i"}
	reg("ReadAll", func(c *Ctx) M { return M{"t": c.pickLive(), "route": routes[c.r.Intn(len(routes))]} }, func(c *Ctx, a Args, r M) error {
		p := c.st(a.i("t"))
		t := c.tab(a, "t")
		out := [][]int{}
		for j := range p.Rows {
			row := []int{}
			for i, col := range p.Cols {
				var v interface{}
				var err error
				ac := accessors[col.T]
				switch a.s("route") {
				case "val-n":
					v, err = t.GetVal(col.N, j)
				case "val-i":
					v, err = t.GetValByColIndex(i, j)
				case "mval-n":
					v = t.GetValMustGet(col.N, j)
				case "mval-i":
					v = t.GetValByColIndexMustGet(i, j)
				case "typed-n":
					v, err = ac.getN(t, col.N, j)
				case "typed-i":
					v, err = ac.getI(t, i, j)
				case "mtyped-n":
					v = ac.mgetN(t, col.N, j)
				case "mtyped-i":
					v = ac.mgetI(t, i, j)
				}
				if err != nil {
					return err
				}
				row = append(row, c.tokOf(col.T, v))
			}
			out = append(out, row)
		}
		r["rows"] = out
		return nil
	})
	reg("SetCellToZeroValue", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "c": c.colN(h), "j": c.rowI(h)} },
		func(c *Ctx, a Args, r M) error { return c.tab(a, "t").SetCellToZeroValue(a.s("c"), a.i("j")) })
	reg("SetCellToZeroValueByColIndex", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "i": c.colI(h), "j": c.rowI(h)} },
		func(c *Ctx, a Args, r M) error { return c.tab(a, "t").SetCellToZeroValueByColIndex(a.i("i"), a.i("j")) })
	reg("SetRowCellsToZeroValue", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "j": c.rowI(h)} },
		func(c *Ctx, a Args, r M) error { return c.tab(a, "t").SetRowCellsToZeroValue(a.i("j")) })
	reg("SetColCellsToZeroValue", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "c": c.colN(h)} },
		func(c *Ctx, a Args, r M) error { return c.tab(a, "t").SetColCellsToZeroValue(a.s("c")) })
	reg("SetColCellsToZeroValueByColIndex", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "i": c.colI(h)} },
		func(c *Ctx, a Args, r M) error { return c.tab(a, "t").SetColCellsToZeroValueByColIndex(a.i("i")) })
	onT("SetAllFloatCellsToNaN", (*g.Table).SetAllFloatCellsToNaN)
	reg("SetColFloatCellsToNaN", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "c": c.colN(h)} },
		func(c *Ctx, a Args, r M) error { return c.tab(a, "t").SetColFloatCellsToNaN(a.s("c")) })
	reg("SetColFloatCellsToNaNByColIndex", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "i": c.colI(h)} },
		func(c *Ctx, a Args, r M) error { return c.tab(a, "t").SetColFloatCellsToNaNByColIndex(a.i("i")) })
	reg("SetFloatCellToNaN", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "c": c.colN(h), "j": c.rowI(h)} },
		func(c *Ctx, a Args, r M) error { return c.tab(a, "t").SetFloatCellToNaN(a.s("c"), a.i("j")) })
	reg("SetFloatCellToNaNByColIndex", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "i": c.colI(h), "j": c.rowI(h)} },
		func(c *Ctx, a Args, r M) error { return c.tab(a, "t").SetFloatCellToNaNByColIndex(a.i("i"), a.i("j")) })
	reg("SetRowFloatCellsToNaN", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "j": c.rowI(h)} },
		func(c *Ctx, a Args, r M) error { return c.tab(a, "t").SetRowFloatCellsToNaN(a.i("j")) })

	// ---- lookups ----
	// Lookup answers: b (bool), n (int), s (string); absent ones keep their neutral value.
	lk := func(name string, gen func(c *Ctx, h int) M, f func(c *Ctx, t *g.Table, a Args, r M) error) {
		reg(name, func(c *Ctx) M {
			h := c.pickT()
			m := M{}
			if gen != nil {
				m = gen(c, h)
			}
			m["t"] = h
			return m
		}, func(c *Ctx, a Args, r M) error {
			r["b"], r["n"], r["s"] = false, -99, ""
			return f(c, c.tab(a, "t"), a, r)
		})
	}
	byC := func(c *Ctx, h int) M { return M{"c": c.colN(h)} }
	byI := func(c *Ctx, h int) M { return M{"i": c.colI(h)} }
	byJ := func(c *Ctx, h int) M { return M{"j": c.rowI(h)} }
	byCJ := func(c *Ctx, h int) M { return M{"c": c.colN(h), "j": c.rowI(h)} }
	byIJ := func(c *Ctx, h int) M { return M{"i": c.colI(h), "j": c.rowI(h)} }
	lk("ColCount", nil, func(c *Ctx, t *g.Table, a Args, r M) error { r["n"] = t.ColCount(); return nil })
	lk("RowCount", nil, func(c *Ctx, t *g.Table, a Args, r M) error { r["n"] = t.RowCount(); return nil })
	lk("Name", nil, func(c *Ctx, t *g.Table, a Args, r M) error { r["s"] = t.Name(); return nil })
	lk("SortKeyCount", nil, func(c *Ctx, t *g.Table, a Args, r M) error { r["n"] = t.SortKeyCount(); return nil })
	lk("IsNilTable", nil, func(c *Ctx, t *g.Table, a Args, r M) error { b, err := t.IsNilTable(); r["b"] = b; return err })
	lk("IsStructShape", nil, func(c *Ctx, t *g.Table, a Args, r M) error { b, err := t.IsStructShape(); r["b"] = b; return err })
	lk("IsValidTable", nil, func(c *Ctx, t *g.Table, a Args, r M) error { b, err := t.IsValidTable(); r["b"] = b; return err })
	lk("HasCol", byC, func(c *Ctx, t *g.Table, a Args, r M) error { b, err := t.HasCol(a.s("c")); r["b"] = b; return err })
	lk("HasColByColIndex", byI, func(c *Ctx, t *g.Table, a Args, r M) error {
		b, err := t.HasColByColIndex(a.i("i"))
		r["b"] = b
		return err
	})
	lk("HasRow", byJ, func(c *Ctx, t *g.Table, a Args, r M) error { b, err := t.HasRow(a.i("j")); r["b"] = b; return err })
	lk("HasCell", byCJ, func(c *Ctx, t *g.Table, a Args, r M) error {
		b, err := t.HasCell(a.s("c"), a.i("j"))
		r["b"] = b
		return err
	})
	lk("HasCellByColIndex", byIJ, func(c *Ctx, t *g.Table, a Args, r M) error {
		b, err := t.HasCellByColIndex(a.i("i"), a.i("j"))
		r["b"] = b
		return err
	})
	lk("ColIndex", byC, func(c *Ctx, t *g.Table, a Args, r M) error { n, err := t.ColIndex(a.s("c")); r["n"] = n; return err })
	lk("ColName", byI, func(c *Ctx, t *g.Table, a Args, r M) error { n, err := t.ColName(a.i("i")); r["s"] = n; return err })
	lk("ColNameByColIndex", byI, func(c *Ctx, t *g.Table, a Args, r M) error {
		n, err := t.ColNameByColIndex(a.i("i"))
		r["s"] = n
		return err
	})
	lk("ColType", byC, func(c *Ctx, t *g.Table, a Args, r M) error { n, err := t.ColType(a.s("c")); r["s"] = n; return err })
	lk("ColTypeByColIndex", byI, func(c *Ctx, t *g.Table, a Args, r M) error {
		n, err := t.ColTypeByColIndex(a.i("i"))
		r["s"] = n
		return err
	})
	lk("IsTableCol", byC, func(c *Ctx, t *g.Table, a Args, r M) error { b, err := t.IsTableCol(a.s("c")); r["b"] = b; return err })
	lk("IsTableColByColIndex", byI, func(c *Ctx, t *g.Table, a Args, r M) error {
		b, err := t.IsTableColByColIndex(a.i("i"))
		r["b"] = b
		return err
	})
	qt := func(c *Ctx, ct string) string {
		if c.pct(50) {
			return ct
		}
		return allTypes[c.r.Intn(len(allTypes))]
	}
	lk("IsColType", func(c *Ctx, h int) M { n := c.colN(h); return M{"c": n, "ty": qt(c, c.colType(h, n))} },
		func(c *Ctx, t *g.Table, a Args, r M) error {
			b, err := t.IsColType(a.s("c"), a.s("ty"))
			r["b"] = b
			return err
		})
	lk("IsColTypeByColIndex", func(c *Ctx, h int) M { i := c.colI(h); return M{"i": i, "ty": qt(c, c.colTypeI(h, i))} },
		func(c *Ctx, t *g.Table, a Args, r M) error {
			b, err := t.IsColTypeByColIndex(a.i("i"), a.s("ty"))
			r["b"] = b
			return err
		})
	lk("IsValidRow", byJ, func(c *Ctx, t *g.Table, a Args, r M) error { b, err := t.IsValidRow(a.i("j")); r["b"] = b; return err })
	valArgs := func(c *Ctx, h int) M {
		n := c.colN(h)
		return M{"c": n, "v": c.valFor(c.colType(h, n))}
	}
	lk("IsValidColValue", valArgs, func(c *Ctx, t *g.Table, a Args, r M) error {
		b, err := t.IsValidColValue(a.s("c"), c.concrete(a.val("v")))
		r["b"] = b
		return err
	})
	lk("IsValidCellValue", valArgs, func(c *Ctx, t *g.Table, a Args, r M) error {
		b, err := t.IsValidCellValue(a.s("c"), c.concrete(a.val("v")))
		r["b"] = b
		return err
	})
	lk("IsSortKey", byC, func(c *Ctx, t *g.Table, a Args, r M) error { b, err := t.IsSortKey(a.s("c")); r["b"] = b; return err })
	ci := func(c *Ctx, x g.CellInfo, r M) {
		r["ct"], r["s"], r["ty"], r["n"], r["j"] = c.handle(x.Table), x.ColName, x.ColType, x.ColIndex, x.RowIndex
	}
	lk("GetCellInfo", byCJ, func(c *Ctx, t *g.Table, a Args, r M) error {
		x, err := t.GetCellInfo(a.s("c"), a.i("j"))
		if err == nil {
			ci(c, x, r)
		}
		return err
	})
	lk("GetCellInfoByColIndex", byIJ, func(c *Ctx, t *g.Table, a Args, r M) error {
		x, err := t.GetCellInfoByColIndex(a.i("i"), a.i("j"))
		if err == nil {
			ci(c, x, r)
		}
		return err
	})
	lk("RowByRowIndex", byJ, func(c *Ctx, t *g.Table, a Args, r M) error {
		x, err := t.RowByRowIndex(a.i("j"))
		if err == nil {
			r["ct"], r["j"] = c.handle(x.Table), x.RowIndex
		}
		return err
	})
	lk("ParentTable", nil, func(c *Ctx, t *g.Table, a Args, r M) error { r["n"] = c.handle(t.ParentTable()); return nil })
	lk("GetColInfoAsSlices", nil, func(c *Ctx, t *g.Table, a Args, r M) error {
		n, ty, err := t.GetColInfoAsSlices()
		if err == nil {
			r["ns"], r["ts"] = append([]string{}, n...), append([]string{}, ty...)
		}
		return err
	})
	lk("GetColInfoAsTable", nil, func(c *Ctx, t *g.Table, a Args, r M) error {
		x, err := t.GetColInfoAsTable()
		if err != nil {
			return err
		}
		ns, ts, is := []string{}, []string{}, []int{}
		for i := 0; i < x.RowCount(); i++ {
			n, e1 := x.GetString("colName", i)
			ty, e2 := x.GetString("colType", i)
			if e := errors.Join(e1, e2); e != nil {
				return e
			}
			if k, e3 := x.GetInt("index", i); e3 == nil {
				is = append(is, k)
			} else {
				is = append(is, i)
			}
			ns, ts = append(ns, n), append(ts, ty)
		}
		r["ns"], r["ts"], r["is"] = ns, ts, is
		return nil
	})
	lk("GetSortKeysAsTable", nil, func(c *Ctx, t *g.Table, a Args, r M) error {
		x, err := t.GetSortKeysAsTable()
		if err != nil {
			return err
		}
		ks, ts := []PKey{}, []string{}
		for i := 0; i < x.RowCount(); i++ {
			n, e1 := x.GetString("colName", i)
			b, e2 := x.GetBool("reverse", i)
			ty, e3 := x.GetString("colType", i)
			if e := errors.Join(e1, e2, e3); e != nil {
				return e
			}
			ks, ts = append(ks, PKey{n, b}), append(ts, ty)
		}
		r["keys"], r["ts"] = ks, ts
		return nil
	})

	// ---- package-level predicates ----
	pk := func(name string, pool func(c *Ctx) string, f func(s string) (bool, error)) {
		reg(name, func(c *Ctx) M { return M{"s": pool(c)} }, func(c *Ctx, a Args, r M) error {
			b, err := f(a.s("s"))
			r["b"] = b
			return err
		})
	}
	anyName := func(c *Ctx) string {
		l := [][]string{tabNames, badTabNames, colNames, badColNames, allTypes, badTypes}[c.r.Intn(6)]
		return l[c.r.Intn(len(l))]
	}
	pk("IsValidColName", anyName, g.IsValidColName)
	pk("IsValidTableName", anyName, g.IsValidTableName)
	pk("IsValidColType", anyName, g.IsValidColType)
	pk("IsNumericColType", anyName, func(s string) (bool, error) { return g.IsNumericColType(s), nil })
	pk("IsSliceColType", anyName, func(s string) (bool, error) { return g.IsSliceColType(s), nil })
	pk("IsTableColType", anyName, func(s string) (bool, error) { return g.IsTableColType(s), nil })
	reg("Uint8SliceEquals", func(c *Ctx) M { return M{"v": c.tokFor("[]byte"), "w": c.tokFor("[]byte")} }, func(c *Ctx, a Args, r M) error {
		b, err := g.Uint8SliceEquals(c.p.val("[]byte", a.i("v")).([]byte), c.p.val("[]byte", a.i("w")).([]byte))
		r["b"] = b
		if !b { // a difference may be explained by an error
			err = nil
		}
		return err
	})
	reg("TypesList", func(c *Ctx) M { return M{} }, func(c *Ctx, a Args, r M) error {
		s := g.TypesList()
		l := []string{}
		for _, w := range strings.FieldsFunc(s, func(x rune) bool { return x == ' ' || x == ',' || x == '\n' || x == '\t' }) {
			l = append(l, w)
		}
		r["l"] = l
		return nil
	})
}

var _ = fmt.Sprint

package main

// Sort keys, sorting, searching, merging, copying, comparing, table sets, nesting, walking.

import (
	"fmt"
	"strings"
	"unicode/utf8"

	g "github.com/urban-wombat/gotables"
)

func (c *Ctx) concreteAll(vs []Val) []interface{} {
	out := []interface{}{}
	for _, v := range vs {
		out = append(out, c.concrete(v))
	}
	return out
}

// keyVals draws one value per sort key, often the values of some row.
func (c *Ctx) keyVals(h int) []Val {
	p := c.st(h)
	out := []Val{}
	row := -1
	if len(p.Rows) > 0 && c.pct(65) {
		row = c.r.Intn(len(p.Rows))
	}
	for _, k := range p.Keys {
		ct := c.colType(h, k.C)
		if row >= 0 {
			for i, x := range p.Cols {
				if x.N == k.C && p.Rows[row][i] > 0 {
					out = append(out, Val{ct, p.Rows[row][i]})
				}
			}
		} else {
			out = append(out, c.valFor(ct))
		}
	}
	if c.pct(c.prof.misuse / 2) {
		if c.pct(50) && len(out) > 0 {
			out = out[1:]
		} else {
			out = append(out, Val{"int", c.tokFor("int")})
		}
	}
	return out
}

// similar finds another live root with the same columns if there is one.
func (c *Ctx) similar(h int) int {
	p := c.st(h)
	x := c.pickWhere(func(q *PTab) bool {
		return q.H != h && fmt.Sprint(q.Cols) == fmt.Sprint(p.Cols)
	})
	if x == 0 || c.pct(25) {
		return c.pickT()
	}
	return x
}

// unwritable: the table holds runes that text has no literal for.
func (c *Ctx) unwritable(h int) bool {
	p := c.st(h)
	for i, x := range p.Cols {
		if x.T != "rune" {
			continue
		}
		for _, row := range p.Rows {
			if row[i] > 0 && !utf8.ValidRune(c.p.vals["i32"][row[i]-1].(int32)) {
				return true
			}
		}
	}
	return false
}

func init() {
	// ---- sort keys and sorting ----
	keyArgs := func(min int) func(c *Ctx) M {
		return func(c *Ctx) M { h := c.pickT(); return M{"t": h, "cs": c.keyNames(h, min)} }
	}
	reg("SetSortKeys", keyArgs(1), func(c *Ctx, a Args, r M) error { return c.tab(a, "t").SetSortKeys(a.ss("cs")...) })
	reg("SetSortKeysReverse", func(c *Ctx) M {
		h := c.pickT()
		cs := []string{}
		for _, k := range c.st(h).Keys {
			if c.pct(50) {
				cs = append(cs, k.C)
			}
		}
		if c.bad() {
			cs = append(cs, c.colN(h))
		}
		return M{"t": h, "cs": cs}
	}, func(c *Ctx, a Args, r M) error { return c.tab(a, "t").SetSortKeysReverse(a.ss("cs")...) })
	reg("AppendSortKey", func(c *Ctx) M {
		h := c.pickT()
		n := c.colN(h)
		if ks := c.keyNames(h, 1); len(ks) > 0 && !c.bad() {
			n = ks[0]
		}
		return M{"t": h, "c": n}
	}, func(c *Ctx, a Args, r M) error { return c.tab(a, "t").AppendSortKey(a.s("c")) })
	reg("DeleteSortKey", func(c *Ctx) M {
		h := c.pickT()
		n := c.colN(h)
		if ks := c.st(h).Keys; len(ks) > 0 && !c.bad() {
			n = ks[c.r.Intn(len(ks))].C
		}
		return M{"t": h, "c": n}
	}, func(c *Ctx, a Args, r M) error { return c.tab(a, "t").DeleteSortKey(a.s("c")) })
	reg("SetSortKeysFromTable", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "t2": c.similar(h)} },
		func(c *Ctx, a Args, r M) error { return c.tab(a, "t").SetSortKeysFromTable(c.tab(a, "t2")) })
	reg("Sort", keyArgs(0), func(c *Ctx, a Args, r M) error { return c.tab(a, "t").Sort(a.ss("cs")...) })
	reg("SortSimple", keyArgs(1), func(c *Ctx, a Args, r M) error { return c.tab(a, "t").SortSimple(a.ss("cs")...) })
	reg("CompareRows", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "i": c.rowI(h), "j": c.rowI(h)} },
		func(c *Ctx, a Args, r M) error {
			n, err := c.tab(a, "t").CompareRows(a.i("i"), a.i("j"))
			r["n"] = n
			return err
		})
	reg("SortUnique", keyArgs(0), func(c *Ctx, a Args, r M) error {
		t, err := c.tab(a, "t").SortUnique(a.ss("cs")...)
		return c.ret(r, t, err)
	}).mk()
	reg("Merge", func(c *Ctx) M {
		h := c.pickT()
		return M{"t": h, "t2": c.similar(h)}
	}, func(c *Ctx, a Args, r M) error {
		t, err := c.tab(a, "t").Merge(c.tab(a, "t2"))
		return c.ret(r, t, err)
	}).mk()

	// ---- searching ----
	search := func(name string, f func(t *g.Table, vs []interface{}) (int, int, error)) {
		reg(name, func(c *Ctx) M {
			h := c.pickWhere(func(p *PTab) bool { return len(p.Keys) > 0 })
			if h == 0 || c.pct(5) {
				h = c.pickT()
			}
			return M{"t": h, "vs": c.keyVals(h)}
		}, func(c *Ctx, a Args, r M) error {
			i, j, err := f(c.tab(a, "t"), c.concreteAll(a.vals("vs")))
			r["i"], r["j"] = i, j
			return err
		})
	}
	search("Search", func(t *g.Table, vs []interface{}) (int, int, error) { i, e := t.Search(vs...); return i, i, e })
	search("SearchFirst", func(t *g.Table, vs []interface{}) (int, int, error) { i, e := t.SearchFirst(vs...); return i, i, e })
	search("SearchLast", func(t *g.Table, vs []interface{}) (int, int, error) { i, e := t.SearchLast(vs...); return i, i, e })
	search("SearchRange", func(t *g.Table, vs []interface{}) (int, int, error) { return t.SearchRange(vs...) })
	// SortSearch: sort, then run all four searches for the same values, as one composite step would; the
	// parts are logged as separate events.
	pred := func(c *Ctx) M {
		n := c.r.Intn([]int{10, 40, 40, 300, 70000, 1 << 30}[c.r.Intn(6)])
		return M{"n": n, "k": c.r.Intn(n + 2)}
	}
	reg("PredSearchFirst", pred, func(c *Ctx, a Args, r M) error {
		k := a.i("k")
		calls, bad := 0, 0
		r["n"] = g.SearchFirst(a.i("n"), func(i int) bool {
			calls++
			if i < 0 || i >= a.i("n") {
				bad++
			}
			return i >= k
		})
		r["calls"], r["bad"] = calls, bad
		return nil
	})
	reg("PredSearchLast", pred, func(c *Ctx, a Args, r M) error {
		k := a.i("k")
		calls, bad := 0, 0
		r["n"] = g.SearchLast(a.i("n"), func(i int) bool {
			calls++
			if i < 0 || i >= a.i("n") {
				bad++
			}
			return i < k
		})
		r["calls"], r["bad"] = calls, bad
		return nil
	})

	// ---- copies and extracts ----
	cp := func(name string, f func(t *g.Table) (*g.Table, error)) {
		reg(name, func(c *Ctx) M { return M{"t": c.pickT()} }, func(c *Ctx, a Args, r M) error {
			t, err := f(c.tab(a, "t"))
			return c.ret(r, t, err)
		}).mk()
	}
	cp("Copy", (*g.Table).Copy)
	cp("CopyCols", (*g.Table).CopyCols)
	cp("CopyDeep", (*g.Table).CopyDeep)
	reg("NewTableFromRows", func(c *Ctx) M {
		h := c.pickT()
		i, j := c.rowI(h), c.rowI(h)
		if i > j && !c.bad() {
			i, j = j, i
		}
		return M{"t": h, "nm": c.tabN(), "i": i, "j": j}
	}, func(c *Ctx, a Args, r M) error {
		t, err := c.tab(a, "t").NewTableFromRows(a.s("nm"), a.i("i"), a.i("j"))
		return c.ret(r, t, err)
	}).mk()
	reg("NewTableFromRowsBySearchRange", func(c *Ctx) M {
		h := c.pickWhere(func(p *PTab) bool { return len(p.Keys) > 0 })
		if h == 0 {
			h = c.pickT()
		}
		return M{"t": h, "nm": c.tabN(), "vs": c.keyVals(h)}
	}, func(c *Ctx, a Args, r M) error {
		t, err := c.tab(a, "t").NewTableFromRowsBySearchRange(a.s("nm"), c.concreteAll(a.vals("vs"))...)
		return c.ret(r, t, err)
	}).mk()
	reg("AppendRowsFromTable", func(c *Ctx) M {
		h := c.pickT()
		h2 := c.similar(h)
		i, j := c.rowI(h2), c.rowI(h2)
		if i > j && c.pct(85) {
			i, j = j, i
		}
		if len(c.st(h).Rows) > 60 {
			return nil
		}
		return M{"t": h, "t2": h2, "i": i, "j": j}
	}, func(c *Ctx, a Args, r M) error {
		return c.tab(a, "t").AppendRowsFromTable(c.tab(a, "t2"), a.i("i"), a.i("j"))
	})
	reg("AppendColsFromTable", func(c *Ctx) M {
		h := c.pickT()
		if len(c.st(h).Cols) > 8 {
			return nil
		}
		return M{"t": h, "t2": c.pickT()}
	}, func(c *Ctx, a Args, r M) error { return c.tab(a, "t").AppendColsFromTable(c.tab(a, "t2")) })

	// ---- equality ----
	reg("Equals", func(c *Ctx) M {
		h := c.pickT()
		if c.pct(15) {
			return M{"t": h, "t2": h}
		}
		return M{"t": h, "t2": c.similar(h)}
	}, func(c *Ctx, a Args, r M) error {
		b, err := c.tab(a, "t").Equals(c.tab(a, "t2"))
		r["b"] = b
		r["why"] = err != nil
		if !b {
			return nil
		}
		return err
	})
	reg("SetEquals", func(c *Ctx) M { return M{"s": c.pickS(), "s2": c.pickS()} }, func(c *Ctx, a Args, r M) error {
		b, err := c.set(a, "s").Equals(c.set(a, "s2"))
		r["b"] = b
		r["why"] = err != nil
		if !b {
			return nil
		}
		return err
	})

	// ---- table sets ----
	rs := func(c *Ctx, r M, s *g.TableSet, err error) error {
		r["s"] = 0
		if s != nil {
			r["s"] = c.setHandle(s)
		}
		return err
	}
	anyTabN := func(c *Ctx, s int) string {
		if p := c.ps[s]; p != nil && len(p.Tabs) > 0 && !c.bad() {
			h := p.Tabs[c.r.Intn(len(p.Tabs))]
			if h > 0 {
				return c.st(h).Nm
			}
		}
		return c.tabN()
	}
	tabIdx := func(c *Ctx, s int) int {
		if p := c.ps[s]; p != nil {
			return c.idx(len(p.Tabs))
		}
		return c.idx(0)
	}
	reg("NewTableSet", func(c *Ctx) M {
		if len(c.setl) > 4 {
			return nil
		}
		return M{"nm": []string{"", "S1", "S2", "Set"}[c.r.Intn(4)]}
	}, func(c *Ctx, a Args, r M) error { s, err := g.NewTableSet(a.s("nm")); return rs(c, r, s, err) })
	apd := func(name string, f func(s *g.TableSet, t *g.Table) error) {
		reg(name, func(c *Ctx) M { return M{"s": c.pickS(), "t": c.pickT()} },
			func(c *Ctx, a Args, r M) error { return f(c.set(a, "s"), c.tab(a, "t")) })
	}
	apd("Append", (*g.TableSet).Append)
	apd("AppendTable", (*g.TableSet).AppendTable)
	reg("DeleteTable", func(c *Ctx) M { s := c.pickS(); return M{"s": s, "nm": anyTabN(c, s)} },
		func(c *Ctx, a Args, r M) error { return c.set(a, "s").DeleteTable(a.s("nm")) })
	reg("DeleteTableByTableIndex", func(c *Ctx) M { s := c.pickS(); return M{"s": s, "i": tabIdx(c, s)} },
		func(c *Ctx, a Args, r M) error { return c.set(a, "s").DeleteTableByTableIndex(a.i("i")) })
	reg("SetGetTable", func(c *Ctx) M { s := c.pickS(); return M{"s": s, "nm": anyTabN(c, s)} },
		func(c *Ctx, a Args, r M) error {
			t, err := c.set(a, "s").GetTable(a.s("nm"))
			r["h"] = c.handle(t)
			return err
		})
	reg("SetGetTableByTableIndex", func(c *Ctx) M { s := c.pickS(); return M{"s": s, "i": tabIdx(c, s)} },
		func(c *Ctx, a Args, r M) error {
			t, err := c.set(a, "s").GetTableByTableIndex(a.i("i"))
			r["h"] = c.handle(t)
			return err
		})
	reg("SetHasTable", func(c *Ctx) M { s := c.pickS(); return M{"s": s, "nm": anyTabN(c, s)} },
		func(c *Ctx, a Args, r M) error {
			b, err := c.set(a, "s").HasTable(a.s("nm"))
			r["b"] = b
			return err
		})
	reg("SetTableIndex", func(c *Ctx) M { s := c.pickS(); return M{"s": s, "nm": anyTabN(c, s)} },
		func(c *Ctx, a Args, r M) error {
			n, err := c.set(a, "s").TableIndex(a.s("nm"))
			r["n"] = n
			return err
		})
	reg("SetTableCount", func(c *Ctx) M { return M{"s": c.pickS()} }, func(c *Ctx, a Args, r M) error {
		r["n"] = c.set(a, "s").TableCount()
		return nil
	})
	reg("SetGetName", func(c *Ctx) M { return M{"s": c.pickS()} }, func(c *Ctx, a Args, r M) error {
		r["nm"] = c.set(a, "s").Name()
		return nil
	})
	reg("SetFileNameGet", func(c *Ctx) M { return M{"s": c.pickS()} }, func(c *Ctx, a Args, r M) error {
		r["nm"] = c.set(a, "s").FileName()
		return nil
	})
	reg("IsValidTableSet", func(c *Ctx) M { return M{"s": c.pickS()} }, func(c *Ctx, a Args, r M) error {
		b, err := c.set(a, "s").IsValidTableSet()
		r["b"] = b
		return err
	})
	reg("SetRenameTable", func(c *Ctx) M { s := c.pickS(); return M{"s": s, "nm": anyTabN(c, s), "nm2": c.tabN()} },
		func(c *Ctx, a Args, r M) error { return c.set(a, "s").RenameTable(a.s("nm"), a.s("nm2")) })
	reg("SetSetName", func(c *Ctx) M { return M{"s": c.pickS(), "nm": c.tabN()} },
		func(c *Ctx, a Args, r M) error { return c.set(a, "s").SetName(a.s("nm")) })
	reg("SetSetFileName", func(c *Ctx) M { return M{"s": c.pickS(), "nm": []string{"", "f.got", "a/b.txt"}[c.r.Intn(3)]} },
		func(c *Ctx, a Args, r M) error { c.set(a, "s").SetFileName(a.s("nm")); return nil })
	reg("SetCopy", func(c *Ctx) M {
		if len(c.setl) > 4 || len(c.roots) >= c.prof.maxTabs {
			return nil
		}
		return M{"s": c.pickS()}
	}, func(c *Ctx, a Args, r M) error {
		s, err := c.set(a, "s").Copy()
		if s != nil && err == nil {
			for i := 0; i < s.TableCount(); i++ {
				if t, e := s.GetTableByTableIndex(i); e == nil {
					c.newRoot(t)
				}
			}
		}
		return rs(c, r, s, err)
	})

	// ---- nesting ----
	// Nest, then take the nested tables out again: the cells are decoded and the new column is deleted, so that what is
	// left is the sorted table as it was.
	reg("Nest", func(c *Ctx) M {
		h, h2 := c.pickT(), c.pickT()
		if h2 == h {
			h2 = c.pickT()
		}
		if h == h2 && h != 0 || len(c.roots) >= c.prof.maxTabs+6 || c.unwritable(h2) {
			return nil
		}
		n := c.newColN(h)
		return M{"t": h, "t2": h2, "c": n}
	}, func(c *Ctx, a Args, r M) error {
		t := c.tab(a, "t")
		err := t.Nest(c.tab(a, "t2"), a.s("c"))
		if err != nil {
			return err
		}
		hs := []int{}
		r["hs"] = hs
		last := t.ColCount() - 1
		r["cn"], _ = t.ColName(last)
		r["ct"], _ = t.ColTypeByColIndex(last)
		for j := 0; j < t.RowCount(); j++ {
			s, e := t.GetString(a.s("c"), j)
			if e != nil {
				hs = append(hs, 0)
				continue
			}
			nt, e := g.NewTableFromString(s)
			if e != nil {
				hs = append(hs, 0)
				continue
			}
			hs = append(hs, c.handle(nt))
		}
		r["hs"] = hs
		if r["ct"] == "string" && r["cn"] == a.s("c") {
			return t.DeleteColByColIndex(last)
		}
		return nil
	})
	circ := func(name string, f func(t *g.Table) (bool, error)) {
		reg(name, func(c *Ctx) M { return M{"t": c.pickT()} }, func(c *Ctx, a Args, r M) error {
			b, err := f(c.tab(a, "t"))
			r["b"], r["e"] = b, err != nil
			r["circ"], r["root"], r["in"] = g.HasCircRefError(err), -1, -1
			if ce := g.GetCircRefError(err); ce != nil {
				r["root"], r["in"] = c.handle(ce.RootTable()), c.handle(ce.CircTable())
			}
			return nil
		})
	}
	reg("StringNested", func(c *Ctx) M { return M{"t": c.pickT()} }, func(c *Ctx, a Args, r M) error {
		r["some"] = c.tab(a, "t").StringNested() != ""
		return nil
	})
	circ("HasCircularReference", (*g.Table).HasCircularReference)
	circ("IsValidTableNesting", (*g.Table).IsValidTableNesting)

	// walkLog records the visits: [1,h] table, [2,h,j] row, [3,h,j,i] cell.
	type visit = []int
	walk := func(c *Ctx, a Args, r M, run func(vt func(*g.Table) error, vr func(g.Row) error, vc func(bool, g.CellInfo) error) error) error {
		log := []visit{}
		stop := a.i("stop") // fail at this visit, -1: never
		n := 0
		tick := func() error {
			n++
			if n > 20000 {
				return fmt.Errorf("harness-limit: walk does not end")
			}
			if n-1 == stop {
				return fmt.Errorf("stop here")
			}
			return nil
		}
		info := true
		err := run(func(t *g.Table) error { log = append(log, visit{1, c.handle(t), 0, 0}); return tick() },
			func(row g.Row) error {
				log = append(log, visit{2, c.handle(row.Table), row.RowIndex, 0})
				return tick()
			},
			func(nested bool, ci g.CellInfo) error {
				log = append(log, visit{3, c.handle(ci.Table), ci.RowIndex, ci.ColIndex})
				n1, e1 := ci.Table.ColName(ci.ColIndex)
				t1, e2 := ci.Table.ColTypeByColIndex(ci.ColIndex)
				if e1 != nil || e2 != nil || n1 != ci.ColName || t1 != ci.ColType || nested != a.b("nested") {
					info = false
				}
				return tick()
			})
		if len(log) > 3000 {
			log = log[:3000]
		}
		r["log"] = log
		r["info"] = info
		r["stopped"] = err != nil && strings.Contains(err.Error(), "stop here")
		r["e"] = err != nil
		r["limit"] = err != nil && strings.Contains(err.Error(), "harness-limit")
		return nil
	}
	stopAt := func(c *Ctx) int {
		if c.pct(70) {
			return -1
		}
		return c.r.Intn(12)
	}
	reg("Walk", func(c *Ctx) M { return M{"t": c.pickT(), "nested": c.pct(75), "stop": stopAt(c)} }, func(c *Ctx, a Args, r M) error {
		return walk(c, a, r, func(vt func(*g.Table) error, vr func(g.Row) error, vc func(bool, g.CellInfo) error) error {
			ws := make(g.WalkSafe)
			return c.tab(a, "t").Walk(a.b("nested"), ws, vt, vr, vc)
		})
	})
	reg("SetWalk", func(c *Ctx) M { return M{"s": c.pickS(), "nested": c.pct(75), "stop": stopAt(c)} }, func(c *Ctx, a Args, r M) error {
		vs := []int{}
		err := walk(c, a, r, func(vt func(*g.Table) error, vr func(g.Row) error, vc func(bool, g.CellInfo) error) error {
			return c.set(a, "s").Walk(a.b("nested"), func(s *g.TableSet) error { vs = append(vs, c.setHandle(s)); return nil }, vt, vr, vc)
		})
		r["vs"] = vs
		return err
	})
	reg("NewTreeTable", func(c *Ctx) M { return M{"t": c.pickT(), "n": c.r.Intn(3)} }, func(c *Ctx, a Args, r M) error {
		t, err := c.tab(a, "t").NewTreeTable(a.i("n"))
		return c.ret(r, t, err)
	}).mk()
}

// reach returns the tables nested in h, h itself included, with how often each is met.
func (c *Ctx) reach(h int, n map[int]int) {
	if h <= 0 {
		return
	}
	n[h]++
	if n[h] > 1 || len(n) > 60 {
		return
	}
	p := c.st(h)
	for _, row := range p.Rows {
		for i, v := range row {
			if i < len(p.Cols) && p.Cols[i].T == "*Table" {
				c.reach(v, n)
			}
		}
	}
}

func init() {
	// NestSet puts one table into a cell of another: mostly so that no table occurs twice.
	reg("NestSet", func(c *Ctx) M {
		h := c.pickWhere(func(p *PTab) bool {
			if len(p.Rows) == 0 {
				return false
			}
			for _, x := range p.Cols {
				if x.T == "*Table" {
					return true
				}
			}
			return false
		})
		if h == 0 {
			h = c.genBuild()
			if h == 0 {
				return nil
			}
		}
		p := c.st(h)
		cand := []string{}
		for _, x := range p.Cols {
			if x.T == "*Table" {
				cand = append(cand, x.N)
			}
		}
		if len(cand) == 0 || len(p.Rows) == 0 {
			return nil
		}
		v := c.pickLive()
		if c.pct(75) {
			// a root that is in no other table and does not reach h
			used := map[int]bool{}
			for _, q := range c.pt {
				for _, row := range q.Rows {
					for i, x := range row {
						if q.Cols[i].T == "*Table" {
							used[x] = true
						}
					}
				}
			}
			v = c.pickWhere(func(q *PTab) bool {
				if used[q.H] || q.H == h {
					return false
				}
				n := map[int]int{}
				c.reach(q.H, n)
				return n[h] == 0
			})
			if v == 0 {
				return nil
			}
		}
		c.do("SetTyped", M{"t": h, "j": c.r.Intn(len(p.Rows)), "must": false, "by": "n", "c": cand[c.r.Intn(len(cand))], "ty": "*Table", "v": v})
		return nil
	}, func(c *Ctx, a Args, r M) error { panic("harness: NestSet") })
}

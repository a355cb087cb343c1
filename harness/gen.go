package main

// Random choice of arguments, guided by the driver's own view of the heap.

import (
	"math/rand"
	"sort"
	"strconv"
)

type Profile struct {
	name    string
	w       map[string]int // op weights
	types   []string       // column types drawn from (repeat to weight)
	nTypes  int            // column types per segment (0: all)
	maxRows int
	maxCols int
	sub     int  // sub-pool size per group and segment (0: whole pool)
	misuse  int  // percentage of invalid arguments
	noNaN   bool // keep NaN out of the values
	maxTabs int
	segLen  int
	badText bool
	start   func(c *Ctx) // extra segment prologue
	noNegZ  bool
	bigRows int // occasional larger tables
	big     bool
	withSet bool         // begin with a table set
	fixed   bool         // no larger segments
	pool    int          // approximate pool size per value group
	finite  bool         // mostly without NaN and infinities
	tail    func(c *Ctx) // how a history ends
}

var tabNames = []string{"T1", "T2", "T3", "Tab", "tab", "TAB", "t_4", "X", "MyTable", "a", "Merged", "tables", "null", "NaN", "data", "SortKeys"}
var badTabNames = []string{"", "1T", "T 1", "T-1", "int", "*", "[T]", "T.1", "string", "a$"}
var colNames = []string{"a", "b", "c", "d", "e", "f", "A", "k1", "k2", "K1", "x_1", "Abc", "abc", "_u", "Zz9", "name", "tables", "col", "data", "_TABLE_", "_DELETE_", "tableName", "metadata", "tableSetName", "isStructShape", "index", "reverse", "NaN", "null", "true", "nil", "_"}
var badColNames = []string{"", "9a", "a b", "a-b", "int", "string", "a.b", "bool", "time.Time", "*Table", "#", "a="}
var badTypes = []string{"", "Int", "integer", "float", "[]int", "int 64", "table", "*table", "interface{}", "complex64", "[]string", "Time"}

// More names, for wide tables and large sets.
var wideCols, wideTabs = manyNames("c_", 48), manyNames("W", 30)

func manyNames(pre string, n int) []string {
	l := []string{}
	for i := 1; i <= n; i++ {
		l = append(l, pre+strconv.Itoa(i))
	}
	return l
}

// colNm and tabNm are the names this segment draws from.
func (c *Ctx) colNm() []string {
	if c.prof.maxCols > len(colNames)/2 {
		return append(append([]string{}, colNames...), wideCols...)
	}
	return colNames
}
func (c *Ctx) tabNm() []string {
	if c.prof.maxTabs > 12 {
		return append(append([]string{}, tabNames...), wideTabs...)
	}
	return tabNames
}

// sized makes some segments larger than the others: tall or wide tables, or many tables.
func (c *Ctx) sized(prof *Profile) *Profile {
	if prof.fixed || prof.start != nil {
		return prof
	}
	x, p := c.r.Intn(200), *prof
	switch {
	case x < 10: // tall
		p.maxRows, p.segLen = 13+c.r.Intn(30), prof.segLen/3
	case x < 12: // taller
		p.maxRows, p.segLen = 60+c.r.Intn(240), prof.segLen/5
		if p.maxCols > 4 {
			p.maxCols = 4
		}
	case x < 20: // wide
		p.maxCols, p.segLen = 10+c.r.Intn(40), prof.segLen/3
		if p.maxRows > 6 {
			p.maxRows = 6
		}
	case x < 26: // many
		p.maxTabs, p.segLen = 40, 2*prof.segLen
		p.maxRows = 1 + p.maxRows/4
	}
	return &p
}

func (c *Ctx) pct(n int) bool { return c.r.Intn(100) < n }
func (c *Ctx) bad() bool      { return c.pct(c.prof.misuse) }

// pickT picks the handle of a live table; 0 (the nil table) now and then.
func (c *Ctx) pickT() int {
	if c.prof.misuse > 0 && c.pct(2) {
		return 0
	}
	return c.pickLive()
}
func (c *Ctx) pickLive() int {
	if len(c.roots) == 0 {
		return 0
	}
	if c.pct(6) {
		return 1 + c.r.Intn(c.nextT-1)
	}
	return c.roots[c.r.Intn(len(c.roots))]
}

// pickWhere picks a live root satisfying f, or 0.
func (c *Ctx) pickWhere(f func(*PTab) bool) int {
	if len(c.roots) == 0 {
		return 0
	}
	o := c.r.Perm(len(c.roots))
	for _, i := range o {
		if p := c.pt[c.roots[i]]; p != nil && f(p) {
			return c.roots[i]
		}
	}
	return 0
}
func (c *Ctx) pickS() int {
	if c.pct(3) || len(c.setl) == 0 {
		return 0
	}
	return c.setl[c.r.Intn(len(c.setl))]
}
func (c *Ctx) st(h int) *PTab {
	if p, ok := c.pt[h]; ok {
		return p
	}
	return &PTab{}
}
func (c *Ctx) colN(h int) string {
	p := c.st(h)
	if len(p.Cols) == 0 || c.bad() {
		if c.pct(50) {
			return one(c, c.colNm())
		}
		return badColNames[c.r.Intn(len(badColNames))]
	}
	return p.Cols[c.r.Intn(len(p.Cols))].N
}
func (c *Ctx) newColN(h int) string {
	if c.bad() {
		if p := c.st(h); len(p.Cols) > 0 && c.pct(50) {
			return p.Cols[c.r.Intn(len(p.Cols))].N
		}
		return badColNames[c.r.Intn(len(badColNames))]
	}
	p := c.st(h)
	for i := 0; i < 20; i++ {
		n := one(c, c.colNm())
		dup := false
		for _, x := range p.Cols {
			dup = dup || x.N == n
		}
		if !dup {
			return n
		}
	}
	return one(c, c.colNm())
}
func one(c *Ctx, l []string) string { return l[c.r.Intn(len(l))] }
func (c *Ctx) idx(n int) int {
	if n <= 0 || c.bad() {
		return []int{-1, n, n + 1, -7, 1000000, 0}[c.r.Intn(6)]
	}
	switch c.r.Intn(6) {
	case 0:
		return 0
	case 1:
		return n - 1
	}
	return c.r.Intn(n)
}
func (c *Ctx) colI(h int) int { return c.idx(len(c.st(h).Cols)) }
func (c *Ctx) rowI(h int) int { return c.idx(len(c.st(h).Rows)) }
func (c *Ctx) tabN() string {
	if c.bad() {
		return badTabNames[c.r.Intn(len(badTabNames))]
	}
	return one(c, c.tabNm())
}
func (c *Ctx) typ() string {
	if c.bad() {
		return badTypes[c.r.Intn(len(badTypes))]
	}
	return c.types[c.r.Intn(len(c.types))]
}

// tokFor picks a value token for a column type.
func (c *Ctx) tokFor(ct string) int {
	if ct == "*Table" {
		return c.pickLive()
	}
	gr := grp(ct)
	s := c.sub[gr]
	if len(s) == 0 {
		return 1 + c.r.Intn(c.p.size(ct))
	}
	return s[c.r.Intn(len(s))]
}

// valFor picks a value for a column of type ct, usually of that type.
func (c *Ctx) valFor(ct string) Val {
	if c.bad() {
		switch c.r.Intn(4) {
		case 0:
			return Val{[]string{"nil", "odd", "[]int"}[c.r.Intn(3)], 0}
		case 1:
			return Val{"*Table", 0}
		default:
			t := allTypes[c.r.Intn(len(allTypes))]
			return Val{t, c.tokFor(t)}
		}
	}
	t := ct
	if !isType(t) {
		t = "int"
	}
	return Val{t, c.tokFor(t)}
}

func isType(t string) bool {
	for _, x := range allTypes {
		if x == t {
			return true
		}
	}
	return false
}
func (c *Ctx) colType(h int, n string) string {
	for _, x := range c.st(h).Cols {
		if x.N == n {
			return x.T
		}
	}
	return "int"
}
func (c *Ctx) colTypeI(h int, i int) string {
	p := c.st(h)
	if i >= 0 && i < len(p.Cols) {
		return p.Cols[i].T
	}
	return "int"
}

var sortable = map[string]bool{"bool": true, "float32": true, "float64": true, "uint": true, "int": true, "int16": true, "int32": true, "int64": true,
	"int8": true, "string": true, "uint16": true, "uint32": true, "uint64": true, "uint8": true, "byte": true, "rune": true}

// keyNames picks columns to sort by (distinct, sortable most of the time).
func (c *Ctx) keyNames(h int, min int) []string {
	p := c.st(h)
	cand := []string{}
	for _, x := range p.Cols {
		if sortable[x.T] || c.pct(c.prof.misuse/2) {
			cand = append(cand, x.N)
		}
	}
	c.r.Shuffle(len(cand), func(i, j int) { cand[i], cand[j] = cand[j], cand[i] })
	n := min + c.r.Intn(3)
	if n > len(cand) {
		n = len(cand)
	}
	out := append([]string{}, cand[:n]...)
	if c.pct(c.prof.misuse / 3) {
		out = append(out, c.colN(h))
	}
	return out
}

// perm of the columns, sometimes broken.
func (c *Ctx) permI(h int) []int {
	n := len(c.st(h).Cols)
	p := c.r.Perm(n)
	if c.bad() && n > 0 {
		switch c.r.Intn(4) {
		case 0:
			p = p[1:]
		case 1:
			p = append(p, p[0])
		case 2:
			p[0] = p[n-1]
			if n == 1 {
				p[0] = 5
			}
		case 3:
			p[c.r.Intn(n)] = []int{-1, n, n + 3}[c.r.Intn(3)]
		}
	}
	return p
}
func (c *Ctx) permN(h int) []string {
	out := []string{}
	pt := c.st(h)
	for _, i := range c.permI(h) {
		if i >= 0 && i < len(pt.Cols) {
			out = append(out, pt.Cols[i].N)
		} else {
			out = append(out, "nosuch")
		}
	}
	return out
}

// buildSpec draws a whole table.
func (c *Ctx) buildSpec(maxCols, maxRows int) M {
	nc := c.r.Intn(maxCols + 1)
	if nc == 0 && c.pct(80) {
		nc = 1 + c.r.Intn(maxCols)
	}
	nr := c.r.Intn(maxRows + 1)
	if c.prof.bigRows > 0 && c.pct(6) {
		nr = c.r.Intn(c.prof.bigRows + 1)
	}
	cols := []PCol{}
	names := c.colNm()
	perm := c.r.Perm(len(names))
	for i := 0; i < nc; i++ {
		t := c.types[c.r.Intn(len(c.types))]
		if t == "*Table" && nr > 6 {
			t = "int"
		}
		cols = append(cols, PCol{names[perm[i]], t})
	}
	rows := [][]int{}
	for i := 0; i < nr; i++ {
		row := []int{}
		for _, col := range cols {
			if col.T == "*Table" {
				row = append(row, 0)
				continue
			}
			if c.pct(15) {
				row = append(row, c.p.zero[grp(col.T)])
			} else {
				row = append(row, c.tokFor(col.T))
			}
		}
		rows = append(rows, row)
	}
	return M{"nm": one(c, c.tabNm()), "cols": cols, "rows": rows}
}

func (c *Ctx) startSegment(seg int, seed int64, prof *Profile) {
	c.reset(seg)
	c.r = rand.New(rand.NewSource(seed))
	prof = c.sized(prof)
	c.prof = prof
	c.types = prof.types
	if prof.nTypes > 0 && c.pct(85) {
		ts := []string{}
		for i := 0; i < prof.nTypes; i++ {
			ts = append(ts, prof.types[c.r.Intn(len(prof.types))])
		}
		c.types = ts
	}
	c.sub = map[string][]int{}
	fin := prof.finite && c.pct(85)
	for _, gr := range groups {
		n := len(c.p.vals[gr])
		ok := []int{}
		for i := 1; i <= n; i++ {
			if (prof.noNaN || fin) && c.p.isNaN(gr, i) {
				continue
			}
			if fin && c.p.isInf(gr, i) {
				continue
			}
			if prof.noNegZ && c.p.isNegZ(gr, i) {
				continue
			}
			ok = append(ok, i)
		}
		k := prof.sub
		if k > 0 {
			k = 1 + c.r.Intn(2*prof.sub)
		}
		if k == 0 || k >= len(ok) {
			c.sub[gr] = ok
			continue
		}
		pm := c.r.Perm(len(ok))
		s := []int{}
		for _, i := range pm[:k] {
			s = append(s, ok[i])
		}
		isOK := map[int]bool{}
		for _, i := range ok {
			isOK[i] = true
		}
		if l := c.p.nearKeys(gr); len(l) > 0 && c.pct(40) {
			a := l[c.r.Intn(len(l))]
			b := c.p.near[gr][a][0]
			if isOK[a] && isOK[b] {
				s = append(s, a, b)
			}
		}
		c.sub[gr] = s
	}
	c.do("Reset", M{"seg": seg})
	if prof.start != nil {
		prof.start(c)
	}
}

// runSegment performs one random history.
func (c *Ctx) runSegment() {
	prof := c.prof
	names := []string{}
	total := 0
	for _, n := range opNames {
		if w := prof.w[n]; w > 0 {
			names = append(names, n)
			total += w
		}
	}
	for _, n := range macroNames() {
		if w := prof.w[n]; w > 0 {
			names = append(names, n)
			total += w
		}
	}
	if prof.start == nil {
		k := 1 + c.r.Intn(2)
		for i := 0; i < k; i++ {
			c.genBuild()
		}
		if prof.withSet {
			c.do("NewTableSet", M{"nm": []string{"", "S1", "Set_2", "a"}[c.r.Intn(4)]})
			for _, h := range append([]int{}, c.roots...) {
				c.do("AppendTable", M{"s": 1, "t": h})
			}
		}
	}
	for i := 0; i < prof.segLen; i++ {
		x := c.r.Intn(total)
		for _, n := range names {
			x -= prof.w[n]
			if x < 0 {
				if m := macros[n]; m != nil {
					if len(c.roots) < prof.maxTabs {
						m(c)
					}
					break
				}
				o := ops[n]
				if o.makes && len(c.roots) >= prof.maxTabs {
					break
				}
				if a := o.gen(c); a != nil {
					c.do(n, a)
				}
				break
			}
		}
		if len(c.tabs) > 80 && len(c.tabs) > 5*prof.maxTabs {
			break
		}
	}
	if prof.tail != nil {
		prof.tail(c)
	}
}

func (c *Ctx) genBuild() int {
	a := c.buildSpec(c.prof.maxCols, c.prof.maxRows)
	c.do("Build", a)
	if len(c.roots) == 0 {
		return 0
	}
	return c.roots[len(c.roots)-1]
}

// Macros are short sequences of calls that random choice would rarely put together.
var macros = map[string]func(c *Ctx){
	// A copy that differs in at most one cell, compared both ways.
	"~near": func(c *Ctx) {
		h := c.pickWhere(func(p *PTab) bool { return len(p.Cols) > 0 && len(p.Rows) > 0 })
		if h == 0 {
			return
		}
		p := c.st(h)
		i, j := c.r.Intn(len(p.Rows)), c.r.Intn(len(p.Cols))
		col := p.Cols[j]
		tok, nt := p.Rows[i][j], 0
		if col.T != "*Table" {
			if l := c.p.nearKeys(grp(col.T)); len(l) > 0 && c.pct(80) {
				tok = l[c.r.Intn(len(l))]
				c.do("SetVal", M{"t": h, "c": col.N, "j": i, "v": Val{col.T, tok}})
			}
			nt = c.nearTok(col.T, tok)
		}
		n := len(c.roots)
		c.do([]string{"Copy", "CopyDeep"}[c.r.Intn(2)], M{"t": h})
		if len(c.roots) == n {
			return
		}
		k := c.roots[len(c.roots)-1]
		if c.pct(40) && len(c.st(k).Cols) > 0 {
			c.do("ReorderCols", M{"t": k, "cs": c.permN(k)})
		}
		if nt > 0 && c.pct(90) {
			c.do("SetVal", M{"t": k, "c": col.N, "j": i, "v": Val{col.T, nt}})
		}
		c.do("Equals", M{"t": h, "t2": k})
		c.do("Equals", M{"t": k, "t2": h})
	},
}

func init() {
	// Two tables that share a key, one nested into the other.
	macros["~nest"] = func(c *Ctx) {
		h := c.pickWhere(func(p *PTab) bool { return len(p.Cols) > 0 })
		if h == 0 {
			return
		}
		n := len(c.roots)
		c.do("Copy", M{"t": h})
		if len(c.roots) == n {
			return
		}
		k := c.roots[len(c.roots)-1]
		for _, x := range []int{h, k} {
			for c.pct(50) && len(c.st(x).Rows) > 0 {
				j := c.r.Intn(len(c.st(x).Rows))
				switch c.r.Intn(3) {
				case 0:
					c.do("DeleteRow", M{"t": x, "i": j})
				default:
					col := c.st(x).Cols[c.r.Intn(len(c.st(x).Cols))]
					if col.T != "*Table" {
						c.do("SetVal", M{"t": x, "c": col.N, "j": j, "v": Val{col.T, c.tokFor(col.T)}})
					}
				}
			}
		}
		if c.pct(50) {
			c.do("ReorderCols", M{"t": k, "cs": c.permN(k)})
		}
		x := []int{h, k}[c.r.Intn(2)]
		if c.pct(75) || len(c.st(x).Keys) == 0 {
			ks := c.keyNames(x, 1)
			c.do("SetSortKeys", M{"t": x, "cs": ks})
			if c.pct(50) && len(ks) > 0 {
				c.do("SetSortKeysReverse", M{"t": x, "cs": ks[:1]})
			}
		}
		if c.unwritable(k) {
			return
		}
		c.do("Nest", M{"t": h, "t2": k, "c": c.newColN(h)})
	}
}

func macroNames() []string {
	l := []string{}
	for n := range macros {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

// nearTok is the token of a value close to that of tok.
func (c *Ctx) nearTok(ct string, tok int) int {
	if l := c.p.near[grp(ct)][tok]; len(l) > 0 && c.pct(80) {
		return l[c.r.Intn(len(l))]
	}
	return c.tokFor(ct)
}

func init() {
	// A chain of tables nested in each other, sometimes closed to a circle, looked at from its top.
	macros["~deep"] = func(c *Ctx) {
		if c.nextT > 60 {
			return
		}
		n := 3 + c.r.Intn(10)
		hs := []int{}
		for i := 0; i < n; i++ {
			h := 0
			cols := []PCol{{"x", "*Table"}, {"v", "int"}}
			if c.pct(30) {
				cols = []PCol{{"v", "int"}, {"s", "string"}, {"x", "*Table"}, {"y", "*Table"}}
			}
			rows := [][]int{}
			for j := 1 + c.r.Intn(2); j > 0; j-- {
				row := []int{}
				for _, col := range cols {
					if col.T == "*Table" {
						row = append(row, 0)
					} else {
						row = append(row, c.tokFor(col.T))
					}
				}
				rows = append(rows, row)
			}
			k := len(c.roots)
			c.do("Build", M{"nm": one(c, c.tabNm()), "cols": cols, "rows": rows})
			if len(c.roots) == k {
				return
			}
			h = c.roots[len(c.roots)-1]
			hs = append(hs, h)
		}
		put := func(p, j, ch int, col string) {
			c.do("SetTyped", M{"t": p, "by": "n", "c": col, "j": j, "ty": "*Table", "v": ch, "must": false})
		}
		order := c.r.Perm(n - 1)
		for _, i := range order {
			put(hs[i], c.r.Intn(len(c.st(hs[i]).Rows)), hs[i+1], "x")
		}
		top, low := hs[0], hs[n-1]
		switch c.r.Intn(4) {
		case 0: // a circle, or the same table in two places
			put(low, 0, hs[c.r.Intn(n)], "x")
		case 1:
			k := c.r.Intn(n)
			put(hs[k], len(c.st(hs[k]).Rows)-1, hs[1+c.r.Intn(n-1)], "x")
		}
		c.do("HasCircularReference", M{"t": top})
		c.do("IsValidTableNesting", M{"t": top})
		c.do("Walk", M{"t": top, "nested": true, "stop": -1})
		c.do("JsonRT", M{"t": top, "how": []string{"compact", "indent"}[c.r.Intn(2)]})
		k := len(c.roots)
		c.do([]string{"CopyDeep", "Copy"}[c.r.Intn(2)], M{"t": top})
		if len(c.roots) == k {
			return
		}
		cp := c.roots[len(c.roots)-1]
		c.do("Equals", M{"t": top, "t2": cp})
		c.do("SetTyped", M{"t": low, "by": "n", "c": "v", "j": 0, "ty": "int", "v": c.tokFor("int"), "must": false})
		c.do("Equals", M{"t": top, "t2": cp})
		c.do("Equals", M{"t": cp, "t2": top})
	}
}

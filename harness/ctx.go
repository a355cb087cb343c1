package main

// Ctx: the live heap of one trace segment and its abstract projection.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"time"

	g "github.com/urban-wombat/gotables"
)

type PCol struct {
	N string `json:"n"`
	T string `json:"t"`
}
type PKey struct {
	C string `json:"c"`
	R bool   `json:"r"`
}

// PTab is the abstract state of one table as seen through the public API.
type PTab struct {
	H    int      `json:"h"`
	Nm   string   `json:"nm"`
	Nil  bool     `json:"nil"`
	SS   bool     `json:"ss"`
	Cols []PCol   `json:"cols"`
	Rows [][]int  `json:"rows"`
	Keys []PKey   `json:"keys"`
	Par  int      `json:"par"`
	Vt   int      `json:"vt"` // IsValidTable: 1 valid, 0 invalid, -2 answer and error disagree, -3 panic
	Ci   []int    `json:"ci"` // ColIndex(name) for every column
	Sn   []string `json:"sn"` // GetColInfoAsSlices
	St   []string `json:"st"`
	Kc   int      `json:"kc"` // SortKeyCount
	Ph   []string `json:"ph"` // names that are no columns, but are found by name
}
type PSet struct {
	H    int      `json:"h"`
	Nm   string   `json:"nm"`
	Fn   string   `json:"fn"`
	Tabs []int    `json:"tabs"`
	Ti   []int    `json:"ti"` // TableIndex(name) for every table
	Gt   []int    `json:"gt"` // GetTable(name) for every table
	Vt   int      `json:"vt"`
	Ph   []string `json:"ph"` // names that no table has, but are found by name
}

type M = map[string]interface{}

type Event struct {
	Op  string  `json:"op"`
	A   M       `json:"a"`
	OK  bool    `json:"ok"`
	Pn  bool    `json:"pn"`
	Err string  `json:"err"`
	R   M       `json:"r"`
	D   []*PTab `json:"d"`
	DS  []*PSet `json:"ds"`
	NW  []int   `json:"nw"`
	NS  []int   `json:"ns"`
	Seg int     `json:"seg"`
	N   int     `json:"n"`
}

type Ctx struct {
	cut      int // segments of a script that could not be run to their end
	r        *rand.Rand
	p        *Pools
	tabs     map[int]*g.Table
	hOf      map[*g.Table]int
	sets     map[int]*g.TableSet
	sOf      map[*g.TableSet]int
	nextT    int
	nextS    int
	pt       map[int]*PTab
	ps       map[int]*PSet
	ptj      map[int]string
	psj      map[int]string
	roots    []int // tables created by constructor-like calls
	setl     []int
	out      *bufio.Writer
	pend     *os.File
	seg      int
	n        int
	ev       *Event
	prof     *Profile
	sub      map[string][]int // per-segment value sub-pools
	types    []string
	names    []string
	dir      string
	lastEv   []byte
	wildFrom int      // tables from this handle on were decoded from damaged documents: their values are not in the pools
	recent   []string // names lately used as arguments
	started  time.Time
}

func newCtx(p *Pools, out *bufio.Writer, pend *os.File, dir string) *Ctx {
	c := &Ctx{p: p, out: out, pend: pend, dir: dir}
	c.reset(0)
	return c
}

func (c *Ctx) reset(seg int) {
	c.tabs, c.hOf = map[int]*g.Table{}, map[*g.Table]int{}
	c.sets, c.sOf = map[int]*g.TableSet{}, map[*g.TableSet]int{}
	c.pt, c.ps, c.ptj, c.psj = map[int]*PTab{}, map[int]*PSet{}, map[int]string{}, map[int]string{}
	c.nextT, c.nextS = 1, 1
	c.roots, c.setl, c.recent = nil, nil, nil
	c.wildFrom = 1 << 30
	c.seg, c.n = seg, 0
}

// handle returns the handle of a table, registering it if it is new. 0 is the nil pointer.
func (c *Ctx) handle(t *g.Table) int {
	if t == nil {
		return 0
	}
	if h, ok := c.hOf[t]; ok {
		return h
	}
	h := c.nextT
	c.nextT++
	c.hOf[t] = h
	c.tabs[h] = t
	if c.ev != nil {
		c.ev.NW = append(c.ev.NW, h)
	}
	return h
}

func (c *Ctx) setHandle(s *g.TableSet) int {
	if s == nil {
		return 0
	}
	if h, ok := c.sOf[s]; ok {
		return h
	}
	h := c.nextS
	c.nextS++
	c.sOf[s] = h
	c.sets[h] = s
	c.setl = append(c.setl, h)
	if c.ev != nil {
		c.ev.NS = append(c.ev.NS, h)
	}
	return h
}

// newRoot registers the table returned by a constructor-like call.
func (c *Ctx) newRoot(t *g.Table) int {
	if t == nil {
		return 0
	}
	h := c.handle(t)
	for _, x := range c.roots {
		if x == h {
			return h
		}
	}
	c.roots = append(c.roots, h)
	return h
}

func (c *Ctx) tokOf(ct string, v interface{}) int {
	if ct == "*Table" {
		t, ok := v.(*g.Table)
		if !ok {
			return tokBadType
		}
		if t == nil {
			return tokNilTab
		}
		return c.handle(t)
	}
	return c.p.tok(ct, v)
}

func guard(f func()) (pn bool, msg string) {
	defer func() {
		if x := recover(); x != nil {
			pn = true
			msg = fmt.Sprint(x)
		}
	}()
	f()
	return false, ""
}

// project reads one table through the public API.
func (c *Ctx) project(h int) *PTab {
	t := c.tabs[h]
	p := &PTab{H: h, Cols: []PCol{}, Rows: [][]int{}, Keys: []PKey{}, Ci: []int{}, Sn: []string{}, St: []string{}, Ph: []string{}}
	guard(func() { p.Nm = t.Name() })
	if pn, _ := guard(func() { b, err := t.IsNilTable(); p.Nil = b && err == nil }); pn {
		p.Vt = -3
	}
	guard(func() { p.SS, _ = t.IsStructShape() })
	nc, nr := -3, -3
	guard(func() { nc = t.ColCount() })
	guard(func() { nr = t.RowCount() })
	for i := 0; i < nc; i++ {
		col := PCol{"?", "?"}
		guard(func() {
			n, err := t.ColName(i)
			if err == nil {
				col.N = n
			}
			ty, err := t.ColTypeByColIndex(i)
			if err == nil {
				col.T = ty
			}
		})
		p.Cols = append(p.Cols, col)
		ci := -3
		guard(func() {
			x, err := t.ColIndex(col.N)
			if err == nil {
				ci = x
			} else {
				ci = -1
			}
		})
		p.Ci = append(p.Ci, ci)
	}
	for r := 0; r < nr; r++ {
		row := make([]int, len(p.Cols))
		for i := range p.Cols {
			row[i] = tokMissing
			guard(func() {
				v, err := t.GetValByColIndex(i, r)
				if err == nil {
					row[i] = c.tokOf(p.Cols[i].T, v)
					if row[i] == tokUnknown && h >= c.wildFrom {
						row[i] = 1
					}
				}
			})
		}
		p.Rows = append(p.Rows, row)
	}
	if nc >= 0 && !p.Nil {
		guard(func() {
			a, b, err := t.GetColInfoAsSlices()
			if err == nil {
				p.Sn, p.St = append([]string{}, a...), append([]string{}, b...)
				for i := range a { // what the caller does with the slices is of no concern to the table
					a[i] = "~"
				}
				for i := range b {
					b[i] = "~"
				}
			}
		})
	}
	probe := func(n string) {
		for _, x := range p.Cols {
			if x.N == n {
				return
			}
		}
		for _, x := range p.Ph {
			if x == n {
				return
			}
		}
		guard(func() {
			_, err := t.ColIndex(n)
			if b, _ := t.HasCol(n); b || err == nil {
				p.Ph = append(p.Ph, n)
			}
		})
	}
	for _, n := range c.recent {
		probe(n)
	}
	if old := c.pt[h]; old != nil {
		for _, x := range old.Cols {
			probe(x.N)
		}
	}
	guard(func() { p.Kc = t.SortKeyCount() })
	if pn, _ := guard(func() {
		if p.Kc == 0 {
			return
		}
		kt, err := t.GetSortKeysAsTable()
		if err != nil || kt == nil {
			p.Keys = append(p.Keys, PKey{"?err", false})
			return
		}
		for i := 0; i < kt.RowCount(); i++ {
			n, e1 := kt.GetString("colName", i)
			b, e2 := kt.GetBool("reverse", i)
			if e1 != nil || e2 != nil {
				n = "?err"
			}
			p.Keys = append(p.Keys, PKey{n, b})
		}
	}); pn {
		p.Keys = append(p.Keys, PKey{"?panic", false})
	}
	guard(func() { p.Par = c.handle(t.ParentTable()) })
	if p.Vt != -3 {
		p.Vt = -3
		guard(func() {
			b, err := t.IsValidTable()
			if b == (err == nil) {
				p.Vt = 0
				if b {
					p.Vt = 1
				}
			} else {
				p.Vt = -2
			}
		})
	}
	return p
}

func (c *Ctx) projectSet(h int) *PSet {
	s := c.sets[h]
	p := &PSet{H: h, Tabs: []int{}, Ti: []int{}, Gt: []int{}, Ph: []string{}}
	has := map[string]bool{}
	guard(func() { p.Nm = s.Name() })
	guard(func() { p.Fn = s.FileName() })
	n := -3
	guard(func() { n = s.TableCount() })
	for i := 0; i < n; i++ {
		th, ti, gt := -3, -3, -3
		guard(func() {
			t, err := s.GetTableByTableIndex(i)
			if err == nil {
				th = c.handle(t)
				if t != nil {
					nm := t.Name()
					has[nm] = true
					x, err := s.TableIndex(nm)
					if err == nil {
						ti = x
					}
					u, err := s.GetTable(nm)
					if err == nil {
						gt = c.handle(u)
					}
				}
			}
		})
		p.Tabs = append(p.Tabs, th)
		p.Ti = append(p.Ti, ti)
		p.Gt = append(p.Gt, gt)
	}
	for _, nm := range c.recent {
		if !has[nm] {
			has[nm] = true
			guard(func() {
				_, err := s.TableIndex(nm)
				b, _ := s.HasTable(nm)
				u, _ := s.GetTable(nm)
				if b || err == nil || u != nil {
					p.Ph = append(p.Ph, nm)
				}
			})
		}
	}
	p.Vt = -3
	guard(func() {
		b, err := s.IsValidTableSet()
		if b == (err == nil) {
			p.Vt = 0
			if b {
				p.Vt = 1
			}
		} else {
			p.Vt = -2
		}
	})
	return p
}

// observe projects the whole heap and records what changed.
func (c *Ctx) observe(ev *Event) {
	ev.D, ev.DS = []*PTab{}, []*PSet{}
	for h := 1; h < c.nextS; h++ {
		p := c.projectSet(h)
		b, _ := json.Marshal(p)
		if string(b) != c.psj[h] {
			c.psj[h] = string(b)
			c.ps[h] = p
			ev.DS = append(ev.DS, p)
		}
	}
	for h := 1; h < c.nextT; h++ { // nextT grows as nested tables are discovered
		p := c.project(h)
		b, _ := json.Marshal(p)
		if string(b) != c.ptj[h] {
			c.ptj[h] = string(b)
			c.pt[h] = p
			ev.D = append(ev.D, p)
		}
	}
}

func cleanErr(s string) string {
	if len(s) > 300 {
		s = s[:300]
	}
	var b strings.Builder
	for _, r := range s {
		if r < 32 || r > 126 || r == '"' || r == '\\' {
			b.WriteByte('?')
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// do executes one call of the registry and logs its event.
func (c *Ctx) do(op string, a M) *Event {
	ev := &Event{Op: op, A: a, R: M{}, NW: []int{}, NS: []int{}, Seg: c.seg, N: c.n}
	c.n++
	if c.pend != nil {
		b, _ := json.Marshal(M{"seg": c.seg, "n": ev.N, "op": op, "a": a})
		c.pend.Truncate(0)
		c.pend.WriteAt(b, 0)
	}
	o, ok := ops[op]
	if !ok {
		fatal("unknown op " + op)
	}
	c.ev = ev
	for _, k := range []string{"c", "c2", "nm", "nm2"} {
		if s, ok := a[k].(string); ok && s != "" {
			c.recent = append(c.recent, s)
		}
	}
	if n := len(c.recent); n > 4 {
		c.recent = append([]string{}, c.recent[n-4:]...)
	}
	beat(op)
	var err error
	pn, msg := guard(func() { err = o.exec(c, Args(a), ev.R) })
	ev.Pn = pn
	ev.OK = !pn && err == nil
	if pn {
		ev.Err = "panic: " + cleanErr(msg)
		if strings.HasPrefix(msg, "harness:") {
			fatal(op + ": " + msg)
		}
	} else if err != nil {
		ev.Err = cleanErr(err.Error())
		if strings.HasPrefix(ev.Err, "harness:") {
			fatal(op + ": " + ev.Err)
		}
	}
	c.observe(ev)
	beat("")
	c.ev = nil
	b, e := json.Marshal(ev)
	if e != nil {
		fatal(e.Error())
	}
	c.out.Write(b)
	c.out.WriteByte('\n')
	c.out.Flush()
	return ev
}

func fatal(s string) {
	fmt.Fprintln(os.Stderr, "HARNESS-FATAL", s)
	os.Exit(70)
}

// Args are the logged arguments of a call.
type Args M

func (a Args) i(k string) int {
	switch x := a[k].(type) {
	case int:
		return x
	case float64:
		return int(x)
	}
	panic("harness: int arg " + k + fmt.Sprint(a))
}
func (a Args) s(k string) string {
	x, ok := a[k].(string)
	if !ok {
		panic("harness: string arg " + k + fmt.Sprint(a))
	}
	return x
}
func (a Args) b(k string) bool {
	x, ok := a[k].(bool)
	if !ok {
		panic("harness: bool arg " + k + fmt.Sprint(a))
	}
	return x
}
func (a Args) ss(k string) []string {
	switch x := a[k].(type) {
	case []string:
		return x
	case []interface{}:
		r := []string{}
		for _, y := range x {
			r = append(r, y.(string))
		}
		return r
	}
	panic("harness: []string arg " + k + fmt.Sprint(a))
}
func (a Args) is(k string) []int {
	switch x := a[k].(type) {
	case []int:
		return x
	case []interface{}:
		r := []int{}
		for _, y := range x {
			r = append(r, int(y.(float64)))
		}
		return r
	}
	panic("harness: []int arg " + k + fmt.Sprint(a))
}

// Val is a logged Go value: its Go type name and its token (or handle).
type Val struct {
	T string `json:"t"`
	V int    `json:"v"`
}

func (a Args) val(k string) Val { return toVal(a[k]) }
func toVal(x interface{}) Val {
	switch y := x.(type) {
	case Val:
		return y
	case map[string]interface{}:
		return Val{y["t"].(string), Args(y).i("v")}
	}
	panic("harness: val arg")
}
func (a Args) vals(k string) []Val {
	switch x := a[k].(type) {
	case []Val:
		return x
	case []interface{}:
		r := []Val{}
		for _, y := range x {
			r = append(r, toVal(y))
		}
		return r
	}
	panic("harness: vals arg")
}

func (c *Ctx) tab(a Args, k string) *g.Table {
	h := a.i(k)
	if h == 0 {
		return nil
	}
	t, ok := c.tabs[h]
	if !ok {
		panic("harness: no table " + fmt.Sprint(h))
	}
	return t
}
func (c *Ctx) set(a Args, k string) *g.TableSet {
	h := a.i(k)
	if h == 0 {
		return nil
	}
	t, ok := c.sets[h]
	if !ok {
		panic("harness: no set")
	}
	return t
}

type oddType struct{ X int }

// concrete turns a logged value into a Go value.
func (c *Ctx) concrete(v Val) interface{} {
	switch v.T {
	case "nil":
		return nil
	case "odd":
		return oddType{1}
	case "[]int":
		return []int{1}
	case "*Table":
		if v.V <= 0 {
			return (*g.Table)(nil)
		}
		return c.tabs[v.V]
	}
	return c.p.val(v.T, v.V)
}

// missing tells whether a call refers to a table or set that does not exist.
func (c *Ctx) missing(a M) bool {
	num := func(x interface{}) int {
		if f, ok := x.(float64); ok {
			return int(f)
		}
		return 0
	}
	for _, k := range []string{"t", "t2"} {
		if h := num(a[k]); h != 0 && c.tabs[h] == nil {
			return true
		}
	}
	for _, k := range []string{"s", "s2"} {
		if h := num(a[k]); h != 0 && c.sets[h] == nil {
			return true
		}
	}
	if v, ok := a["v"].(map[string]interface{}); ok && v["t"] == "*Table" && num(v["v"]) > 0 && c.tabs[num(v["v"])] == nil {
		return true
	}
	if a["ty"] == "*Table" && num(a["v"]) > 0 && c.tabs[num(a["v"])] == nil {
		return true
	}
	if cols, ok := a["cols"].([]interface{}); ok {
		for i, x := range cols {
			if x.(map[string]interface{})["t"] != "*Table" {
				continue
			}
			for _, row := range a["rows"].([]interface{}) {
				if h := num(row.([]interface{})[i]); h > 0 && c.tabs[h] == nil {
					return true
				}
			}
		}
	}
	return false
}

func isNilIface(v interface{}) bool {
	return v == nil || (reflect.ValueOf(v).Kind() == reflect.Ptr && reflect.ValueOf(v).IsNil())
}

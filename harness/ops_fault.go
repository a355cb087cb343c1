package main

// Faults: what a writer wrote is damaged, and handed to a decoder. Faults are numbered positions of the document and
// kinds of damage, so that a model can enumerate them.

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	g "github.com/urban-wombat/gotables"
	"gopkg.in/yaml.v3"
)

type fault struct{ k, i int }

func faultsOf(x interface{}) (out []fault) {
	num := func(v interface{}) int {
		switch y := v.(type) {
		case int:
			return y
		case float64:
			return int(y)
		}
		panic("harness: fault")
	}
	switch y := x.(type) {
	case []M:
		for _, f := range y {
			out = append(out, fault{num(f["k"]), num(f["i"])})
		}
	case []interface{}:
		for _, f := range y {
			m := f.(map[string]interface{})
			out = append(out, fault{num(m["k"]), num(m["i"])})
		}
	default:
		panic("harness: faults")
	}
	return
}

// ---- bytes ----

var wildBytes = []string{"\x00", "\xff", "\"", "\\", "[", "]", "{", "}", "\n", "\r\n", "\t", ":", ",", "'", "`", "#", "-", "=", "&a *a", "\u2028", "\x80", "!!", "|", "[[", "NaN", "\\u", "\ufeff", "//"}

// damageBytes: 0 truncate, 1 flip a bit, 2 delete a byte, 3 double a byte, 4.. insert
func damageBytes(b []byte, f fault) []byte {
	if len(b) == 0 {
		return b
	}
	at := f.i % len(b)
	if at < 0 {
		at = -at
	}
	out := append([]byte{}, b[:at]...)
	switch k := f.k % (4 + len(wildBytes)); k {
	case 0:
		return out
	case 1:
		out = append(out, b[at]^(1<<uint(f.i/len(b)%8)))
		return append(out, b[at+1:]...)
	case 2:
		return append(out, b[at+1:]...)
	case 3:
		out = append(out, b[at])
		return append(out, b[at:]...)
	default:
		out = append(out, wildBytes[k-4]...)
		return append(out, b[at:]...)
	}
}

// what stands before or after a document
var wildTails = []string{" ", "\n", "\r\n\t ", "x", "]", "}", "[", "{", ",", ":", "\"", "{}", "[]", "null", "true", "1", "-", "\"a\"", "\x00", "\x01", "\xff", "\ufeff", "#c", " #c", "//c", "/**/", "---\n", "...\n", "---\na: 1\n", "'", "a: 1\n", "- 1\n", "&", "*a", "%", "!", "@", "`", "nul", "\\", "\v", "\u00a0", "1e", "}}", "],"}

// damageTails: kinds as in wildTails; at the end, at the beginning, at the end of another line, twice at the end
func damageTails(b []byte, f fault) []byte {
	w := wildTails[f.k%len(wildTails)]
	switch f.i % 4 {
	case 1:
		return append([]byte(w), b...)
	case 2:
		w = "\n" + w
	case 3:
		w += w
	}
	return append(append([]byte{}, b...), w...)
}

// ---- text: words ----

var wildWords = []string{"0", "-1", "1", "256", "-129", "65536", "2147483648", "-2147483649", "9223372036854775808", "18446744073709551616", "1e400", "-1e400", "NaN", "nan", "+Inf", "0x", "0xfg", "0b2", "08", "1_0", "true", "TRUE", "t",
	"\"\"", "\"", "\"\\\"", "\"\\x\"", "\"\\uD800\"", "`", "``", "`a", "'a'", "''", "'ab'", "'\\'", "'\\u00'", "'\\U00110000'", "'\\377'", "[]", "[", "]", "[256]", "[-1]", "[1 2", "[1,2]", "[[]]", "[[S]]", "[T]", "[T1]", "[1T]", "[]byte", "[]int", "int", "string", "*Table", "*[T]", "*[]", "*", "[][]", "time.Time",
	"2019-02-29T00:00:00Z", "9999-12-31T23:59:59.9999999999Z", "0000-00-00T00:00:00Z", "2020-01-01T24:00:00Z", "2020-01-01T00:00:00+99:99", "=", ":", "#", "//", "x", "_", "é", "a", "b", "a a", "T1 T1", "\x00", "\xff", "uint8", "byte", "rune", "bool", "float32", "1e40", "-0", "0.1.2", "--1", "+1"}

// splitWords keeps what separates the words.
func splitWords(s string) (words []string) {
	from := 0
	space := func(r byte) bool { return r == ' ' || r == '\n' || r == '\t' || r == '\r' }
	for i := 1; i < len(s); i++ {
		if space(s[i]) != space(s[from]) || s[i] == '\n' || s[i-1] == '\n' {
			words = append(words, s[from:i])
			from = i
		}
	}
	if from < len(s) {
		words = append(words, s[from:])
	}
	return
}

func damageWords(b []byte, f fault) []byte {
	w := splitWords(string(b))
	if len(w) == 0 {
		return b
	}
	at := f.i % len(w)
	switch k := f.k % (5 + len(wildWords)); k {
	case 0:
		w[at] = ""
	case 1:
		w[at] += " " + w[at]
	case 2:
		w[at] += "\n"
	case 3:
		o := (at + 1 + f.i/len(w)) % len(w)
		w[at], w[o] = w[o], w[at]
	case 4:
		// a whole line once more
		lines := strings.SplitAfter(string(b), "\n")
		l := f.i % len(lines)
		return []byte(strings.Join(append(append(append([]string{}, lines[:l+1]...), lines[l]), lines[l+1:]...), ""))
	default:
		w[at] = wildWords[k-5]
	}
	return []byte(strings.Join(w, ""))
}

// ---- trees: JSON and YAML ----

type node struct {
	get  func() interface{}
	set  func(v interface{})
	del  func()
	dup  func()
	name string
	ren  func(s string)
	cell bool // a value (not a container) below "data"
	data bool
}

var wildNodes = []func() interface{}{
	func() interface{} { return nil },
	func() interface{} { return true },
	func() interface{} { return json.Number("0") },
	func() interface{} { return json.Number("-1") },
	func() interface{} { return json.Number("3.5") },
	func() interface{} { return json.Number("256") },
	func() interface{} { return json.Number("1e400") },
	func() interface{} { return json.Number("1e39") },
	func() interface{} { return json.Number("9223372036854775808") },
	func() interface{} { return json.Number("18446744073709551616") },
	func() interface{} { return json.Number("-9223372036854775809") },
	func() interface{} { return "" },
	func() interface{} { return "x" },
	func() interface{} { return "1x" },
	func() interface{} { return "é" },
	func() interface{} { return "NaN" },
	func() interface{} { return "2020-01-01T00:00:00Z" },
	func() interface{} { return []interface{}{} },
	func() interface{} { return map[string]interface{}{} },
	func() interface{} { return []interface{}{nil} },
	func() interface{} { return []interface{}{json.Number("1"), "a"} },
	func() interface{} { return map[string]interface{}{"a": nil} },
	func() interface{} { return map[string]interface{}{"": "int"} },
	func() interface{} { return map[string]interface{}{"a": "int", "b": "int"} },
	func() interface{} { return []interface{}{[]interface{}{}} },
	func() interface{} { return "int" },
	func() interface{} { return "*Table" },
	func() interface{} { return "[]byte" },
	func() interface{} { return "nosuchtype" },
	func() interface{} { return json.Number("1114112") },
	func() interface{} { return json.Number("55296") },
	func() interface{} { return "ab" },
}

// numbers around the limits of the types, in several notations
var wildNumbers = []string{"127", "128", "-128", "-129", "255", "-1", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649",
	"4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "1e2", "1.0", "-0", "-0.0", "2.5e1", "0.5", "1.27e2", "1.28e2", "2.56e2", "1E+2", "100e-2", "1e-1",
	"9007199254740993", "9007199254740993.0", "9007199254740992.0", "16777217", "1e19", "1.8446744073709551615e19", "3.4028235677973366e38", "3.4028234663852886e38", "1e-46", "5e-324", "1e308", "1.7976931348623159e308", "-1e39", "-3.4028235677973366e38", "-3.4028234663852886e38", "-1e400", "-1e-46", "-5e-324", "-18446744073709551615", "18446744073709551617", "-1e19", "1e-400", "1.000000178813934326171874999999", "1.000000059604644775390625000001", "123456789012345678901234567890"}

func init() {
	for _, n := range wildNumbers {
		n := n
		wildNodes = append(wildNodes, func() interface{} { return json.Number(n) })
	}
}

// yamlNumbers writes the numbers of a tree as YAML numbers.
func yamlNumbers(v interface{}) interface{} {
	switch x := v.(type) {
	case json.Number:
		return &yaml.Node{Kind: yaml.ScalarNode, Value: string(x)}
	case map[string]interface{}:
		o := map[string]interface{}{}
		for k, e := range x {
			o[k] = yamlNumbers(e)
		}
		return o
	case []interface{}:
		o := make([]interface{}, len(x))
		for i, e := range x {
			o[i] = yamlNumbers(e)
		}
		return o
	}
	return v
}

const treeKinds = 10

// nodes of a tree, parents first, the members of objects by name
func nodesOf(root *interface{}) (out []*node) {
	var walk func(n *node)
	sub := func(up, n *node) {
		n.data = up.data || n.name == "data"
		walk(n)
	}
	walk = func(n *node) {
		out = append(out, n)
		switch n.get().(type) {
		case map[string]interface{}, []interface{}:
		default:
			n.cell = n.data
		}
		switch x := n.get().(type) {
		case map[string]interface{}:
			ks := []string{}
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				k := k
				sub(n, &node{get: func() interface{} { return x[k] }, set: func(v interface{}) { x[k] = v }, del: func() { delete(x, k) },
					dup: func() { x[k+"2"] = x[k] }, name: k, ren: func(s string) { v := x[k]; delete(x, k); x[s] = v }})
			}
		case []interface{}:
			for i := range x {
				i := i
				parent := n
				sub(n, &node{get: func() interface{} { return x[i] }, set: func(v interface{}) { x[i] = v },
					del: func() { parent.set(append(append([]interface{}{}, x[:i]...), x[i+1:]...)) },
					dup: func() { parent.set(append(append([]interface{}{}, x...), x[i])) }})
			}
		}
	}
	walk(&node{get: func() interface{} { return *root }, set: func(v interface{}) { *root = v }, del: func() { *root = nil }, dup: func() {}})
	return
}

// onlyCells in a position: it counts the cells' values, not all the nodes
const onlyCells = 1 << 21

func damageTree(root interface{}, f fault) interface{} {
	ns := nodesOf(&root)
	if f.i >= onlyCells {
		cs := []*node{}
		for _, n := range ns {
			if n.cell {
				cs = append(cs, n)
			}
		}
		f.i -= onlyCells
		if len(cs) > 0 {
			ns = cs
		}
	}
	n := ns[f.i%len(ns)]
	switch k := f.k % (treeKinds + len(wildNodes)); k {
	case 0:
		n.del()
	case 1:
		n.dup()
	case 2:
		n.set([]interface{}{n.get()})
	case 3:
		n.set(map[string]interface{}{"a": n.get()})
	case 4: // another node of the tree
		o := ns[(f.i/len(ns)+1)%len(ns)]
		b, _ := json.Marshal(o.get())
		var v interface{}
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		if d.Decode(&v) == nil {
			n.set(v)
		}
	case 5:
		if n.ren != nil {
			n.ren([]string{"", "x", "1", "data", "metadata", "tableName", "parentTable", "tables"}[f.i/len(ns)%8])
		}
	case 6: // the inside in place of the outside
		switch x := n.get().(type) {
		case []interface{}:
			if len(x) > 0 {
				n.set(x[0])
			}
		case map[string]interface{}:
			for _, v := range x {
				if len(x) == 1 {
					n.set(v)
				}
			}
		}
	case 7:
		n.set(fmt.Sprint(n.get()))
	case 8:
		if s, ok := n.get().(string); ok {
			n.set([]string{s + s, strings.ToUpper(s), s + "\x00", " " + s, s + "\n"}[f.i/len(ns)%5])
		}
	case 9: // deep
		v := n.get()
		for i := 0; i < 200; i++ {
			v = []interface{}{v}
		}
		n.set(v)
	default:
		n.set(wildNodes[k-treeKinds]())
	}
	return root
}

// ---- gob: the structure a table is sent as ----

type gobKey struct {
	ColName string
	ColType string
	Reverse bool
}
type gobTable struct {
	TableName   string
	ColNames    []string
	ColTypes    []string
	ColNamesMap map[string]int
	Rows        [][]interface{}
	SortKeys    []gobKey
	StructShape bool
	IsNilTable  bool
	ParentTable *gobTable
}

func init() { gob.Register(time.Time{}) }

var wildCells = []interface{}{int(7), int8(7), "s", true, 1.5, float32(1.5), uint8(1), []byte{1, 2}, []byte(nil), int32(0x110000), uint64(1 << 63), int64(-1), uint(1), uint16(1), int16(1), uint32(1), "", time.Unix(0, 0), []string{"a"}}

const gobKinds = 16

func damageGob(x *gobTable, f fault, phantom *string) {
	nc, nr := len(x.ColNames), len(x.Rows)
	i := f.i
	if i < 0 {
		i = -i
	}
	names := []string{"", "1x", "é", "a b", "zz", "_"}
	switch k := f.k % (gobKinds + len(wildCells)); k {
	case 0:
		x.TableName = names[i%len(names)]
	case 1:
		if nc > 0 {
			x.ColNames[i%nc] = names[i/nc%len(names)]
		}
	case 2:
		if nc > 0 {
			x.ColNames[i%nc] = x.ColNames[i/nc%nc]
		}
	case 3:
		if nc > 0 && len(x.ColTypes) > 0 {
			x.ColTypes[i%len(x.ColTypes)] = []string{"", "nosuch", "int", "string", "*Table", "time.Time", "[]uint8"}[i/nc%7]
		}
	case 4:
		if nc > 0 {
			delete(x.ColNamesMap, x.ColNames[i%nc])
		}
	case 5:
		if nc > 0 {
			x.ColNamesMap[x.ColNames[i%nc]] = []int{-1, 0, nc, nc + 7, 1}[i/nc%5]
		}
	case 6:
		*phantom = []string{"zz", "phantom", ""}[i%3]
		x.ColNamesMap[*phantom] = []int{0, nc, -1}[i/3%3]
	case 7:
		x.ColNamesMap = nil
	case 8:
		if nr > 0 && len(x.Rows[i%nr]) > 0 {
			x.Rows[i%nr] = x.Rows[i%nr][:len(x.Rows[i%nr])-1]
		}
	case 9:
		if nr > 0 {
			x.Rows[i%nr] = append(append([]interface{}{}, x.Rows[i%nr]...), 1)
		}
	case 10:
		if nr > 0 {
			x.Rows[i%nr] = nil
		}
	case 11:
		if nc > 0 {
			x.ColTypes = x.ColTypes[:len(x.ColTypes)*(nc-1)/nc]
		}
	case 12:
		if nc > 0 {
			x.ColNames = x.ColNames[:nc-1]
		} else {
			x.ColNames = []string{"a"}
		}
	case 13:
		key := gobKey{"zz", "int", true}
		if nc > 0 && i%3 != 0 {
			key.ColName = x.ColNames[i%nc]
		}
		x.SortKeys = append(x.SortKeys, key)
	case 14:
		x.ColTypes = append(x.ColTypes, "int")
	case 15:
		x.IsNilTable = true
		x.ParentTable = &gobTable{TableName: "P"}
	default:
		if nr > 0 && len(x.Rows[i%nr]) > 0 {
			x.Rows[i%nr][i/nr%len(x.Rows[i%nr])] = wildCells[k-gobKinds]
		}
	}
}

// ---- decoders ----

// exercise uses a decoded table; a valid table can be printed, read, sorted and extended.
func exercise(t *g.Table) string {
	what := ""
	for _, u := range []struct {
		n string
		f func()
	}{
		{"print", func() { _ = t.StringPadded(); _ = t.StringUnpadded() }},
		{"csv", func() { _, _ = t.GetTableAsCSV() }},
		{"json", func() { _, _ = t.GetTableAsJSON() }},
		{"copy", func() { _, _ = t.CopyDeep() }},
		{"equals", func() { _, _ = t.Equals(t) }},
		{"gob", func() { _, _ = t.GobEncode() }},
		{"walk", func() {
			_ = t.Walk(true, make(g.WalkSafe), func(*g.Table) error { return nil }, func(g.Row) error { return nil }, func(bool, g.CellInfo) error { return nil })
		}},
	} {
		if pn, msg := guard(u.f); pn && what == "" {
			what = u.n + ": " + cleanErr(msg)
		}
	}
	return what
}

var textDecoders = []string{"table", "set", "byname", "byindex", "must", "file", "setfile"}

func (c *Ctx) decode(format, how string, doc []byte, r M) (err error) {
	var t *g.Table
	var s *g.TableSet
	isSet := false
	text := string(doc)
	switch format + "." + how {
	case "text.set":
		isSet = true
		s, err = g.NewTableSetFromString(text)
	case "text.byname":
		t, err = g.NewTableFromStringByTableName(text, r["nm"].(string))
	case "text.byindex":
		t, err = g.NewTableFromStringByTableIndex(text, 1)
	case "text.must":
		pn, msg := guard(func() { t = g.NewTableFromStringMustMake(text) })
		if pn {
			err = errors.New(msg)
			if strings.HasPrefix(msg, "runtime error") {
				panic(msg)
			}
		}
	case "text.file", "text.setfile":
		f := c.tmpFile()
		if e := os.WriteFile(f, doc, 0o644); e != nil {
			panic("harness: " + e.Error())
		}
		defer os.Remove(f)
		if how == "file" {
			t, err = g.NewTableFromFile(f)
		} else {
			isSet = true
			s, err = g.NewTableSetFromFile(f)
		}
	case "text.table":
		t, err = g.NewTableFromString(text)
	case "json.table":
		t, err = g.NewTableFromJSON(text)
	case "json.byname":
		t, err = g.NewTableFromJSONByTableName(text, r["nm"].(string))
	case "json.set":
		isSet = true
		s, err = g.NewTableSetFromJSON(text)
	case "yaml.set":
		isSet = true
		s, err = g.NewTableSetFromYAML(text)
	case "gob.table":
		t, err = g.GobDecodeTable(doc)
	default:
		panic("harness: no decoder " + format + "." + how)
	}
	c.decoded(r, isSet, t, s, err)
	return err
}

func (c *Ctx) decoded(r M, isSet bool, t *g.Table, s *g.TableSet, err error) {
	if err != nil {
		return
	}
	if _, ok := r["want"]; ok {
		r["got"] = resultOf(isSet, t, s)
	}
	if isSet {
		r["s"] = c.setHandle(s)
		if s != nil {
			for i := 0; i < s.TableCount(); i++ {
				if x, e := s.GetTableByTableIndex(i); e == nil && x != nil {
					c.handle(x)
					if w := exercise(x); w != "" {
						r["use"] = w
					}
				}
			}
		}
		return
	}
	r["h"] = c.handle(t)
	if t != nil {
		r["use"] = exercise(t)
	}
}

func init() {
	type how struct{ format, src, by, how string }
	var hows []how
	for _, by := range []string{"bytes", "words"} {
		for _, d := range textDecoders {
			hows = append(hows, how{"text", "t", by, d}, how{"text", "s", by, d})
		}
	}
	for _, by := range []string{"tree", "tree", "tree", "bytes", "words"} {
		hows = append(hows, how{"json", "t", by, "table"}, how{"json", "t", by, "byname"}, how{"json", "s", by, "set"}, how{"json", "t", by, "table"}, how{"json", "s", by, "table"}, how{"json", "s", by, "byname"},
			how{"yaml", "s", by, "set"}, how{"yaml", "s", by, "set"}, how{"yaml", "s", by, "set"})
	}
	for _, by := range []string{"gob", "gob", "gob", "bytes"} {
		hows = append(hows, how{"gob", "t", by, "table"}, how{"gob", "t", by, "table"})
	}
	hows = append(hows, how{"json", "t", "tails", "table"}, how{"json", "t", "tails", "byname"}, how{"json", "s", "tails", "set"}, how{"yaml", "s", "tails", "set"})
	hows = append(hows, how{"gob", "s", "bytes", "set"}, how{"gob", "s", "parts", "set"})
	// Fault: the document written of a table or set, damaged and decoded
	genFrom := func(c *Ctx, hows []how, most int) M {
		h := hows[c.r.Intn(len(hows))]
		a := M{"fmt": h.format, "src": h.src, "by": h.by, "how": h.how, "t": c.pickLive(), "s": 0}
		if len(c.setl) > 0 {
			a["s"] = c.setl[0]
		}
		fs := []M{}
		for n := 1 + c.r.Intn(3)*c.r.Intn(most)/(most-1); n > 0; n-- {
			k := c.r.Intn(1000)
			if h.by == "tree" && c.r.Intn(3) == 0 { // a number
				k = treeKinds + len(wildNodes) - 1 - c.r.Intn(len(wildNumbers))
			}
			if h.by == "bytes" && c.r.Intn(2) == 0 {
				k = c.r.Intn(4)
			}
			i := c.r.Intn(1 << 20)
			if h.by == "tree" && c.r.Intn(2) == 0 {
				i += onlyCells
			}
			fs = append(fs, M{"k": k, "i": i})
		}
		a["fs"] = fs
		return a
	}
	exec := func(c *Ctx, a Args, r M) error {
		r["h"], r["s"], r["use"], r["doc"], r["fed"] = 0, 0, "", "", false
		if c.wildFrom > c.nextT {
			c.wildFrom = c.nextT
		}
		fs := faultsOf(a["fs"])
		format, src, by := a.s("fmt"), a.s("src"), a.s("by")
		var t *g.Table
		var s *g.TableSet
		if src == "t" {
			t = c.tab(a, "t")
		} else {
			s = c.set(a, "s")
		}
		r["nm"] = "T1" // the table that is asked for by name
		if t != nil && t.Name() != "" && nameText(t.Name()) == t.Name() && len(fs) > 0 && fs[0].i%4 != 0 {
			r["nm"] = t.Name()
		}
		var doc []byte
		var err error
		str := func(x string, e error) { doc, err = []byte(x), e }
		switch format + "." + src {
		case "text.t":
			if len(fs)%2 == 0 {
				str(t.StringPadded(), nil)
			} else {
				str(t.StringUnpadded(), nil)
			}
		case "text.s":
			if len(fs)%2 == 0 {
				str(s.StringPadded(), nil)
			} else {
				str(s.StringUnpadded(), nil)
			}
		case "json.t":
			str(t.GetTableAsJSON())
		case "json.s":
			str(s.GetTableSetAsJSON())
		case "yaml.s":
			str(s.GetTableSetAsYAML())
		case "gob.t":
			doc, err = t.GobEncode()
		case "gob.s":
			var parts []bytes.Buffer
			if parts, err = s.GobEncode(); err != nil {
				return nil
			}
			for _, f := range fs {
				n := len(parts)
				if n == 0 {
					break
				}
				if by == "bytes" {
					parts[f.i%n] = *bytes.NewBuffer(damageBytes(parts[f.i%n].Bytes(), f))
					continue
				}
				at, o := f.i%n, f.i/n%n
				switch f.k % 4 {
				case 0:
					parts = append(append([]bytes.Buffer{}, parts[:at]...), parts[at+1:]...)
				case 1:
					parts = append(parts, *bytes.NewBuffer(append([]byte{}, parts[at].Bytes()...)))
				case 2:
					x, y := append([]byte{}, parts[at].Bytes()...), append([]byte{}, parts[o].Bytes()...)
					parts[at], parts[o] = *bytes.NewBuffer(y), *bytes.NewBuffer(x)
				case 3:
					parts[at] = bytes.Buffer{}
				}
			}
			r["fed"] = true
			bs := [][]byte{}
			for i := range parts {
				bs = append(bs, append([]byte{}, parts[i].Bytes()...))
			}
			r["want"] = readGob(bs, true)
			s, err = g.NewTableSetFromGob(parts)
			c.decoded(r, true, nil, s, err)
			return err
		}
		if err != nil {
			return nil // not written
		}
		phantom := ""
		switch by {
		case "bytes":
			for _, f := range fs {
				doc = damageBytes(doc, f)
			}
		case "tails":
			for _, f := range fs {
				doc = damageTails(doc, f)
			}
		case "words":
			for _, f := range fs {
				doc = damageWords(doc, f)
			}
		case "tree":
			var root interface{}
			if format == "json" {
				d := json.NewDecoder(bytes.NewReader(doc))
				d.UseNumber()
				err = d.Decode(&root)
			} else {
				err = yaml.Unmarshal(doc, &root)
			}
			if err != nil {
				return nil
			}
			for _, f := range fs {
				root = damageTree(root, f)
			}
			pn, _ := guard(func() {
				if format == "json" {
					doc, err = json.Marshal(root)
				} else {
					doc, err = yaml.Marshal(yamlNumbers(root))
				}
			})
			if pn || err != nil {
				return nil
			}
		case "gob":
			var x *gobTable
			if err = gob.NewDecoder(bytes.NewReader(doc)).Decode(&x); err != nil || x == nil {
				return nil
			}
			if x.ColNamesMap == nil {
				x.ColNamesMap = map[string]int{}
			}
			for _, f := range fs {
				if x.ColNamesMap == nil {
					x.ColNamesMap = map[string]int{}
				}
				damageGob(x, f, &phantom)
			}
			var buf bytes.Buffer
			if err = gob.NewEncoder(&buf).Encode(&x); err != nil {
				return nil
			}
			doc = buf.Bytes()
		}
		if phantom != "" {
			c.recent = append(c.recent, phantom)
		}
		q := fmt.Sprintf("%q", doc)
		if len(q) > 600 {
			q = q[:600]
		}
		r["doc"] = cleanErr(q)
		r["fed"] = true
		switch format {
		case "json", "yaml":
			r["want"] = readDoc(format, doc)
		case "gob":
			r["want"] = readGob([][]byte{doc}, false)
		}
		return c.decode(format, a.s("how"), doc, r)
	}
	var datas []how // decoders of data: JSON, YAML, GOB
	for _, h := range hows {
		if h.format != "text" && (h.by == "tree" || h.by == "gob" || h.by == "parts" || h.by == "tails") {
			datas = append(datas, h)
		}
	}
	reg("Fault", func(c *Ctx) M { return genFrom(c, hows, 5) }, exec)
	reg("FaultDoc", func(c *Ctx) M { return genFrom(c, datas, 3) }, exec)
}

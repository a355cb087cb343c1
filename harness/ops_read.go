package main

// What a document says, read without gotables: the tables of a JSON, YAML or GOB document as data, every cell in one
// canonical notation of its column's type ("!": not a value of the type). A decoded table is put in the same notation.

import (
	"bytes"
	"crypto/sha1"
	"encoding/gob"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"

	g "github.com/urban-wombat/gotables"
	"gopkg.in/yaml.v3"
)

type docCell struct {
	C string `json:"c"` // the col name the cell is given under ("": the document does not say)
	V string `json:"v"`
	X int    `json:"x"` // the table nested here, by position in Ts, or 0
}
type docKey struct {
	C string `json:"c"`
	R bool   `json:"r"`
}
type docTab struct {
	Bad  bool        `json:"bad"` // not a table
	Nil  bool        `json:"nil"`
	Nm   string      `json:"nm"`
	Ss   string      `json:"ss"` // "true", "false", "?": said in a way that is not a bool
	Cols []PCol      `json:"cols"`
	Rows [][]docCell `json:"rows"`
	Keys []docKey    `json:"keys"`
}
type docSet struct {
	Bad  bool     `json:"bad"` // not a document
	Nm   string   `json:"nm"`
	Fn   string   `json:"fn"`
	Tabs []int    `json:"tabs"`
	Ts   []docTab `json:"ts"`
}

// nameText is s, or what stands for it if it cannot be shown
func nameText(s string) string {
	if len(s) > 200 || cleanErr(s) != s || strings.HasPrefix(s, "#") {
		return fmt.Sprintf("#%x", sha1.Sum([]byte(s)))
	}
	return s
}
func cleanS(s string) string { return nameText("s" + s) }

func (d *docSet) add(t docTab) int {
	if t.Cols == nil {
		t.Cols = []PCol{}
	}
	if t.Rows == nil {
		t.Rows = [][]docCell{}
	}
	if t.Keys == nil {
		t.Keys = []docKey{}
	}
	d.Ts = append(d.Ts, t)
	return len(d.Ts)
}

const unfit = "!"

var bitsOf = map[string]int{"int": 64, "int8": 8, "int16": 16, "int32": 32, "int64": 64, "uint": 64, "uint8": 8, "byte": 8, "uint16": 16, "uint32": 32, "uint64": 64}

func wholeText(ty string, x *big.Int) string {
	bits := uint(bitsOf[ty])
	lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), bits)
	if ty[0] == 'i' {
		lo.Neg(new(big.Int).Lsh(big.NewInt(1), bits-1))
		hi.Rsh(hi, 1)
	}
	if x.Cmp(lo) < 0 || x.Cmp(hi) >= 0 {
		return unfit
	}
	return x.String()
}
func floatText(x float64) string {
	if x != x {
		return "NaN"
	}
	return strconv.FormatUint(math.Float64bits(x), 16)
}
func float32Text(x float32) string {
	if x != x {
		return "NaN"
	}
	return strconv.FormatUint(uint64(math.Float32bits(x)), 16)
}
func timeText(x time.Time) string { return x.Format("2006-01-02T15:04:05.999999999Z07:00:00") }

// valText is the canonical text of a Go value in a column of type ty.
func valText(ty string, v interface{}) string {
	switch x := v.(type) {
	case string:
		if ty == "string" {
			return cleanS(x)
		}
	case bool:
		if ty == "bool" {
			return strconv.FormatBool(x)
		}
	case int, int8, int16, int64, uint, uint16, uint32, uint64:
		if ty == fmt.Sprintf("%T", x) {
			return fmt.Sprint(x)
		}
	case uint8:
		if ty == "uint8" || ty == "byte" {
			return fmt.Sprint(x)
		}
	case int32:
		if ty == "int32" || ty == "rune" {
			return fmt.Sprint(x)
		}
	case float64:
		if ty == "float64" {
			return floatText(x)
		}
	case float32:
		if ty == "float32" {
			return float32Text(x)
		}
	case []byte:
		if ty == "[]byte" || ty == "[]uint8" {
			return "x" + hex.EncodeToString(x)
		}
	case time.Time:
		if ty == "time.Time" {
			return timeText(x)
		}
	}
	return unfit
}

// ---- JSON and YAML ----

func (d *docSet) cellOf(format, ty string, v interface{}) (string, int) {
	if ty == "*Table" {
		switch x := v.(type) {
		case nil:
			if format == "json" {
				return "t", d.add(docTab{Nil: true, Ss: "false"})
			}
		case map[string]interface{}:
			return "t", d.treeTab(format, x)
		}
		return unfit, 0
	}
	if format == "json" {
		return jsonText(ty, v), 0
	}
	return yamlText(ty, v), 0
}

func jsonText(ty string, v interface{}) string {
	switch x := v.(type) {
	case string:
		switch ty {
		case "string":
			return cleanS(x)
		case "rune":
			if r := []rune(x); len(r) == 1 {
				return fmt.Sprint(r[0])
			}
		case "time.Time":
			if t, err := time.Parse(time.RFC3339, x); err == nil {
				return timeText(t)
			}
		}
	case bool:
		return valText(ty, x)
	case json.Number:
		switch ty {
		case "float64":
			if f, err := strconv.ParseFloat(string(x), 64); err == nil {
				return floatText(f)
			}
		case "float32":
			if f, err := strconv.ParseFloat(string(x), 32); err == nil {
				return float32Text(float32(f))
			}
		default:
			if bitsOf[ty] > 0 {
				if len(x) < 400 && !hugeExp(string(x)) {
					if q, ok := new(big.Rat).SetString(string(x)); ok && q.IsInt() {
						return wholeText(ty, q.Num())
					}
				}
			}
		}
	case []interface{}:
		if ty == "[]byte" || ty == "[]uint8" {
			b := "x"
			for _, e := range x {
				n, ok := e.(json.Number)
				if !ok {
					return unfit
				}
				s := jsonText("uint8", n)
				if s == unfit {
					return unfit
				}
				i, _ := strconv.Atoi(s)
				b += fmt.Sprintf("%02x", i)
			}
			return b
		}
	}
	return unfit
}
func hugeExp(s string) bool {
	i := strings.IndexAny(s, "eE")
	if i < 0 {
		return false
	}
	n, err := strconv.Atoi(s[i+1:])
	return err != nil || n > 400 || n < -400
}

func yamlText(ty string, v interface{}) string {
	whole := func(x *big.Int) string {
		switch ty {
		case "rune":
			return wholeText("int32", x)
		case "float64":
			f, _ := new(big.Float).SetInt(x).Float64()
			return floatText(f)
		case "float32":
			f, _ := new(big.Float).SetInt(x).Float32()
			return float32Text(f)
		}
		if bitsOf[ty] > 0 {
			return wholeText(ty, x)
		}
		return unfit
	}
	switch x := v.(type) {
	case int:
		return whole(big.NewInt(int64(x)))
	case int64:
		return whole(big.NewInt(x))
	case uint64:
		return whole(new(big.Int).SetUint64(x))
	case float64:
		switch ty {
		case "float64":
			return floatText(x)
		case "float32":
			f := float32(x)
			if math.IsInf(float64(f), 0) && !math.IsInf(x, 0) {
				return unfit
			}
			return float32Text(f)
		}
	case string, bool, time.Time:
		return valText(ty, x)
	case []interface{}:
		if ty == "[]byte" || ty == "[]uint8" {
			b := "x"
			for _, e := range x {
				i, ok := e.(int)
				if !ok || i < 0 || i > 255 {
					return unfit
				}
				b += fmt.Sprintf("%02x", i)
			}
			return b
		}
	}
	return unfit
}

func (d *docSet) treeTab(format string, m map[string]interface{}) int {
	at := d.add(docTab{})
	t := docTab{Ss: "false"}
	fin := func() int {
		if t.Bad {
			t = docTab{Bad: true, Ss: "false"}
		}
		if t.Cols == nil {
			t.Cols = []PCol{}
		}
		if t.Rows == nil {
			t.Rows = [][]docCell{}
		}
		t.Keys = []docKey{}
		d.Ts[at-1] = t
		return at
	}
	nm, ok := m["tableName"].(string)
	if !ok {
		t.Bad = true
		return fin()
	}
	if nm == "" && format == "yaml" {
		t.Nil = true
		return fin()
	}
	t.Nm = nameText(nm)
	if v, ok := m["isStructShape"]; ok {
		t.Ss = "?"
		if b, ok := v.(bool); ok {
			t.Ss = strconv.FormatBool(b)
		}
	}
	meta, ok := m["metadata"].([]interface{})
	if !ok {
		t.Bad = true
		return fin()
	}
	types := []string{}
	for _, x := range meta {
		c, ok := x.(map[string]interface{})
		if !ok || len(c) != 1 {
			t.Bad = true
			return fin()
		}
		for n, ty := range c {
			s, ok := ty.(string)
			if !ok {
				t.Bad = true
				return fin()
			}
			if format == "yaml" { // types may be in quotes
				s = strings.TrimSuffix(strings.TrimPrefix(s, "\""), "\"")
			}
			types = append(types, s)
			t.Cols = append(t.Cols, PCol{nameText(n), nameText(s)})
		}
	}
	data, there := m["data"]
	rows, ok := data.([]interface{})
	if !ok {
		t.Bad = there && data != nil
		return fin()
	}
	for _, x := range rows {
		row, ok := x.([]interface{})
		if !ok || len(row) > len(types) {
			t.Bad = true
			return fin()
		}
		cs := []docCell{}
		for i, x := range row {
			c := docCell{V: unfit}
			if format == "json" {
				o, ok := x.(map[string]interface{})
				if !ok || len(o) != 1 {
					t.Bad = true
					return fin()
				}
				for n, v := range o {
					c.C = nameText(n)
					c.V, c.X = d.cellOf(format, types[i], v)
				}
			} else {
				c.V, c.X = d.cellOf(format, types[i], x)
			}
			cs = append(cs, c)
		}
		t.Rows = append(t.Rows, cs)
	}
	return fin()
}

// readDoc reads a JSON or YAML document.
func readDoc(format string, doc []byte) *docSet {
	d := &docSet{Tabs: []int{}, Ts: []docTab{}}
	var root map[string]interface{}
	var err error
	if format == "json" {
		dec := json.NewDecoder(bytes.NewReader(doc))
		dec.UseNumber()
		if err = dec.Decode(&root); err == nil {
			if _, e := dec.Token(); e != io.EOF {
				err = fmt.Errorf("more than one document")
			}
		}
	} else {
		err = yaml.Unmarshal(doc, &root)
	}
	nm, named := root["tableSetName"].(string)
	tabs, listed := root["tables"].([]interface{})
	if err != nil || !named || !listed {
		d.Bad = true
		return d
	}
	d.Nm = nameText(nm)
	for _, x := range tabs {
		m, ok := x.(map[string]interface{})
		if !ok {
			return &docSet{Bad: true, Tabs: []int{}, Ts: []docTab{}}
		}
		d.Tabs = append(d.Tabs, d.treeTab(format, m))
	}
	return d
}

// ---- GOB ----

type gobSet struct {
	TableSetName string
	FileName     string
}

func (d *docSet) gobTab(doc []byte) bool {
	var x *gobTable
	pn, _ := guard(func() {
		if err := gob.NewDecoder(bytes.NewReader(doc)).Decode(&x); err != nil {
			x = nil
		}
	})
	if pn || x == nil {
		return false
	}
	t := docTab{Nm: nameText(x.TableName), Ss: strconv.FormatBool(x.StructShape)}
	if len(x.ColNames) != len(x.ColTypes) {
		t.Bad = true
	}
	for i, n := range x.ColNames {
		if !t.Bad {
			t.Cols = append(t.Cols, PCol{nameText(n), nameText(x.ColTypes[i])})
		}
	}
	for _, r := range x.Rows {
		if len(r) != len(x.ColNames) {
			t.Bad = true
		}
		cs := []docCell{}
		for i, v := range r {
			if !t.Bad {
				cs = append(cs, docCell{V: valText(x.ColTypes[i], v)})
			}
		}
		t.Rows = append(t.Rows, cs)
	}
	for _, k := range x.SortKeys {
		t.Keys = append(t.Keys, docKey{nameText(k.ColName), k.Reverse})
	}
	if t.Bad {
		t = docTab{Bad: true, Ss: "false"}
	}
	d.Tabs = append(d.Tabs, d.add(t))
	return true
}

func readGob(parts [][]byte, isSet bool) *docSet {
	bad := &docSet{Bad: true, Tabs: []int{}, Ts: []docTab{}}
	d := &docSet{Tabs: []int{}, Ts: []docTab{}}
	if isSet {
		if len(parts) == 0 {
			return bad
		}
		var h gobSet
		ok := false
		_, _ = guard(func() { ok = gob.NewDecoder(bytes.NewReader(parts[len(parts)-1])).Decode(&h) == nil })
		if !ok {
			return bad
		}
		d.Nm, d.Fn = nameText(h.TableSetName), nameText(h.FileName)
		parts = parts[:len(parts)-1]
	}
	for _, p := range parts {
		if !d.gobTab(p) {
			return bad
		}
	}
	return d
}

// ---- what was decoded ----

func (d *docSet) tableOf(t *g.Table, depth int) int {
	at := d.add(docTab{})
	o := docTab{Nm: nameText(t.Name()), Cols: []PCol{}, Rows: [][]docCell{}, Keys: []docKey{}, Ss: "false"}
	if b, err := t.IsNilTable(); err != nil || b {
		o.Nil = true
		d.Ts[at-1] = o
		return at
	}
	ss, err := t.IsStructShape()
	o.Bad = err != nil || depth > 300
	o.Ss = strconv.FormatBool(ss)
	for i := 0; i < t.ColCount(); i++ {
		n, e1 := t.ColName(i)
		ty, e2 := t.ColTypeByColIndex(i)
		o.Bad = o.Bad || e1 != nil || e2 != nil
		o.Cols = append(o.Cols, PCol{nameText(n), nameText(ty)})
	}
	for j := 0; j < t.RowCount() && !o.Bad; j++ {
		cs := []docCell{}
		for i, c := range o.Cols {
			v, err := t.GetValByColIndex(i, j)
			x := docCell{V: unfit}
			if n, ok := v.(*g.Table); ok && n != nil {
				x = docCell{V: "t", X: d.tableOf(n, depth+1)}
			} else if err == nil {
				x.V = valText(c.T, v)
			}
			cs = append(cs, x)
		}
		o.Rows = append(o.Rows, cs)
	}
	if ks, err := t.GetSortKeysAsTable(); err == nil && ks != nil {
		for j := 0; j < ks.RowCount(); j++ {
			n, _ := ks.GetString("colName", j)
			r, _ := ks.GetBool("reverse", j)
			o.Keys = append(o.Keys, docKey{nameText(n), r})
		}
	}
	d.Ts[at-1] = o
	return at
}

func resultOf(isSet bool, t *g.Table, s *g.TableSet) *docSet {
	d := &docSet{Tabs: []int{}, Ts: []docTab{}}
	if !isSet {
		if t == nil {
			d.Bad = true
			return d
		}
		d.Tabs = append(d.Tabs, d.tableOf(t, 0))
		return d
	}
	if s == nil {
		d.Bad = true
		return d
	}
	d.Nm, d.Fn = nameText(s.Name()), nameText(s.FileName())
	for i := 0; i < s.TableCount(); i++ {
		x, err := s.GetTableByTableIndex(i)
		if err != nil || x == nil {
			d.Bad = true
			return d
		}
		d.Tabs = append(d.Tabs, d.tableOf(x, 0))
	}
	return d
}

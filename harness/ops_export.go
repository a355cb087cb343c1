package main

// Exports: CSV and values as strings. What was exported is read back here, without the package under test.

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	g "github.com/urban-wombat/gotables"
)

// valueText is how a value is written as a string; ok is false where that is left open.
func valueText(ty string, v interface{}) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case bool:
		return strconv.FormatBool(x), true
	case []byte:
		s := []string{}
		for _, b := range x {
			s = append(s, strconv.Itoa(int(b)))
		}
		return "[" + strings.Join(s, " ") + "]", true
	case float32:
		return strconv.FormatFloat(float64(x), 'f', -1, 32), true
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64), true
	case int32:
		if ty == "rune" {
			ok := x >= 0 && x < 0x110000 && !(x >= 0xd800 && x < 0xe000)
			return string(rune(x)), ok
		}
		return strconv.FormatInt(int64(x), 10), true
	case time.Time:
		return x.Format(time.RFC3339Nano), true
	}
	return fmt.Sprintf("%d", v), true
}

// textTok finds the value that is written as s.
func (c *Ctx) textTok(ty, s string, csv bool) int {
	if csv && (ty == "float32" || ty == "float64") {
		if s == "" {
			s = "NaN"
		} else if s == "NaN" {
			return tokUnknown
		}
	}
	gr := grp(ty)
	k := gr
	if ty == "rune" {
		k = "rune"
	}
	if c.p.texts == nil {
		c.p.texts = map[string]map[string]int{}
	}
	if c.p.texts[k] == nil {
		m := map[string]int{}
		for i, v := range c.p.vals[gr] {
			if x, ok := valueText(ty, v); ok {
				m[x] = i + 1
			}
		}
		c.p.texts[k] = m
	}
	if t, ok := c.p.texts[k][s]; ok {
		return t
	}
	return tokUnknown
}

// readCSV reads RFC 4180 records exactly: a field in quotes is kept byte for byte.
func readCSV(s string) ([][]string, error) {
	recs := [][]string{}
	i := 0
	for i < len(s) {
		rec := []string{}
		for {
			var f strings.Builder
			if i < len(s) && s[i] == '"' {
				i++
				for {
					if i >= len(s) {
						return nil, fmt.Errorf("open quote")
					}
					if s[i] == '"' {
						if i+1 < len(s) && s[i+1] == '"' {
							f.WriteByte('"')
							i += 2
							continue
						}
						i++
						break
					}
					f.WriteByte(s[i])
					i++
				}
			} else {
				for i < len(s) && s[i] != ',' && s[i] != '\n' {
					if s[i] == '"' || s[i] == '\r' {
						return nil, fmt.Errorf("stray character")
					}
					f.WriteByte(s[i])
					i++
				}
				if i < len(s) && s[i] == '\n' && len(rec) == 0 && f.Len() == 0 {
					// an empty line is no record
					rec = nil
					i++
					break
				}
			}
			rec = append(rec, f.String())
			if i >= len(s) {
				return nil, fmt.Errorf("no end of line")
			}
			if s[i] == ',' {
				i++
				continue
			}
			if s[i] == '\n' {
				i++
				break
			}
			return nil, fmt.Errorf("text after quote")
		}
		if rec != nil {
			recs = append(recs, rec)
		}
	}
	return recs, nil
}

// cellBack decodes one exported value: its token, and for a table its name.
func (c *Ctx) cellBack(ty, s string, csv bool) (int, string) {
	if ty == "*Table" {
		if len(s) >= 2 && s[0] == '[' && s[len(s)-1] == ']' {
			return 0, s[1 : len(s)-1]
		}
		return tokUnknown, ""
	}
	return c.textTok(ty, s, csv), ""
}

func (c *Ctx) cellAddr(h int) M {
	m := M{"j": c.rowI(h)}
	if c.r.Intn(2) == 0 {
		m["by"], m["c"] = "n", c.colN(h)
	} else {
		m["by"], m["i"] = "i", c.colI(h)
	}
	return m
}

func init() {
	heads := []string{"", "Head", "a,b", "say \"hi\"", "two\nlines", " lead", "é", "x", "\\."}
	reg("CsvOut", func(c *Ctx) M {
		h := c.pickT()
		hd := []string{}
		if t := c.tabs[h]; c.r.Intn(2) == 0 && t != nil {
			n := t.ColCount()
			if c.r.Intn(6) == 0 {
				n += c.r.Intn(3) - 1
			}
			for i := 0; i < n; i++ {
				hd = append(hd, heads[c.r.Intn(len(heads))])
			}
		}
		return M{"t": h, "hd": hd}
	}, func(c *Ctx, a Args, r M) error {
		t := c.tab(a, "t")
		s, err := t.GetTableAsCSV(a.ss("hd")...)
		if err != nil {
			if s != "" {
				r["partial"] = true
			}
			return err
		}
		recs, e := readCSV(s)
		r["rd"] = e == nil
		r["hd"] = []string{}
		rows, names := [][]int{}, [][]string{}
		for k, rec := range recs {
			if k == 0 {
				r["hd"] = rec
				continue
			}
			row, nms := []int{}, []string{}
			for i, f := range rec {
				ty, e := t.ColTypeByColIndex(i)
				if e != nil {
					ty = "string"
				}
				v, nm := c.cellBack(ty, f, true)
				row, nms = append(row, v), append(nms, nm)
			}
			rows, names = append(rows, row), append(names, nms)
		}
		r["rows"], r["tn"] = rows, names
		return nil
	})
	reg("ValString", func(c *Ctx) M { h := c.pickT(); m := c.cellAddr(h); m["t"] = h; return m },
		func(c *Ctx, a Args, r M) error {
			t := c.tab(a, "t")
			var s, ty string
			var err error
			if a.s("by") == "n" {
				s, err = t.GetValAsString(a.s("c"), a.i("j"))
				if err == nil {
					ty, err = t.ColType(a.s("c"))
				}
			} else {
				s, err = t.GetValAsStringByColIndex(a.i("i"), a.i("j"))
				if err == nil {
					ty, err = t.ColTypeByColIndex(a.i("i"))
				}
			}
			if err != nil {
				return err
			}
			r["v"], r["tn"] = c.cellBack(ty, s, false)
			return nil
		})
	col := func(c *Ctx, t *g.Table, a Args, ss []string, r M) error {
		ty := ""
		var err error
		if a.s("by") == "n" {
			ty, err = t.ColType(a.s("c"))
		} else {
			ty, err = t.ColTypeByColIndex(a.i("i"))
		}
		if err != nil {
			return err
		}
		vs, ns := []int{}, []string{}
		for _, s := range ss {
			v, nm := c.cellBack(ty, s, false)
			vs, ns = append(vs, v), append(ns, nm)
		}
		r["vs"], r["tn"] = vs, ns
		return nil
	}
	reg("ColStrings", func(c *Ctx) M { h := c.pickT(); return M{"t": h, "by": "n", "c": c.colN(h), "i": 0} },
		func(c *Ctx, a Args, r M) error {
			t := c.tab(a, "t")
			ss, err := t.GetColValsAsStrings(a.s("c"))
			if err != nil {
				return err
			}
			return col(c, t, a, ss, r)
		})
	seps := []string{"\x02\x03", ";~|", "\n--"}
	reg("JoinCol", func(c *Ctx) M {
		h := c.pickT()
		m := c.cellAddr(h)
		m["t"], m["sep"] = h, seps[c.r.Intn(len(seps))]
		return m
	}, func(c *Ctx, a Args, r M) error {
		t := c.tab(a, "t")
		var s string
		var err error
		if a.s("by") == "n" {
			s, err = t.JoinColVals(a.s("c"), a.s("sep"))
		} else {
			s, err = t.JoinColValsByColIndex(a.i("i"), a.s("sep"))
		}
		if err != nil {
			return err
		}
		ss := strings.Split(s, a.s("sep"))
		if t.RowCount() == 0 && s == "" {
			ss = nil
		}
		return col(c, t, a, ss, r)
	})
}

package main

// Text documents, well-formed and not: every line is given to the specification as its words and, where it was
// written as values, as the values it denotes (-1: not a value of the type).

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	g "github.com/urban-wombat/gotables"
)

type Cell struct {
	Ty  string `json:"ty"`
	V   int    `json:"v"`
	Nm  string `json:"nm"`
	raw string
}
type Line struct {
	K   string   `json:"k"` // blank, comment, cells, field, line
	Raw string   `json:"raw"`
	Ws  []string `json:"ws"`
	Cs  []Cell   `json:"cs"`
}

var white = regexp.MustCompile(`\s+`)

func (l *Line) words() {
	l.Ws = []string{}
	if s := strings.TrimSpace(l.Raw); s != "" {
		l.Ws = white.Split(s, -1)
	}
	if l.Cs == nil {
		l.Cs = []Cell{}
	}
}

func pickStr(c *Ctx, l ...string) string { return l[c.r.Intn(len(l))] }

// nearHalf writes a number that rounds to x, but lies just inside the middle between x and its neighbour: rounded
// to more bits first, it is the middle itself.
func nearHalf(x float64, bits int, up bool) string {
	to := math.Inf(-1)
	if up {
		to = math.Inf(1)
	}
	y := math.Nextafter(x, to)
	if bits == 32 {
		y = float64(math.Nextafter32(float32(x), float32(to)))
	}
	if x == 0 || x != x || math.IsInf(x, 0) || math.IsInf(y, 0) {
		return ""
	}
	a, b := new(big.Float).SetPrec(600).SetFloat64(x), new(big.Float).SetPrec(600).SetFloat64(y)
	b.Sub(b, a)
	a.Add(a, new(big.Float).SetPrec(600).SetMantExp(b, -1))
	a.Sub(a, new(big.Float).SetPrec(600).SetMantExp(b, -70))
	return a.Text('e', 60)
}

// literal writes a value in one of the ways the text format has for it.
func (c *Ctx) literal(ty string, v interface{}) string {
	intLit := func(x int64) string {
		if x >= 0 && c.pct(40) {
			return c.uintLit(uint64(x))
		}
		if x >= 0 && c.pct(15) {
			return "+" + strconv.FormatInt(x, 10)
		}
		return strconv.FormatInt(x, 10)
	}
	flLit := func(x float64, bits int) string {
		switch {
		case x != x:
			return "NaN"
		case x > 0 && x*2 == x:
			return pickStr(c, "Inf", "+Inf")
		case x < 0 && x*2 == x:
			return "-Inf"
		}
		s := strconv.FormatFloat(x, "feEgG"[c.r.Intn(5)], -1, bits)
		if c.pct(12) {
			if n := nearHalf(x, bits, c.r.Intn(2) == 0); n != "" {
				s = n
			}
		}
		if c.pct(10) && x > 0 {
			s = "+" + s
		}
		if c.pct(15) && !strings.ContainsAny(s, ".eE") {
			s += pickStr(c, ".", ".0", ".000", "e0", "E+0", ".0e0")
		}
		if strings.HasPrefix(s, "0.") && len(s) > 2 && s[2] >= '0' && s[2] <= '9' && c.pct(30) {
			s = s[1:]
		}
		return s
	}
	switch x := v.(type) {
	case bool:
		return strconv.FormatBool(x)
	case uint8:
		return c.uintLit(uint64(x))
	case uint16:
		return c.uintLit(uint64(x))
	case uint32:
		return c.uintLit(uint64(x))
	case uint64:
		return c.uintLit(x)
	case uint:
		return c.uintLit(uint64(x))
	case int:
		return intLit(int64(x))
	case int8:
		return intLit(int64(x))
	case int16:
		return intLit(int64(x))
	case int64:
		return intLit(x)
	case int32:
		if ty == "rune" {
			switch c.r.Intn(6) {
			case 0:
				return strconv.QuoteRuneToASCII(x)
			case 1:
				return fmt.Sprintf(`'\U%08x'`, x)
			case 2:
				if x > 0x1f && x != '\'' && x != '\\' && x != 0x7f {
					return "'" + string(x) + "'"
				}
			case 3:
				if x < 0x10000 {
					return fmt.Sprintf(`'\u%04X'`, x)
				}
			}
			return strconv.QuoteRune(x)
		}
		return intLit(int64(x))
	case float32:
		return flLit(float64(x), 32)
	case float64:
		return flLit(x, 64)
	case []byte:
		s := []string{}
		for _, b := range x {
			s = append(s, c.uintLit(uint64(b)))
		}
		return "[" + strings.Join(s, " ") + "]"
	case time.Time:
		s := x.Format(time.RFC3339Nano)
		if c.pct(15) {
			s = x.UTC().Format(time.RFC3339Nano)
		}
		if c.pct(20) {
			s = x.Format("2006-01-02T15:04:05.000000000Z07:00")
		}
		return s
	case string:
		switch c.r.Intn(6) {
		case 0:
			return strconv.QuoteToASCII(x)
		case 1:
			var b strings.Builder
			b.WriteByte('"')
			for i := 0; i < len(x); i++ {
				if x[i] < 0x80 {
					fmt.Fprintf(&b, pickStr(c, `\x%02x`, `\%03o`), x[i])
				} else {
					b.WriteByte(x[i])
				}
			}
			b.WriteByte('"')
			return b.String()
		case 2:
			plain := true
			for _, q := range x {
				if q < ' ' && q != '\t' || q == '"' || q == '\\' || q == 0xfffd || q == 0x7f {
					plain = false
				}
			}
			if plain {
				return `"` + x + `"`
			}
		}
		return strconv.Quote(x)
	}
	return fmt.Sprintf("%v", v)
}
func (c *Ctx) uintLit(x uint64) string {
	switch c.r.Intn(8) {
	case 0:
		return pickStr(c, "0x", "0X") + strconv.FormatUint(x, 16)
	case 1:
		return pickStr(c, "0b", "0B") + strconv.FormatUint(x, 2)
	case 2:
		return pickStr(c, "0o", "0O", "0", "00") + strconv.FormatUint(x, 8)
	}
	return strconv.FormatUint(x, 10)
}

var badLits = map[string][]string{
	"bool":    {"TRUE", "True", "t", "1", "0", "truefalse", "\"true\"", "yes", "tru", "falsey", "true1"},
	"string":  {"abc", "'abc'", "\"abc", "`abc`", "\"a\\qb\"", "\"a\\x4\"", "\"a\\u12\"", "\"a\"b\"", "\"a\"b", "\\\"a\"", "\"\\400\"", "12", "\"a\\"},
	"rune":    {"''", "'ab'", "'\\q'", "a", "\"a\"", "'a", "97", "'\\x4'", "'a'b", "'\\u12'", "'''", "'\\'", "'\\U00110000'", "'a\\n'", "'\\na'", "'\\n\\n'", "'é\\x41'", "'\\u0041b'", "'\\x4142'", "'\\101\\101'", "'\\1012'", "'\\10'", "'\\'a'", "'\\ud800'", "'\\400'", "'\\\"'"},
	"int":     {"9223372036854775808", "-9223372036854775809", "1.5", "1e3", "0x", "0b2", "1a", "--1", "+-1", "\"1\"", "true", "1_000", "0xg", "99999999999999999999999", "0x8000000000000000", "NaN", "08", "09", "018", "0x-1", "0b+1", "01000000000000000000000"},
	"int64":   {"9223372036854775808", "-9223372036854775809", "1.5", "12e", "0b", "a", "+", "-", "0o8", "0xfffffffffffffffff"},
	"int32":   {"2147483648", "-2147483649", "1.0", "'a'", "4294967295", "0x80000000", "09", "020000000000"},
	"int16":   {"32768", "-32769", "65535", "1.", "0x8000", "true", "08", "0100000"},
	"int8":    {"128", "-129", "255", "0x80", "1.0", "0b100000000", "0200", "08"},
	"uint":    {"18446744073709551616", "-1", "1.5", "0x10000000000000000", "a", "1u", "02000000000000000000000", "08", "+1"},
	"uint64":  {"18446744073709551616", "-1", "1e1", "0b", "\"7\"", "99999999999999999999"},
	"uint32":  {"4294967296", "-1", "0x100000000", "1.0", "18446744073709551615", "040000000000", "09", "0b1000000000000000000000000000000000"},
	"uint16":  {"65536", "-1", "0x10000", "70000", "0200000", "08", "0o8"},
	"uint8":   {"256", "-1", "0x100", "0b111111111", "0o400", "1.0", "'a'", "0400", "08"},
	"byte":    {"256", "-1", "0x100", "1000", "a"},
	"float64": {"1.5.5", "e5", ".", "1e", "1e400", "-1e309", "abc", "nan", "NAN", "+NaN", "-NaN", "inf", "Infinity", "INF", "1,5", "0x", "--1", "1e5.5", "NaNa", "Info", "true", "\"1\""},
	"float32": {"1e39", "-3.5e38", "1..2", "nan", "abc", "1e400", "inf", "-inf", "NaN1", "+"},
	"[]byte":  {"[256]", "[-1]", "[1", "1]", "1", "[1,2]", "(1 2)", "[a]", "[1.5]", "[1 2]]", "[0x100]", "[0400]", "[08]", "[1 09]", "\"[1]\"", "[1 256 3]"},
	"[]uint8": {"[256]", "[-1]", "[1", "1 2", "[1;2]", "{1}", "[x]", "[1]2", "[0b2]"},
	"time.Time": {"2020-13-01T00:00:00Z", "2020-02-30T00:00:00Z", "2020-01-01", "2020-01-01T00:00:00", "2020-01-01 00:00:00Z", "12:00:00Z", "2020-01-01T25:00:00Z", "2020-01-01T00:60:00Z",
		"20-01-01T00:00:00Z", "\"2020-01-01T00:00:00Z\"", "2020-01-01T00:00:00.Z", "2020-01-01T00:00:00.1234567890Z", "2020-01-01T00:00:00z1", "2020-01-01T00:00:00+1100", "2020-01-01T00:00:00Zulu", "now"},
	"*Table": {"T", "[1a]", "[T", "T]", "[int]", "[a b]", "[T]]", "[[T]]", "[a-b]", "\"T\"", "[T]x", "nil", "()", "[string]"},
}

func (c *Ctx) docCell(ty string) Cell {
	if ty == "*Table" {
		nm := pickStr(c, "", "T", "Nested1", "a", "_x")
		return Cell{ty, 0, nm, "[" + nm + "]"}
	}
	for {
		v := c.tokFor(ty)
		x := c.p.vals[grp(ty)][v-1]
		if s, ok := x.(string); ok && !utf8.ValidString(s) {
			continue
		}
		if q, ok := x.(int32); ok && ty == "rune" && !utf8.ValidRune(q) {
			continue
		}
		return Cell{ty, v, "", c.literal(ty, x)}
	}
}
func (c *Ctx) badCell(ty string) Cell {
	l := badLits[ty]
	return Cell{ty, -1, "", l[c.r.Intn(len(l))]}
}

func (c *Ctx) sp() string {
	return pickStr(c, " ", " ", " ", "  ", "\t", " \t ", "      ")
}
func (c *Ctx) joinSp(ws []string) string {
	s := ""
	for i, w := range ws {
		if i > 0 {
			s += c.sp()
		}
		s += w
	}
	return s
}
func (c *Ctx) cellsLine(cs []Cell) Line {
	ws := []string{}
	for _, x := range cs {
		ws = append(ws, x.raw)
	}
	return Line{K: "cells", Raw: c.joinSp(ws), Cs: cs}
}
func (c *Ctx) fieldLine(nm, ty string, cs []Cell) Line {
	ws := []string{nm, ty}
	if cs != nil {
		ws = append(ws, "=")
		for _, x := range cs {
			ws = append(ws, x.raw)
		}
	}
	return Line{K: "field", Raw: c.joinSp(ws), Cs: cs}
}
func plainLine(s string) Line { return Line{K: "line", Raw: s} }

var junkLines = []string{"[T", "T]", "[T] x", "[[S]", "[1bad]", "[]", "[ T ]", "[[]]", "[a b]", "[int]", "x", "x y", "x y =", "x int =", "x int 3", "= 3", "x = 3", "x int := 3", "[T]]", "[[T]]", "int", "int int", "int string = 3",
	"x int = = 3", "x Int = 3", "9x int = 3", "x int =3", "x int= 3", "// comment", "; x", "\"a\"", "[É]", "[T]#", "{T}", "x, y", "a=1", "[[Set2]]", "true", "[Other]", "a b c", "int int int", "bool"}

// genDoc draws a document, and mostly spoils it in one place.
func (c *Ctx) genDoc() []Line {
	type tb struct{ lines []Line }
	doc := []tb{}
	used := map[string]bool{}
	nt := []int{0, 1, 1, 1, 1, 2, 2, 3}[c.r.Intn(8)]
	spoil := c.pct(60)
	where := -1
	if spoil && nt > 0 {
		where = c.r.Intn(nt)
	}
	for k := 0; k < nt; k++ {
		nm := tabNames[c.r.Intn(len(tabNames))]
		for used[nm] {
			nm += "x"
		}
		kind := 0 // what to spoil
		if k == where {
			kind = 1 + c.r.Intn(13)
		}
		if kind == 1 && k > 0 {
			for n := range used {
				nm = n
				break
			}
		}
		used[nm] = true
		if kind == 2 {
			nm = pickStr(c, badTabNames[c.r.Intn(len(badTabNames))], "õ", "T]", "T[")
		}
		t := tb{[]Line{plainLine("[" + nm + "]")}}
		nc := c.r.Intn(4)
		if nc > 0 || kind > 3 {
			nc = 1 + c.r.Intn(4)
		}
		pm := c.r.Perm(len(colNames))
		ns, ts := []string{}, []string{}
		for i := 0; i < nc; i++ {
			ns = append(ns, colNames[pm[i]])
			ts = append(ts, c.types[c.r.Intn(len(c.types))])
		}
		b := 0
		if nc > 0 {
			b = c.r.Intn(nc)
		}
		switch kind {
		case 4:
			ns[b] = badColNames[1+c.r.Intn(len(badColNames)-1)]
		case 5:
			if nc > 1 {
				ns[b] = ns[(b+1)%nc]
			}
		case 6:
			ts[b] = badTypes[1+c.r.Intn(len(badTypes)-1)]
		}
		val := func(i int) Cell {
			if _, ok := badLits[ts[i]]; !ok {
				return Cell{"int", 0, "", "1"}
			}
			return c.docCell(ts[i])
		}
		switch shape := c.r.Intn(6); {
		case nc == 0:
		case shape == 0: // struct without data
			for i := 0; i < nc; i++ {
				l := c.fieldLine(ns[i], ts[i], nil)
				if kind == 8 && i == b {
					l = c.fieldLine(ns[i], ts[i], []Cell{val(i)})
				} else if kind == 9 && i == b {
					l = plainLine(ns[i])
				} else if kind == 10 && i == b {
					l = plainLine(ns[i] + " " + ts[i] + " " + pickStr(c, "x", "=", "int"))
				}
				t.lines = append(t.lines, l)
			}
		case shape <= 2: // struct with data
			for i := 0; i < nc; i++ {
				cs := []Cell{val(i)}
				if i == b {
					switch kind {
					case 7:
						if _, ok := badLits[ts[i]]; ok {
							cs = []Cell{c.badCell(ts[i])}
						}
					case 8:
						cs = nil
					case 9:
						cs = append(cs, val(i))
					}
				}
				l := c.fieldLine(ns[i], ts[i], cs)
				if kind == 10 && i == b {
					l = plainLine(ns[i] + " " + ts[i] + " " + pickStr(c, "= ", "", "3", "x 3", "== 3"))
				}
				t.lines = append(t.lines, l)
			}
		default:
			names, types := plainLine(c.joinSp(ns)), plainLine(c.joinSp(ts))
			if kind == 11 {
				types = plainLine(c.joinSp(append(append([]string{}, ts...), "int")))
			}
			t.lines = append(t.lines, names, types)
			nr := c.r.Intn(4)
			if kind >= 7 && kind <= 10 && nr == 0 {
				nr = 1
			}
			for j := 0; j < nr; j++ {
				cs := []Cell{}
				for i := 0; i < nc; i++ {
					cs = append(cs, val(i))
				}
				if j == nr-1 {
					switch kind {
					case 7:
						if _, ok := badLits[ts[b]]; ok {
							cs[b] = c.badCell(ts[b])
						}
					case 8:
						if nc > 1 {
							cs = append(cs[:b:b], cs[b+1:]...)
							if b < len(cs) { // what is left is out of step
								cs = cs[:b]
							}
						}
					case 9:
						cs = append(cs, val(nc-1))
					case 10:
						if b+1 < nc { // two values without white space between them
							cs[b] = Cell{cs[b].Ty, -1, "", cs[b].raw + cs[b+1].raw}
							cs = append(cs[:b+1:b+1], cs[b+2:]...)
						}
					}
				}
				if len(cs) > 0 {
					t.lines = append(t.lines, c.cellsLine(cs))
				}
			}
		}
		if kind == 12 && len(t.lines) > 1 {
			i := 1 + c.r.Intn(len(t.lines)-1)
			t.lines = append(t.lines[:i:i], t.lines[i+1:]...)
		}
		if kind == 13 {
			i := c.r.Intn(len(t.lines) + 1)
			t.lines = append(t.lines[:i:i], append([]Line{plainLine(junkLines[c.r.Intn(len(junkLines))])}, t.lines[i:]...)...)
		}
		doc = append(doc, t)
	}
	out := []Line{}
	blank := func() Line { return Line{K: "blank", Raw: pickStr(c, "", "", " ", "\t", "  \t")} }
	if c.pct(35) {
		out = append(out, plainLine("[["+pickStr(c, "S", "Set_1", "_s")+"]]"))
		if c.pct(60) {
			out = append(out, blank())
		}
	}
	for k, t := range doc {
		if k > 0 && !(c.pct(8)) {
			out = append(out, blank())
		}
		for c.pct(12) {
			out = append(out, blank())
		}
		for _, l := range t.lines {
			if c.pct(8) {
				out = append(out, Line{K: "comment", Raw: pickStr(c, "#", "# a comment", " # x", "\t#[T]", "#a b c", "## \"q\" 'r'")})
			}
			out = append(out, l)
		}
	}
	for c.pct(30) {
		out = append(out, blank())
	}
	if spoil && c.pct(35) && len(out) > 0 {
		i := c.r.Intn(len(out))
		switch c.r.Intn(5) {
		case 0:
			out = append(out[:i:i], out[i+1:]...)
		case 1:
			out = append(out[:i:i], append([]Line{out[i]}, out[i:]...)...)
		case 2:
			out = append(out[:i:i], append([]Line{blank()}, out[i:]...)...)
		case 3:
			if i+1 < len(out) {
				out[i], out[i+1] = out[i+1], out[i]
			}
		case 4:
			out = append(out[:i:i], append([]Line{plainLine(junkLines[c.r.Intn(len(junkLines))])}, out[i:]...)...)
		}
	}
	for i := range out {
		if out[i].K != "blank" {
			if strings.TrimSpace(out[i].Raw) == "" {
				out[i].K = "blank"
			}
			if c.pct(15) {
				out[i].Raw = c.sp() + out[i].Raw
			}
			if c.pct(15) {
				out[i].Raw += c.sp()
			}
		}
		out[i].words()
		if len(out[i].Ws) > 0 && strings.HasPrefix(out[i].Ws[0], "#") {
			out[i].K, out[i].Cs = "comment", []Cell{}
		}
	}
	return out
}

func init() {
	reg("ParseDoc", func(c *Ctx) M {
		if len(c.tabs) > 60 {
			return nil
		}
		return M{"lines": c.genDoc(), "eol": pickStr(c, "\n", "\n", "\n", "\r\n"), "last": c.pct(60), "how": pickStr(c, "set", "set", "one", "file", "onefile")}
	}, func(c *Ctx, a Args, r M) error {
		raw := []string{}
		switch ls := a["lines"].(type) {
		case []Line:
			for _, l := range ls {
				raw = append(raw, l.Raw)
			}
		case []interface{}:
			for _, l := range ls {
				raw = append(raw, l.(map[string]interface{})["raw"].(string))
			}
		}
		text := strings.Join(raw, a.s("eol"))
		if a.b("last") {
			text += a.s("eol")
		}
		how := a.s("how")
		file := ""
		if how == "file" || how == "onefile" {
			file = c.tmpFile()
			if err := os.WriteFile(file, []byte(text), 0644); err != nil {
				panic("harness: " + err.Error())
			}
			defer os.Remove(file)
		}
		r["s"], r["nm"], r["tabs"] = 0, "", []int{}
		if how == "one" || how == "onefile" {
			var t *g.Table
			var err error
			if how == "one" {
				t, err = g.NewTableFromString(text)
			} else {
				t, err = g.NewTableFromFile(file)
			}
			if err != nil {
				return err
			}
			r["tabs"] = []int{c.handle(t)}
			return nil
		}
		var s *g.TableSet
		var err error
		if how == "set" {
			s, err = g.NewTableSetFromString(text)
		} else {
			s, err = g.NewTableSetFromFile(file)
		}
		if err != nil {
			return err
		}
		r["nm"] = s.Name()
		hs := []int{}
		for i := 0; i < s.TableCount(); i++ {
			t, e := s.GetTableByTableIndex(i)
			if e != nil {
				return e
			}
			hs = append(hs, c.handle(t))
		}
		r["tabs"] = hs
		return nil
	})
}

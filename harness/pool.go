package main

// Value pools: concrete values of every gotables type, abstracted to small integer tokens.
// The token of a value is its index (from 1) in its group's pool; pools are sorted so that
// token order is the raw order of the values.

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	g "github.com/urban-wombat/gotables"
)

var allTypes = []string{"*Table", "[]byte", "[]uint8", "bool", "byte", "float32", "float64", "int", "int16", "int32",
	"int64", "int8", "rune", "string", "time.Time", "uint", "uint16", "uint32", "uint64", "uint8"}

// grp maps a column type to its value group (aliases share a group).
func grp(t string) string {
	switch t {
	case "byte", "uint8":
		return "u8"
	case "[]byte", "[]uint8":
		return "sl"
	case "int32", "rune":
		return "i32"
	case "*Table":
		return "tab"
	case "time.Time":
		return "time"
	}
	return t
}

var groups = []string{"bool", "u8", "sl", "float32", "float64", "int", "int16", "i32", "int64", "int8", "string", "time",
	"uint", "uint16", "uint32", "uint64"}

const (
	tokBadType = -1 // dynamic Go type is not the column's type
	tokUnknown = -2 // value is not (bitwise) one of the pool
	tokMissing = -3 // the cell could not be read at all
	tokNilTab  = -4 // a nil *Table in a cell
)

type Pools struct {
	vals  map[string][]interface{}
	index map[string]map[string]int // group -> canonical key -> token
	zero  map[string]int
	near  map[string]map[int][]int  // values which differ as little as possible
	texts map[string]map[string]int // see textTok
}

// neighbour returns a value that differs as little as possible from v.
func neighbour(r *rand.Rand, v interface{}) interface{} {
	bit := func(n int) uint64 { return 1 << uint(r.Intn(n)) }
	switch x := v.(type) {
	case uint8:
		return x ^ uint8(bit(8))
	case int8:
		return x ^ int8(bit(8))
	case int16:
		return x ^ int16(bit(16))
	case uint16:
		return x ^ uint16(bit(16))
	case uint32:
		return x ^ uint32(bit(32))
	case int64:
		return x ^ int64(bit(64))
	case int:
		return x ^ int(bit(64))
	case uint64:
		return x ^ bit(64)
	case uint:
		return x ^ uint(bit(64))
	case float64:
		return math.Float64frombits(math.Float64bits(x) ^ bit(64))
	case float32:
		return math.Float32frombits(math.Float32bits(x) ^ uint32(bit(32)))
	case []byte:
		y := append([]byte{}, x...)
		switch {
		case len(y) == 0 || r.Intn(4) == 0:
			return append(y, byte(r.Intn(2)))
		case r.Intn(4) == 0:
			return y[:len(y)-1]
		}
		y[r.Intn(len(y))] ^= byte(bit(8))
		return y
	case time.Time:
		switch r.Intn(4) {
		case 0:
			return x.Add(time.Nanosecond)
		case 1:
			return x.Add(time.Second)
		case 2:
			return x.Add(-time.Millisecond)
		}
		return x.Add(time.Hour)
	case string:
		q := []rune(x)
		k := 0
		if len(q) > 0 {
			k = r.Intn(len(q))
		}
		switch {
		case len(q) == 0 || r.Intn(4) == 0:
			return x + []string{" ", "a", "0", "\x00", "."}[r.Intn(5)]
		case r.Intn(4) == 0:
			return string(append(append([]rune{}, q[:k]...), q[k+1:]...))
		case r.Intn(2) == 0:
			if u := unicode.ToUpper(q[k]); u != q[k] {
				q[k] = u
			} else {
				q[k] = unicode.ToLower(q[k])
			}
		default:
			q[k]++
			if q[k] >= 0xd800 && q[k] < 0xe000 || q[k] > 0x10ffff {
				q[k] = 'q'
			}
		}
		return string(q)
	}
	return nil
}

// key returns a canonical identity of a concrete value.
func key(v interface{}) string {
	switch x := v.(type) {
	case float32:
		if x != x {
			return "nan"
		}
		return fmt.Sprintf("%x", math.Float32bits(x))
	case float64:
		if x != x {
			return "nan"
		}
		return fmt.Sprintf("%x", math.Float64bits(x))
	case string:
		return x
	case []byte:
		return string(x)
	case time.Time:
		return fmt.Sprintf("%d.%d", x.Unix(), x.Nanosecond())
	}
	return fmt.Sprintf("%v", v)
}

func less(grp string, a, b interface{}) bool {
	switch grp {
	case "bool":
		return !a.(bool) && b.(bool)
	case "u8":
		return a.(uint8) < b.(uint8)
	case "sl":
		return bytes.Compare(a.([]byte), b.([]byte)) < 0
	case "float32":
		return fl(float64(a.(float32)), float64(b.(float32)))
	case "float64":
		return fl(a.(float64), b.(float64))
	case "int":
		return a.(int) < b.(int)
	case "int8":
		return a.(int8) < b.(int8)
	case "int16":
		return a.(int16) < b.(int16)
	case "i32":
		return a.(int32) < b.(int32)
	case "int64":
		return a.(int64) < b.(int64)
	case "uint":
		return a.(uint) < b.(uint)
	case "uint16":
		return a.(uint16) < b.(uint16)
	case "uint32":
		return a.(uint32) < b.(uint32)
	case "uint64":
		return a.(uint64) < b.(uint64)
	case "string":
		return a.(string) < b.(string)
	case "time":
		return a.(time.Time).Before(b.(time.Time))
	}
	panic("less " + grp)
}

func fl(a, b float64) bool {
	if a != a {
		return b == b // NaN lowest in pool order
	}
	if b != b {
		return false
	}
	if a == b {
		return math.Signbit(a) && !math.Signbit(b)
	}
	return a < b
}

var strEdge = []string{"", " ", "  ", "a", "A", "b", "B", "ab", "aB", "Ab", "AB", "abc", "zz", "Zz", "_", "0", "1", "01", "1.0", "-1", "+1", "0x10",
	"true", "false", "True", "nil", "null", "Null", "~", "NaN", "nan", ".nan", "Inf", ".inf", "yes", "no", "on", "off", "y", "n",
	"[T]", "[[S]]", "[]", "[1 2]", "T", "int", "string", "# comment", "#", "//", "a // b", "a=b", "= 1", "x int = 3",
	"\t", "a\tb", "\n", "a\nb", "a\n\nb", "\r", "a\r\nb", "\\", "\\\\", "a\\b", "\\n", "\"", "\"\"", "a\"b", "\"quoted\"", "'", "'a'", "`", "`a`", "a`b\"c",
	"\x00", "a\x00b", "\x01", "\x07\x08\x0b\x0c", "\x1b[0m", "\x7f", "\u0080", "\u00a0", "\u00e9", "É", "é", "ß", "ẞ", "İ", "i", "I", "ı", "Ω", "ω", "Ж", "ж",
	"\u2028", "\u2029", "\ufeff", "\ufffd", "日本語", "\U0001f600", "\U0010ffff", "e\u0301", "\u200b", "a,b", ",", ";", "a;b", "%d", "%s%n%v", "100%", "<a&b>", "a: b", "- a", "? a", "{a: 1}", "[a, b]", "&a", "*a", "!a", "|", ">", "@a", "---", "...",
	"2020-01-01", "2020-01-01T00:00:00Z", "12:30", "1e3", "0b101", "0o17", "1_000", " lead", "trail ", "  both  ", "a  b", "\n\n", "\na", "a\n", "key: |\n  x", "\\u0041", "\\x41", "\\\"", "a\\", "{{x}}", "$1", "${x}", "\u0000\u0001",
	strings.Repeat("x", 127), strings.Repeat("y", 256), strings.Repeat("é\" ", 1500), strings.Repeat("long ", 14000)}

var strBad = []string{"\xff", "a\xc3", "\xed\xa0\x80"} // invalid UTF-8

func randString(r *rand.Rand) string {
	n := r.Intn(12)
	if r.Intn(30) == 0 {
		n = 100 + r.Intn(400)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch r.Intn(8) {
		case 0:
			b.WriteRune(rune(r.Intn(0x80)))
		case 1:
			b.WriteRune(rune(0x80 + r.Intn(0x800)))
		case 2:
			x := rune(r.Intn(0x110000))
			if x >= 0xd800 && x < 0xe000 {
				x = 'x'
			}
			b.WriteRune(x)
		case 3:
			b.WriteString([]string{"\\", "\"", "'", "`", "\n", "\t", " ", "#", "[", "]", "{", ":", ",", "="}[r.Intn(14)])
		default:
			b.WriteByte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_ "[r.Intn(64)])
		}
	}
	return b.String()
}

// bitValues: the values of a group that differ from another one in a single bit (byte, letter, second, ...):
// the pool of size -1, for the models that go through all of it.
func bitValues(gr string) []interface{} {
	l := []interface{}{}
	add := func(v interface{}) { l = append(l, v) }
	switch gr {
	case "u8":
		add(uint8(0x5a))
		for k := 0; k < 8; k++ {
			add(uint8(1) << k)
			add(uint8(0x5a) ^ uint8(1)<<k)
		}
	case "int8":
		for k := 0; k < 8; k++ {
			add(int8(1) << k)
			add(^(int8(1) << k))
		}
	case "int16":
		for k := 0; k < 16; k++ {
			add(int16(1) << k)
			add(^(int16(1) << k))
		}
	case "uint16":
		for k := 0; k < 16; k++ {
			add(uint16(1) << k)
			add(uint16(1)<<k - 1)
		}
	case "i32":
		for k := 0; k < 32; k++ {
			add(int32(1) << k)
			add(^(int32(1) << k))
		}
		for k := rune(32); k < 127; k++ {
			add(k)
		}
	case "uint32":
		for k := 0; k < 32; k++ {
			add(uint32(1) << k)
			add(uint32(1)<<k - 1)
		}
	case "int", "int64", "uint", "uint64":
		for k := 0; k < 64; k++ {
			for _, x := range []uint64{1 << k, ^(uint64(1) << k), 1<<k - 1} {
				switch gr {
				case "int":
					add(int(x))
				case "int64":
					add(int64(x))
				case "uint":
					add(uint(x))
				default:
					add(x)
				}
			}
		}
	case "float64":
		add(1.1)
		for k := 0; k < 64; k++ {
			add(math.Float64frombits(1 << k))
			add(math.Float64frombits(math.Float64bits(1.1) ^ 1<<k))
			add(math.Float64frombits(uint64(k*32)<<52 | 0x8000000000000))
		}
	case "float32":
		add(float32(1.1))
		for k := 0; k < 32; k++ {
			add(math.Float32frombits(1 << k))
			add(math.Float32frombits(math.Float32bits(1.1) ^ 1<<k))
			add(math.Float32frombits(uint32(k*8)<<23 | 0x400000))
		}
	case "string":
		add("mm")
		for k := 0; k < 128; k++ {
			add(string(rune(k)))
			if k != 'm' {
				add("m" + string(rune(k)) + "m")
			}
		}
		for k := 7; k < 21; k++ {
			if x := rune(1) << k; utf8.ValidRune(x) {
				add(string(x))
				add("z" + string(x-1) + string(x+1))
			}
		}
		// white space and what some notations take for it, at the start and at the end of lines
		for _, q := range []rune{' ', '\t', '\r', '\v', '\f', '\n', 0x85, 0xa0, 0x1680, 0x2000, 0x200b, 0x2028, 0x2029, 0x3000, 0xfeff, '#', '-', ':', '?', '|', '>', '"', '\'', '\\', '%', '@', '&', '*', '!', '~', ',', '[', ']', '{', '}', '<', '='} {
			x := string(q)
			for _, l := range []string{x + "y\nz", "\n" + x + "y", "y\n" + x, "y" + x + "\nz", "y\n" + x + "\nz", x + " y", "y" + x + " z", "y " + x + "z", x + x + x, "y" + x, x + "y"} {
				add(l)
			}
		}
		for k := 2; k < 17; k++ {
			for _, d := range []int{-1, 0, 1} {
				add(strings.Repeat("w", 1<<k+d))
			}
		}
	case "sl":
		add([]byte{0x5a})
		for k := 0; k < 8; k++ {
			add([]byte{0x5a ^ 1<<k})
			add([]byte{9, 0x5a ^ 1<<k, 9})
			add([]byte{9, 9, 9, 0x5a ^ 1<<k})
			add([]byte{0x5a ^ 1<<k, 9, 9, 9, 9})
		}
		for k := 0; k < 13; k++ {
			for _, d := range []int{-1, 0, 1} {
				add(bytes.Repeat([]byte{200}, 1<<k+d))
			}
		}
	case "time":
		t0 := time.Date(2020, 1, 2, 3, 4, 5, 600000000, time.UTC)
		for k := 0; k < 9; k++ {
			add(t0.Add(time.Duration(math.Pow10(k)) * 1))
			add(t0.Add(time.Duration(math.Pow10(k)) * 7))
			add(t0.Add(-time.Duration(math.Pow10(k)) * 1))
		}
		for k := 0; k < 36; k++ {
			if k < 33 {
				add(time.Unix(t0.Unix()+1<<k, 600000000).UTC())
				add(time.Unix(t0.Unix()-1<<k, 600000000).UTC())
			}
			add(t0.In(time.FixedZone("", (k-18)*1800)).Add(time.Duration(k) * time.Minute))
		}
		// Whole wraps of a 64 bit count of nanoseconds, microseconds and so on: only the seconds tell these apart.
		for _, k := range []int64{-3, -2, -1, 1, 2, 3} {
			add(time.Unix(t0.Unix()+k*18446744073, 600000000+k*709551616).UTC())
		}
		for y := 1; y <= 9999; y = y*2 + 1 {
			add(time.Date(y, 7, 8, 9, 10, 11, 0, time.UTC))
		}
		for m := 1; m < 13; m++ {
			add(time.Date(2016, time.Month(m), 28, 0, 0, 0, 0, time.UTC).AddDate(0, 0, 1))
			add(time.Date(2011, time.Month(m), 1, 0, 0, 0, 0, time.UTC).Add(-time.Nanosecond))
		}
	}
	return l
}

func isZeroTime(v time.Time) bool { return v.IsZero() }

// newPools draws the pools for one trace. n is the approximate size of each pool.
func newPools(r *rand.Rand, n int, badText bool) *Pools {
	p := &Pools{vals: map[string][]interface{}{}, index: map[string]map[string]int{}, zero: map[string]int{}, near: map[string]map[int][]int{}}
	add := func(grp string, v interface{}) {
		if p.index[grp] == nil {
			p.index[grp] = map[string]int{}
		}
		k := key(v)
		if _, ok := p.index[grp][k]; ok {
			return
		}
		p.index[grp][k] = 0
		p.vals[grp] = append(p.vals[grp], v)
	}
	type pair struct{ grp, a, b string }
	pairs := []pair{}
	pick := func(grp string, always []interface{}, edge []interface{}, rnd func() interface{}) {
		for _, v := range always {
			add(grp, v)
		}
		if n < 0 {
			for _, v := range bitValues(grp) {
				add(grp, v)
			}
		}
		idx := r.Perm(len(edge))
		for i := 0; i < len(edge) && i < n; i++ {
			add(grp, edge[idx[i]])
		}
		for i := 0; i < n/2; i++ {
			add(grp, rnd())
		}
		if grp == "bool" || grp == "i32" {
			return
		}
		for i := 0; i < n/4; i++ {
			v := p.vals[grp][r.Intn(len(p.vals[grp]))]
			if t, ok := v.(time.Time); ok && (t.Year() < 2 || t.Year() > 9998) {
				continue
			}
			if str, ok := v.(string); ok && !utf8.ValidString(str) {
				continue
			}
			w := neighbour(r, v)
			if w == nil || key(w) == key(v) {
				continue
			}
			add(grp, w)
			pairs = append(pairs, pair{grp, key(v), key(w)})
		}
	}
	I := func(xs ...interface{}) []interface{} { return xs }
	pick("bool", I(false, true), nil, func() interface{} { return r.Intn(2) == 0 })
	pick("u8", I(uint8(0), uint8(1), uint8(255)), I(uint8(2), uint8(9), uint8(10), uint8(127), uint8(128), uint8(200), uint8(254)), func() interface{} { return uint8(r.Intn(256)) })
	pick("int8", I(int8(0), int8(1), int8(-1)), I(int8(-128), int8(127), int8(9), int8(10), int8(-127), int8(100)), func() interface{} { return int8(r.Intn(256) - 128) })
	pick("int16", I(int16(0), int16(1), int16(-1)), I(int16(-32768), int16(32767), int16(255), int16(256), int16(-256), int16(1000)), func() interface{} { return int16(r.Intn(65536) - 32768) })
	pick("uint16", I(uint16(0), uint16(1)), I(uint16(65535), uint16(32767), uint16(32768), uint16(255), uint16(256), uint16(10)), func() interface{} { return uint16(r.Intn(65536)) })
	rs := []interface{}{}
	for _, x := range []rune{'a', 'A', 'z', '0', ' ', '\t', '\n', '\r', '\\', '\'', '"', '`', '#', '/', '[', ']', ',', ':', '%', 0x07, 0x1b, 0x7f, 0x80, 0xa0, 0xe9, 0xff, 0x100, 0x3a9, 0x2028, 0xfeff, 0xfffd, 0x4e16, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x301, 0xad} {
		rs = append(rs, x)
	}
	if badText {
		rs = append(rs, rune(-1), rune(0xd800), rune(0xdfff), rune(0x110000), int32(math.MinInt32), int32(math.MaxInt32))
	} else {
		rs = append(rs, int32(-1), int32(math.MinInt32), int32(math.MaxInt32), int32(-65536))
	}
	// U+FFFD stands for what is not a rune, wherever one is written
	pick("i32", I(int32(0), int32(1), 'a', int32(0xfffd)), rs, func() interface{} {
		x := int32(r.Intn(0x110000))
		if r.Intn(4) == 0 {
			x = int32(r.Uint32())
		}
		return x
	})
	pick("uint32", I(uint32(0), uint32(1)), I(uint32(math.MaxUint32), uint32(math.MaxInt32), uint32(1<<31), uint32(16777217), uint32(65536), uint32(12)), func() interface{} { return r.Uint32() })
	i64 := []int64{math.MinInt64, math.MaxInt64, 1 << 53, 1<<53 + 1, -(1<<53 + 1), 1<<62 + 1, math.MaxInt64 - 1, math.MinInt64 + 1, 1<<31 - 1, 1 << 31, 1 << 32, -1 << 31, 10, -10, 100, 123456789012345678, 999999999999999999}
	u64 := []uint64{math.MaxUint64, math.MaxUint64 - 1, 1 << 63, 1<<63 - 1, 1<<63 + 1, 1<<53 + 1, 1 << 53, 1 << 32, 1<<32 - 1, 10, 100, 12345678901234567890}
	e1, e2, e3, e4 := []interface{}{}, []interface{}{}, []interface{}{}, []interface{}{}
	for _, x := range i64 {
		e1 = append(e1, x)
		e2 = append(e2, int(x))
	}
	for _, x := range u64 {
		e3 = append(e3, x)
		e4 = append(e4, uint(x))
	}
	ri := func() int64 { return int64(r.Uint64()) >> uint(r.Intn(64)) }
	pick("int64", I(int64(0), int64(1), int64(-1)), e1, func() interface{} { return ri() })
	pick("int", I(int(0), int(1), int(-1), int(2)), e2, func() interface{} { return int(ri()) })
	ru := func() uint64 { return r.Uint64() >> uint(r.Intn(64)) }
	pick("uint64", I(uint64(0), uint64(1)), e3, func() interface{} { return ru() })
	pick("uint", I(uint(0), uint(1)), e4, func() interface{} { return uint(ru()) })
	f64 := []float64{math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 0.1, 0.2, 0.30000000000000004, 1.5, -1.5, 100, 1e6, 1e21, 1e20, 1e-7, 1e-6, 123456789.125, 1 << 53, 1<<53 + 2, 3.141592653589793, 1e300, 2.2250738585072014e-308, 16777217, -100, 10, 0.5, 1e22, 1.7976931348623155e308, 5, 3e-5, 7.120236347223045e-307, 5.641232424577593e-278, -8.209073602596753e-289}
	f32 := []float32{float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 0.1, 0.2, 0.3, 1.5, -1.5, 100, 1e6, 1e21, 1e20, 1e-7, 3.1415927, 16777216, 1.17549435e-38, 10, 0.5, 5, 3e-5, 1.2621775e-29}
	e5, e6 := []interface{}{}, []interface{}{}
	for _, x := range f64 {
		e5 = append(e5, x)
	}
	for _, x := range f32 {
		e6 = append(e6, x)
	}
	pick("float64", I(float64(0), math.NaN(), math.Copysign(0, -1), float64(1), float64(-1)), e5, func() interface{} {
		switch r.Intn(5) {
		case 0, 1:
			return math.Float64frombits(r.Uint64())
		case 2: // powers of two: their neighbours are not equally far
			return math.Ldexp(1-2*float64(r.Intn(2)), r.Intn(2098)-1074)
		}
		return (r.Float64() - 0.5) * math.Pow(10, float64(r.Intn(20)-6))
	})
	pick("float32", I(float32(0), float32(math.NaN()), float32(math.Copysign(0, -1)), float32(1), float32(-1)), e6, func() interface{} {
		switch r.Intn(5) {
		case 0, 1:
			return math.Float32frombits(r.Uint32())
		case 2:
			return float32(math.Ldexp(1-2*float64(r.Intn(2)), r.Intn(277)-149))
		}
		return float32((r.Float64() - 0.5) * math.Pow(10, float64(r.Intn(20)-6)))
	})
	se := []interface{}{}
	for _, x := range strEdge {
		se = append(se, x)
	}
	if badText {
		for _, x := range strBad {
			se = append(se, x)
		}
	}
	pick("string", I("", "a", "A", "b"), se, func() interface{} { return randString(r) })
	bl := []interface{}{[]byte{0}, []byte{255}, []byte{1, 2, 3}, []byte{0, 0}, []byte("hello"), []byte{10, 13, 34}, []byte{1}, bytes.Repeat([]byte{7}, 40), bytes.Repeat([]byte{200, 1}, 128), bytes.Repeat([]byte{1, 0, 255}, 2000)}
	pick("sl", I([]byte{}, []byte{0}), bl, func() interface{} {
		b := make([]byte, r.Intn(9))
		r.Read(b)
		return b
	})
	zs := []*time.Location{time.UTC, time.FixedZone("", 11*3600), time.FixedZone("", -(5*3600 + 30*60)), time.FixedZone("X", 3600)}
	tm := []interface{}{
		time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2020, 2, 29, 23, 59, 59, 999999999, time.UTC), time.Date(2020, 1, 1, 0, 0, 0, 1, zs[1]),
		time.Date(1999, 12, 31, 23, 59, 59, 500000000, zs[2]), time.Date(2021, 6, 1, 12, 0, 0, 120, zs[3]), time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC),
		time.Date(1, 1, 2, 0, 0, 0, 0, time.UTC), time.Date(1969, 12, 31, 23, 59, 59, 900000000, time.UTC), time.Date(2006, 1, 2, 15, 4, 5, 123456789, zs[1]),
		time.Date(2006, 1, 2, 15, 4, 5, 123456000, zs[0]), time.Date(2006, 1, 2, 15, 4, 5, 100000000, zs[0])}
	pick("time", I(g.MinTime, time.Date(2020, 1, 2, 3, 4, 5, 600000000, time.UTC)), tm, func() interface{} {
		ns := int64(0)
		switch r.Intn(4) {
		case 0:
			ns = int64(r.Intn(1e9))
		case 1:
			ns = int64(r.Intn(1000)) * 1e6
		}
		return time.Unix(int64(r.Intn(4e9))-1e9, ns).In(zs[r.Intn(len(zs))])
	})
	for _, gr := range groups {
		vs := p.vals[gr]
		sort.SliceStable(vs, func(i, j int) bool { return less(gr, vs[i], vs[j]) })
		for i, v := range vs {
			p.index[gr][key(v)] = i + 1
			if isZero(v) {
				p.zero[gr] = i + 1
			}
		}
	}
	for _, x := range pairs {
		if p.near[x.grp] == nil {
			p.near[x.grp] = map[int][]int{}
		}
		a, b := p.index[x.grp][x.a], p.index[x.grp][x.b]
		p.near[x.grp][a] = append(p.near[x.grp][a], b)
		p.near[x.grp][b] = append(p.near[x.grp][b], a)
	}
	return p
}

func isZero(v interface{}) bool {
	switch x := v.(type) {
	case []byte:
		return len(x) == 0
	case time.Time:
		return isZeroTime(x)
	case float64:
		return math.Float64bits(x) == 0
	case float32:
		return math.Float32bits(x) == 0
	case bool:
		return !x
	case string:
		return x == ""
	}
	return fmt.Sprintf("%v", v) == "0"
}

// header is the value description the trace specification reads.
func (p *Pools) header() map[string]interface{} {
	rank := map[string][]int{}
	for _, gr := range groups {
		vs := p.vals[gr]
		rk := make([]int, len(vs))
		c := 0
		for i := range vs {
			if i > 0 && !(less(gr, vs[i-1], vs[i]) && !sameNum(vs[i-1], vs[i])) {
				// equal in the type's own order (only -0.0 and 0.0)
			} else {
				c++
			}
			rk[i] = c
		}
		rank[gr] = rk
	}
	// strings: rank of the lower-case form
	vs := p.vals["string"]
	lows := map[string]bool{}
	for _, v := range vs {
		lows[strings.ToLower(v.(string))] = true
	}
	ls := []string{}
	for l := range lows {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	fold := make([]int, len(vs))
	for i, v := range vs {
		fold[i] = sort.SearchStrings(ls, strings.ToLower(v.(string))) + 1
	}
	nan := map[string]int{}
	inf := map[string][]int{"float32": {}, "float64": {}}
	for i, v := range p.vals["float64"] {
		x := v.(float64)
		if x != x {
			nan["float64"] = i + 1
		}
		if math.IsInf(x, 0) {
			inf["float64"] = append(inf["float64"], i+1)
		}
	}
	for i, v := range p.vals["float32"] {
		x := float64(v.(float32))
		if x != x {
			nan["float32"] = i + 1
		}
		if math.IsInf(x, 0) {
			inf["float32"] = append(inf["float32"], i+1)
		}
	}
	badRune, badStr := []int{}, []int{}
	for i, v := range p.vals["i32"] {
		if !utf8.ValidRune(v.(int32)) {
			badRune = append(badRune, i+1)
		}
	}
	for i, v := range p.vals["string"] {
		if !utf8.ValidString(v.(string)) {
			badStr = append(badStr, i+1)
		}
	}
	negz := map[string]int{"float32": p.index["float32"][key(float32(math.Copysign(0, -1)))], "float64": p.index["float64"][key(math.Copysign(0, -1))]}
	base := map[string]int{} // a value that the single differences are from
	for gr, v := range map[string]interface{}{"bool": true, "u8": uint8(0x5a), "int8": int8(0), "int16": int16(0), "uint16": uint16(0), "i32": int32(0), "uint32": uint32(0), "int": 0, "int64": int64(0),
		"uint": uint(0), "uint64": uint64(0), "float64": 1.1, "float32": float32(1.1), "string": "mm", "sl": []byte{0x5a}, "time": time.Date(2020, 1, 2, 3, 4, 5, 600000000, time.UTC)} {
		base[gr] = p.index[gr][key(v)]
	}
	return map[string]interface{}{"base": base, "rank": rank, "fold": fold, "zero": p.zero, "nan": nan, "inf": inf, "badRune": badRune, "badStr": badStr, "negz": negz,
		"one": p.index["int"][key(1)], "t": p.index["bool"][key(true)], "f": p.index["bool"][key(false)]}
}

func sameNum(a, b interface{}) bool {
	switch x := a.(type) {
	case float64:
		return x == b.(float64)
	case float32:
		return x == b.(float32)
	}
	return false
}

// tok abstracts a cell value read from a column of type ct.
func (p *Pools) tok(ct string, v interface{}) int {
	gr := grp(ct)
	okType := false
	switch v.(type) {
	case bool:
		okType = gr == "bool"
	case uint8:
		okType = gr == "u8"
	case []byte:
		okType = gr == "sl"
	case float32:
		okType = gr == "float32"
	case float64:
		okType = gr == "float64"
	case int:
		okType = gr == "int"
	case int8:
		okType = gr == "int8"
	case int16:
		okType = gr == "int16"
	case int32:
		okType = gr == "i32"
	case int64:
		okType = gr == "int64"
	case uint:
		okType = gr == "uint"
	case uint16:
		okType = gr == "uint16"
	case uint32:
		okType = gr == "uint32"
	case uint64:
		okType = gr == "uint64"
	case string:
		okType = gr == "string"
	case time.Time:
		okType = gr == "time"
	}
	if !okType {
		return tokBadType
	}
	if t, ok := p.index[gr][key(v)]; ok {
		return t
	}
	return tokUnknown
}

// val concretises a token (a fresh copy for byte slices).
func (p *Pools) val(ct string, tok int) interface{} {
	v := p.vals[grp(ct)][tok-1]
	if b, ok := v.([]byte); ok {
		c := make([]byte, len(b))
		copy(c, b)
		return c
	}
	return v
}

func (p *Pools) size(ct string) int { return len(p.vals[grp(ct)]) }

func (p *Pools) isNaN(gr string, tok int) bool {
	switch x := p.vals[gr][tok-1].(type) {
	case float64:
		return x != x
	case float32:
		return x != x
	}
	return false
}

func (p *Pools) isNegZ(gr string, tok int) bool {
	switch x := p.vals[gr][tok-1].(type) {
	case float64:
		return x == 0 && math.Signbit(x)
	case float32:
		return x == 0 && math.Signbit(float64(x))
	}
	return false
}

func (p *Pools) isInf(gr string, tok int) bool {
	switch x := p.vals[gr][tok-1].(type) {
	case float64:
		return math.IsInf(x, 0)
	case float32:
		return math.IsInf(float64(x), 0)
	}
	return false
}

// nearKeys are the tokens that have a neighbour.
func (p *Pools) nearKeys(gr string) []int {
	l := []int{}
	for i := range p.vals[gr] {
		if len(p.near[gr][i+1]) > 0 {
			l = append(l, i+1)
		}
	}
	return l
}

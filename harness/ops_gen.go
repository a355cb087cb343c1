package main

// Generated Go source. A run with -gendir writes every distinct source as a package there; bin/check compiles
// them into a second driver, which registers their functions in generated and runs them.

import (
	"crypto/sha256"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	g "github.com/urban-wombat/gotables"
)

var genDir string

// generated: table -> slice of struct -> table, as compiled from the generated source, and the length of the slice
var generated = map[string]func(*g.Table) (*g.Table, int, error){}

// uncompiled: sources the compiler refused
var uncompiled = map[string]string{}

// genSource is the generated source without its dates.
func genSource(t *g.Table) (string, error) {
	out := ""
	for _, f := range []func() (string, error){t.GenerateTypeStruct, t.GenerateTypeStructSliceFromTable, t.GenerateTypeStructSliceToTable} {
		s, err := f()
		if err != nil {
			return "", err
		}
		for _, l := range strings.Split(s, "\n") {
			if !strings.Contains(l, "DO NOT MODIFY") {
				out += l + "\n"
			}
		}
		out += "\n"
	}
	return out, nil
}

func writeGen(key, nm, src string) {
	d := filepath.Join(genDir, "g"+key)
	if _, err := os.Stat(d); err == nil {
		return
	}
	if err := os.MkdirAll(d, 0o755); err != nil {
		fatal(err.Error())
	}
	run := fmt.Sprintf("package g%s\n\nimport \"github.com/urban-wombat/gotables\"\n\nfunc XXRun(x *gotables.Table) (*gotables.Table, int, error) {\n\ts, err := TypeStructSliceFromTable_%s(x)\n"+
		"\tif err != nil {\n\t\treturn nil, -1, err\n\t}\n\ty, err := TypeStructSliceToTable_%s(s)\n\treturn y, len(s), err\n}\n", key, nm, nm)
	head := "package g" + key + "\n\nimport (\n\t\"fmt\"\n"
	if strings.Contains(src, "time.") {
		head += "\t\"time\"\n"
	}
	head += "\n\t\"github.com/urban-wombat/gotables\"\n)\n\n"
	if os.WriteFile(filepath.Join(d, "src.go"), []byte(head+src), 0o644) != nil || os.WriteFile(filepath.Join(d, "run.go"), []byte(run), 0o644) != nil {
		fatal("cannot write generated source")
	}
}

var genCols = []string{"err", "table", "rowIndex", "slice", "gotables", "fmt", "nil", "i", "len", "make", "error", "T1", "Tab", "tableName", "colNames", "x", "time", "append", "true_", "Int", "_", "true", "string_", "append", "len", "new", "range_", "index", "err1"}

func init() {
	reg("GenSrc", func(c *Ctx) M {
		return M{"t": c.pickT(), "w": []string{"struct", "from", "to"}[c.r.Intn(3)]}
	}, func(c *Ctx, a Args, r M) error {
		t := c.tab(a, "t")
		f := map[string]func() (string, error){"struct": t.GenerateTypeStruct, "from": t.GenerateTypeStructSliceFromTable, "to": t.GenerateTypeStructSliceToTable}[a.s("w")]
		s, err := f()
		r["some"] = s != ""
		return err
	})
	reg("GenRT", nil, func(c *Ctx, a Args, r M) error {
		t := c.tab(a, "t")
		r["h"], r["n"], r["st"] = 0, -1, ""
		if t == nil {
			r["st"] = "generate"
			_, err := genSource(t)
			return err
		}
		src, err := genSource(t)
		if err != nil {
			r["st"] = "generate"
			return err
		}
		key := fmt.Sprintf("%x", sha256.Sum256([]byte(t.Name()+"\n"+src)))[:16]
		if genDir != "" {
			writeGen(key, t.Name(), src)
			return nil
		}
		if msg, ok := uncompiled[key]; ok {
			r["st"] = "compile"
			return errors.New(msg)
		}
		f := generated[key]
		if f == nil {
			panic("harness: source not seen before: " + key)
		}
		r["st"] = "run"
		u, n, err := f(t)
		r["n"] = n
		return c.ret(r, u, err)
	})
	macros["~gen"] = func(c *Ctx) {
		h := c.pickWhere(func(p *PTab) bool { return len(p.Cols) > 0 })
		if h == 0 {
			return
		}
		p := c.st(h)
		c.do("RenameCol", M{"t": h, "c": p.Cols[c.r.Intn(len(p.Cols))].N, "c2": genCols[c.r.Intn(len(genCols))]})
	}
}

// genTail ends a history: the tables' sources, chosen before any of them is run.
func genTail(c *Ctx) {
	hs := append([]int{}, c.roots...)
	c.r.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
	if len(hs) > 2 {
		hs = hs[:2]
	}
	if c.pct(5) {
		hs = append(hs, 0)
	}
	for _, h := range hs {
		if h == 0 || !c.st(h).Nil {
			c.do("GenRT", M{"t": h})
		}
	}
}

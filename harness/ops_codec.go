package main

// Round trips: a table or table set is written out and read back; the result joins the heap.

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"

	g "github.com/urban-wombat/gotables"
)

const (
	stEnc = 1 // the writer refused
	stDec = 2 // the reader refused what the writer wrote
)

func (c *Ctx) tmpFile() string { return filepath.Join(c.dir, fmt.Sprintf("f%d_%d.got", c.seg, c.n)) }

// oldFile is a file to write to, which in every second event exists already and holds other tables.
func (c *Ctx) oldFile() string {
	f := c.tmpFile()
	if c.n%2 == 1 {
		old := "#old\n"
		for i := 0; i < 600; i++ {
			old += fmt.Sprintf("\n[OldTable%d]\nold int\n", i)
		}
		_ = os.WriteFile(f, []byte(old), 0600)
	}
	return f
}

// retSet registers a decoded set and its tables.
func (c *Ctx) retSet(r M, s *g.TableSet) {
	r["s"] = 0
	if s == nil {
		return
	}
	r["s"] = c.setHandle(s)
	for i := 0; i < s.TableCount(); i++ {
		if t, err := s.GetTableByTableIndex(i); err == nil {
			c.newRoot(t)
		}
	}
}

var textHows = []string{"padded", "unpadded", "string", "file", "byname", "byindex", "filename", "must", "set"}

func writeText(c *Ctx, t *g.Table, how string) (text, file string, err error) {
	switch how {
	case "unpadded", "byindex":
		return t.StringUnpadded(), "", nil
	case "string", "must":
		return t.String(), "", nil
	case "file", "filename":
		file = c.oldFile()
		if err = t.WriteFile(file, 0644); err != nil {
			return "", "", err
		}
		b, e := os.ReadFile(file)
		return string(b), file, e
	}
	return t.StringPadded(), "", nil
}
func rewrite(t *g.Table, how string) string {
	switch how {
	case "unpadded", "byindex":
		return t.StringUnpadded()
	case "string", "must", "file", "filename":
		return t.String()
	}
	return t.StringPadded()
}

func init() {
	// ---- text ----
	reg("TextRT", func(c *Ctx) M {
		return M{"t": c.pickT(), "how": textHows[c.r.Intn(len(textHows))]}
	}, func(c *Ctx, a Args, r M) error {
		t, how := c.tab(a, "t"), a.s("how")
		r["h"], r["st"], r["same"] = 0, stEnc, false
		text, file, err := writeText(c, t, how)
		if file != "" {
			defer os.Remove(file)
		}
		if err != nil {
			return err
		}
		r["st"] = stDec
		var u *g.Table
		switch how {
		case "file":
			u, err = g.NewTableFromFile(file)
		case "filename":
			u, err = g.NewTableFromFileByTableName(file, t.Name())
		case "byname":
			u, err = g.NewTableFromStringByTableName(text, t.Name())
		case "byindex":
			u, err = g.NewTableFromStringByTableIndex(text, 0)
		case "must":
			pn, msg := guard(func() { u = g.NewTableFromStringMustMake(text) })
			if pn {
				err = errors.New(msg)
			}
		case "set":
			var s *g.TableSet
			s, err = g.NewTableSetFromString(text)
			if err == nil {
				u, err = s.GetTableByTableIndex(0)
			}
		default:
			u, err = g.NewTableFromString(text)
		}
		if err != nil {
			return err
		}
		r["st"], r["same"] = 0, rewrite(u, how) == text
		return c.ret(r, u, nil)
	}).mk()
	reg("SetTextRT", func(c *Ctx) M {
		return M{"s": c.pickS(), "how": []string{"padded", "unpadded", "string", "file"}[c.r.Intn(4)]}
	}, func(c *Ctx, a Args, r M) error {
		s, how := c.set(a, "s"), a.s("how")
		r["s"], r["st"], r["same"], r["fn"] = 0, stEnc, false, ""
		w := func(s *g.TableSet) string {
			switch how {
			case "unpadded":
				return s.StringUnpadded()
			case "padded":
				return s.StringPadded()
			}
			return s.String()
		}
		text := ""
		if how == "file" {
			f := c.oldFile()
			if err := s.WriteFile(f, 0600); err != nil {
				return err
			}
			defer os.Remove(f)
			r["st"], r["fn"] = stDec, f
			x, err := g.NewTableSetFromFile(f)
			if err != nil {
				return err
			}
			b, _ := os.ReadFile(f)
			r["st"], r["same"] = 0, w(x) == string(b)
			c.retSet(r, x)
			return nil
		}
		text = w(s)
		r["st"] = stDec
		x, err := g.NewTableSetFromString(text)
		if err != nil {
			return err
		}
		r["st"], r["same"] = 0, w(x) == text
		c.retSet(r, x)
		return nil
	}).mk()
	// one table out of the document of a whole set
	reg("SetPick", func(c *Ctx) M {
		s := c.pickS()
		nm, i := c.tabN(), 0
		if p, ok := c.ps[s]; ok {
			i = c.idx(len(p.Tabs))
			if len(p.Tabs) > 0 && c.pct(80) {
				if x := c.pt[p.Tabs[c.r.Intn(len(p.Tabs))]]; x != nil {
					nm = x.Nm
				}
			}
		}
		return M{"s": s, "nm": nm, "i": i, "how": []string{"name", "index", "file", "json", "one", "onefile", "onejson"}[c.r.Intn(7)]}
	}, func(c *Ctx, a Args, r M) error {
		s := c.set(a, "s")
		r["h"] = 0
		if s == nil {
			return errors.New("nil set")
		}
		var u *g.Table
		var err error
		f := c.oldFile()
		js := ""
		switch a.s("how") {
		case "file", "onefile":
			if err = s.WriteFile(f, 0600); err != nil {
				return err
			}
			defer os.Remove(f)
		case "json", "onejson":
			if js, err = s.GetTableSetAsJSON(); err != nil {
				return err
			}
		}
		switch a.s("how") {
		case "name":
			u, err = g.NewTableFromStringByTableName(s.String(), a.s("nm"))
		case "index":
			u, err = g.NewTableFromStringByTableIndex(s.StringUnpadded(), a.i("i"))
		case "file":
			u, err = g.NewTableFromFileByTableName(f, a.s("nm"))
		case "json":
			u, err = g.NewTableFromJSONByTableName(js, a.s("nm"))
		case "one":
			u, err = g.NewTableFromString(s.String())
		case "onefile":
			u, err = g.NewTableFromFile(f)
		case "onejson":
			u, err = g.NewTableFromJSON(js)
		}
		if err != nil {
			return err
		}
		return c.ret(r, u, nil)
	}).mk()

	// ---- JSON ----
	reg("JsonRT", func(c *Ctx) M {
		return M{"t": c.pickT(), "how": []string{"compact", "indent", "byname"}[c.r.Intn(3)]}
	}, func(c *Ctx, a Args, r M) error {
		t, how := c.tab(a, "t"), a.s("how")
		r["h"], r["st"], r["same"] = 0, stEnc, false
		enc := (*g.Table).GetTableAsJSON
		if how == "indent" {
			enc = (*g.Table).GetTableAsJSONIndent
		}
		text, err := enc(t)
		if err != nil {
			return err
		}
		r["st"] = stDec
		var u *g.Table
		if how == "byname" {
			u, err = g.NewTableFromJSONByTableName(text, t.Name())
		} else {
			u, err = g.NewTableFromJSON(text)
		}
		if err != nil {
			return err
		}
		again, err := enc(u)
		r["st"], r["same"] = 0, err == nil && again == text
		return c.ret(r, u, nil)
	}).mk()
	setCodec := func(name string, hows []string, f func(s *g.TableSet, how string, st *int) (*g.TableSet, bool, error)) {
		reg(name, func(c *Ctx) M { return M{"s": c.pickS(), "how": hows[c.r.Intn(len(hows))]} },
			func(c *Ctx, a Args, r M) error {
				r["s"], r["same"] = 0, false
				st := stEnc
				x, same, err := f(c.set(a, "s"), a.s("how"), &st)
				if err != nil {
					r["st"] = st
					return err
				}
				r["st"], r["same"], r["fn"] = 0, same, ""
				c.retSet(r, x)
				return nil
			}).mk()
	}
	setCodec("SetJsonRT", []string{"compact", "indent"}, func(s *g.TableSet, how string, st *int) (*g.TableSet, bool, error) {
		enc := (*g.TableSet).GetTableSetAsJSON
		if how == "indent" {
			enc = (*g.TableSet).GetTableSetAsJSONIndent
		}
		text, err := enc(s)
		if err != nil {
			return nil, false, err
		}
		*st = stDec
		x, err := g.NewTableSetFromJSON(text)
		if err != nil {
			return nil, false, err
		}
		again, err := enc(x)
		return x, err == nil && again == text, nil
	})
	setCodec("SetYamlRT", []string{"yaml"}, func(s *g.TableSet, how string, st *int) (*g.TableSet, bool, error) {
		text, err := s.GetTableSetAsYAML()
		if err != nil {
			return nil, false, err
		}
		if text == "" {
			return nil, false, errors.New("empty document without an error")
		}
		*st = stDec
		x, err := g.NewTableSetFromYAML(text)
		return x, true, err
	})
	// ---- GOB ----
	reg("GobRT", func(c *Ctx) M {
		return M{"t": c.pickT(), "how": []string{"decode", "new"}[c.r.Intn(2)]}
	}, func(c *Ctx, a Args, r M) error {
		r["h"], r["st"], r["same"] = 0, stEnc, true
		b, err := c.tab(a, "t").GobEncode()
		if err != nil {
			return err
		}
		r["st"] = stDec
		var u *g.Table
		if a.s("how") == "new" {
			u, err = g.NewTableFromGob(b)
		} else {
			u, err = g.GobDecodeTable(b)
		}
		if err != nil {
			return err
		}
		r["st"] = 0
		return c.ret(r, u, nil)
	}).mk()
	setCodec("SetGobRT", []string{"decode", "new"}, func(s *g.TableSet, how string, st *int) (*g.TableSet, bool, error) {
		b, err := s.GobEncode()
		if err != nil {
			return nil, false, err
		}
		*st = stDec
		if how == "new" {
			x, err := g.NewTableSetFromGob(b)
			return x, true, err
		}
		x, err := g.GobDecodeTableSet(b)
		return x, true, err
	})
}

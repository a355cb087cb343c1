package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

var beatAt int64
var beatOp atomic.Value

func beat(op string) {
	beatOp.Store(op)
	atomic.StoreInt64(&beatAt, time.Now().UnixNano())
}

func watchdog(limit time.Duration) {
	for {
		time.Sleep(200 * time.Millisecond)
		op, _ := beatOp.Load().(string)
		if op != "" && time.Now().UnixNano()-atomic.LoadInt64(&beatAt) > int64(limit) {
			fmt.Fprintln(os.Stderr, "HANG", op)
			os.Exit(71)
		}
	}
}

func main() {
	profile := flag.String("profile", "", "profile of random histories")
	seed := flag.Int64("seed", 1, "seed")
	segs := flag.Int("segs", 10, "segments")
	outF := flag.String("out", "", "trace file")
	script := flag.String("script", "", "execute this script instead of random histories")
	skip := flag.String("skip", "", "segments to skip")
	only := flag.Int("only", -1, "only this segment")
	pool := flag.Int("pool", 8, "pool size")
	rich := flag.Bool("rich", false, "put pool values in the header")
	headerF := flag.String("header", "", "only write the value description of the pool to this file")
	flag.StringVar(&genDir, "gendir", "", "write generated sources here")
	flag.Parse()
	debug.SetMaxStack(64 << 20)
	time.Local = time.FixedZone("AEDT", 11*3600)
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if *headerF != "" {
		hdr := newPools(rand.New(rand.NewSource(*seed)), *pool, false).header()
		hdr["op"] = "Header"
		b, _ := json.Marshal(hdr)
		if err := os.WriteFile(*headerF, append(b, '\n'), 0644); err != nil {
			fatal(err.Error())
		}
		return
	}
	f, err := os.Create(*outF)
	if err != nil {
		fatal(err.Error())
	}
	pend, err := os.Create(*outF + ".pend")
	if err != nil {
		fatal(err.Error())
	}
	dir, err := os.MkdirTemp("", "gtv")
	if err != nil {
		fatal(err.Error())
	}
	defer os.RemoveAll(dir)
	w := bufio.NewWriterSize(f, 1<<16)
	prof := profiles[*profile]
	if prof == nil && *script == "" {
		fatal("no profile " + *profile)
	}
	if prof == nil {
		prof = &Profile{types: allTypes}
	}
	if prof.pool > 0 {
		*pool = prof.pool
	}
	p := newPools(rand.New(rand.NewSource(*seed)), *pool, prof.badText)
	hdr := p.header()
	hdr["op"] = "Header"
	hdr["names"] = validNames()
	hdr["types"] = allTypes
	if *rich {
		vals := M{}
		for _, gr := range groups {
			l := []string{}
			for _, v := range p.vals[gr] {
				l = append(l, fmt.Sprintf("%#v", v))
			}
			vals[gr] = l
		}
		hdr["vals"] = vals
	}
	b, _ := json.Marshal(hdr)
	w.Write(b)
	w.WriteByte('\n')
	go watchdog(45 * time.Second)
	c := newCtx(p, w, pend, dir)
	skipped := map[int]bool{}
	for _, s := range strings.Split(*skip, ",") {
		if n, e := strconv.Atoi(s); e == nil {
			skipped[n] = true
		}
	}
	if *script != "" {
		runScript(c, *script, *seed, prof, skipped, *only)
	} else {
		for s := 0; s < *segs; s++ {
			if skipped[s] || (*only >= 0 && s != *only) {
				continue
			}
			c.startSegment(s, *seed*1000003+int64(s), prof)
			c.runSegment()
		}
	}
	fmt.Fprintf(w, "{\"op\":\"End\"}\n")
	if c.cut > 0 {
		fmt.Fprintln(os.Stderr, "CUT", c.cut)
	}
	w.Flush()
	f.Close()
	pend.Truncate(0)
	pend.Close()
}

// runScript executes a list of {"op","a"} lines; "Reset" begins a new segment.
func runScript(c *Ctx, file string, seed int64, prof *Profile, skipped map[int]bool, only int) {
	f, err := os.Open(file)
	if err != nil {
		fatal(err.Error())
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	seg := -1
	over := false
	for sc.Scan() {
		var l struct {
			Op string          `json:"op"`
			R  json.RawMessage `json:"a"`
			A  M               `json:"-"`
		}
		if err := json.Unmarshal(sc.Bytes(), &l); err != nil {
			fatal("script: " + err.Error())
		}
		l.A = M{}
		if len(l.R) > 0 && l.R[0] == '{' { // TLC writes an empty record as []
			if err := json.Unmarshal(l.R, &l.A); err != nil {
				fatal("script: " + err.Error())
			}
		}
		if l.Op == "Reset" {
			seg++
			over = false
			if !(skipped[seg] || (only >= 0 && seg != only)) {
				c.startSegment(seg, seed*1000003+int64(seg), prof)
			}
			continue
		}
		if over || skipped[seg] || (only >= 0 && seg != only) {
			continue
		}
		// the model expected a table the code did not make: what came before shows it, the rest cannot be run
		if c.missing(l.A) {
			over = true
			c.cut++
			continue
		}
		c.do(l.Op, l.A)
	}
}

func validNames() M {
	vt, vc := []string{}, []string{}
	for _, l := range [][]string{tabNames, colNames, wideCols, wideTabs} {
		for _, n := range l {
			vt = append(vt, n)
			vc = append(vc, n)
		}
	}
	return M{"tab": vt, "col": vc}
}

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"path"
	"runtime"
	"sort"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/lock"
	"github.com/go-air/dupi/zz/rt"
)

// ---- what is refused, and what is survived ----

// numbers which a configuration cannot have, and some which it can.
var oddNumbers = []int{-1 << 31, -65536, -7, -1, 0, 0, 0, 1, 2, 3, 5, 8, 1 << 16, 1<<16 + 1, 1 << 17, 3 << 16, 1 << 31}

// configOp draws a way to create an index: each of its numbers may be wrong.
func configOp(g *rt.RNG) Op {
	n := map[string]int{"shards": g.Range(1, 3), "shatters": g.Range(1, 4), "seqlen": g.Range(1, 5), "inter": 1, "flush": g.Range(1, 50), "blotlen": 0}
	if n["seqlen"]%2 == 0 && g.P(1, 4) {
		n["inter"] = 2
	}
	n["blotlen"] = n["seqlen"] / n["inter"]
	tok := "words.simple"
	for i := g.N(3); i > 0; i-- {
		k := []string{"shards", "shatters", "seqlen", "inter", "flush", "blotlen", "token"}[g.N(7)]
		if k == "token" {
			tok = []string{"", "words", "Words.simple"}[g.N(3)]
			continue
		}
		v := oddNumbers[g.N(len(oddNumbers))]
		if v > 8 && k == "shatters" {
			v = 1 << 60
		} else if v > 8 && k == "inter" {
			v = -v
		} else if v > 8 && k != "shards" && g.P(1, 2) {
			v = []int{1 << 16, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 40, math.MaxInt64}[g.N(7)]
		}
		n[k] = v
		if k == "seqlen" && g.P(2, 3) {
			n["inter"], n["blotlen"] = 1, v
		}
	}
	b, _ := json.Marshal(n)
	return Op{K: []string{"lib", "lib", "file", "flags", "create", "open"}[g.N(6)], S: string(b), R: tok, A: g.N(100)}
}

func init() {
	// C29: configurations which cannot work are refused
	register(&Prop{ID: "C29",
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := smallCorpus(g, corpusOpt{Docs: g.Range(1, 8), Sessions: 1})
			for i := g.Range(2, 5); i > 0; i-- {
				s.Ops = append(s.Ops, []Op{configOp(g)})
			}
			return seedQ(g, s)
		},
		Run: func(c *Ctx) {
			putFiles(c, c.spec.Sess)
			for i, ops := range c.spec.Ops {
				if len(ops) > 0 {
					c.configured(fmt.Sprintf("/w/at%d/idx", i), &ops[0])
				}
			}
		}})

	// C30: commands which succeed did what they were to do
	register(&Prop{ID: "C30", K: 6, Strat: denseStrategy,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := smallCorpus(g, corpusOpt{Docs: g.Range(2, 14), Sessions: 1})
			s.Inter = 1
			s.Short = []int{0, 0, 2, 5}[g.N(4)]
			x := newGen(g, s.SeqLen)
			for i := g.Range(1, 3); i > 0; i-- {
				t := x.text()
				if ds := s.docs(); len(ds) > 0 && g.P(2, 3) {
					t = ds[g.N(len(ds))].Text + " " + t
				}
				s.Extra = append(s.Extra, DocS{Path: fmt.Sprintf("query %d", i), Text: t})
			}
			s.Ops = [][]Op{{{K: []string{"extract", "extract-b", "extract-json", "unblot", "unblot-all", "blot", "blot-offsets", "like", "like", "inspect", "inspect-json", "wrong"}[g.N(12)],
				A: g.N(1 << 20), B: g.N(1 << 20)}}}
			s.N["bad"] = g.N(10)
			return seedQ(g, s)
		},
		Prep: func(c *Ctx) {
			prepReading(c)
			for i := range c.spec.Extra {
				c.w.FS.Put("/w/"+c.spec.Extra[i].Path, []byte(c.spec.Extra[i].Text))
			}
			c.w.FS.MkAll("/w/directory")
		},
		Run: commandRun,
		Faults: func(g *rt.RNG, cen map[string]map[string]int, s *Spec) map[string][]rt.Fault {
			kinds := []string{"eio", "enospc"}
			want := func(cl string) bool { return cl == "write:stdout" }
			if g.P(1, 3) {
				kinds = []string{"eio", "eio", "eacces", "emfile"}
				want = func(cl string) bool {
					return strings.HasPrefix(cl, "open:") || strings.HasPrefix(cl, "read") || strings.HasPrefix(cl, "seek:") || strings.HasPrefix(cl, "stat:")
				}
				if len(s.Ops) > 0 && len(s.Ops[0]) > 0 && strings.HasPrefix(s.Ops[0][0].K, "inspect") && g.P(1, 2) {
					want = func(cl string) bool { return strings.HasPrefix(cl, "stat:") }
				}
			}
			f, ok := pickFault(g, cen["command"], kinds, want)
			if !ok {
				return nil
			}
			f.Sticky = []int{0, 0, 1, 1 << 30}[g.N(4)]
			return map[string][]rt.Fault{"command": {f}}
		}})

	// C31: what is closed stays closed
	register(&Prop{ID: "C31",
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := smallCorpus(g, corpusOpt{Docs: g.Range(2, 10), Sessions: g.Range(2, 4)})
			s.Shards = g.Range(1, 2)
			s.N["procs"] = g.Range(1, 3)
			for i := g.Range(1, 4); i > 0; i-- {
				var ops []Op
				for j := g.Range(2, 5); j > 0; j-- {
					ops = append(ops, Op{K: []string{"append", "append", "read", "read", "remove", "removew", "create", "create", "stale", "stale", "stale"}[g.N(11)], A: g.N(100), B: g.N(100)})
				}
				for j := g.Range(1, 3); j > 0; j-- {
					ops = append(ops, Op{K: "stale", A: g.N(100), B: g.N(100)})
				}
				s.Ops = append(s.Ops, ops)
			}
			if g.P(1, 6) {
				// several tasks end one and the same
				s.N["procs"] = 1
				s.N["one"] = 1 + g.N(2)
				s.Ops = nil
				for i := g.Range(2, 4); i > 0; i-- {
					s.Ops = append(s.Ops, []Op{{K: []string{"close", "close", "remove"}[g.N(3)], A: g.N(100), B: g.N(100)}})
				}
			}
			return seedQ(g, s)
		},
		Prep: func(c *Ctx) {
			if len(c.spec.Sess) > 0 {
				putFiles(c, c.spec.Sess)
				c.mustSessions("writer", c.spec.Sess[:1], true)
				c.w.FS.Put("/w/sub/keep", []byte("keep"))
			}
		},
		Run: func(c *Ctx) {
			if c.spec.n("one") != 0 {
				c.endTogether()
				return
			}
			removeRun(c)
		}})

	// C32: damage crashes and hangs nobody
	register(&Prop{ID: "C32", Strat: denseStrategy, MaxTicks: 100_000_000,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := hotCorpus(g, g.Range(1, 2), 1, 2)
			for i := g.Range(4, 12); i > 0; i-- {
				var ops []Op
				for j := []int{1, 1, 1, 2, 4}[g.N(5)]; j > 0; j-- {
					ops = append(ops, Op{K: []string{"flip", "flip", "set", "ones", "zeros", "run", "insert", "drop", "swap", "number", "extend", "field", "field", "field", "field", "field"}[g.N(16)], A: g.N(1 << 20), B: g.N(1 << 20),
						R: []string{"fnm", "dmd", "pos", "pos", "iix", "cfg", ""}[g.N(7)]})
				}
				ops = append(ops, Op{K: []string{"read", "read", "read", "append", "command"}[g.N(5)], A: g.N(1 << 20), B: g.N(1 << 20)})
				s.Ops = append(s.Ops, ops)
			}
			return seedQ(g, s)
		},
		Prep: prepReading,
		Run:  damageRun})
}

// configured creates an index as op says and checks that it either works or
// is refused and leaves nothing behind.
func (c *Ctx) configured(root string, op *Op) {
	n := map[string]int{}
	json.Unmarshal([]byte(op.S), &n)
	k := &c.spec.Sess[0]
	s := c.spec.clone()
	s.Via, s.Shards, s.Shatters, s.SeqLen, s.Inter, s.Flush = "", n["shards"], n["shatters"], n["seqlen"], n["inter"], n["flush"]
	tok, blotlen := op.R, n["blotlen"]
	dir := path.Dir(root)
	c.w.FS.MkAll(dir)
	how := ""
	var err error
	var x *dupi.Indexer
	okay := func() bool {
		return s.Shards >= 1 && s.Shards < 1<<16 && s.Shatters >= 1 && s.SeqLen >= 1 && s.Inter >= 1 && s.Flush >= 1 &&
			s.SeqLen == s.Inter*blotlen && tok == "words.simple"
	}
	cfgFile := func() []byte {
		d, _ := json.Marshal(map[string]interface{}{"IndexRoot": root, "SeqLen": s.SeqLen, "NumShards": s.Shards, "NumShatters": s.Shatters,
			"DocFlushRate": s.Flush, "TokenConfig": map[string]string{"Name": tok}, "BlotConfig": map[string]int{"SeqLen": blotlen, "Interleave": s.Inter}})
		return d
	}
	if op.K == "create" || op.K == "flags" {
		// there the rest is as it is by default
		s.Inter, blotlen, tok, s.Flush = 1, s.SeqLen, "words.simple", 1
		if op.K == "create" {
			s.Shatters = 1
		}
	}
	if s.Shards > 64 && s.Shards < 1<<16 {
		return
	}
	finish := func() {
		if err != nil {
			return
		}
		for i := range k.Docs {
			if e := x.Add(mkDoc(&k.Docs[i])); e != nil {
				c.Fail("session-error", "%s: adding: %v", how, e)
			}
		}
		if e := x.Close(); e != nil {
			c.Fail("session-error", "%s: closing: %v", how, e)
		}
	}
	docs := []Sess{*k}
	switch op.K {
	case "lib", "create":
		how = fmt.Sprintf("creating with %s %s", op.K, cfgFile())
		c.In("writer", cwdOf(k), func() {
			if op.K == "create" {
				x, err = dupi.CreateIndexer(root, s.Shards, s.SeqLen)
			} else {
				var cfg *dupi.Config
				if cfg, err = dupi.DefaultConfig(root); err != nil {
					return
				}
				if e := json.Unmarshal(cfgFile(), cfg); e != nil {
					c.Fail("internal", "%v", e)
				}
				x, err = dupi.IndexerFromConfig(cfg)
			}
			finish()
		})
	case "file", "flags":
		c.w.FS.Put("/w/cfg", cfgFile())
		args := []string{"index", "-c", "/w/cfg"}
		if op.K == "flags" {
			args = []string{"-r", root, "index", "-n", fmt.Sprint(s.Shards), "-t", fmt.Sprint(s.SeqLen), "-s", fmt.Sprint(s.Shatters)}
		}
		docs = []Sess{{}}
		seen := map[string]bool{}
		for i := range k.Docs {
			a := absOf(dirOf(k, i), k.Docs[i].Path)
			if seen[a] || strings.HasPrefix(path.Base(a), ".") {
				continue
			}
			seen[a] = true
			d, _ := c.w.FS.Get(a)
			args = append(args, a)
			docs[0].Docs = append(docs[0].Docs, DocS{Path: a, Text: string(d)})
		}
		shown := strings.Join(args, " ")
		if len(shown) > 120 {
			shown = shown[:120] + "…"
		}
		how = fmt.Sprintf("dupi %s with %s", shown, cfgFile())
		r := c.cliRun("writer", "/w", nil, args...)
		if !r.done {
			c.Fail("internal", "killed")
		}
		if r.code != 0 {
			err = fmt.Errorf("exit %d: %s", r.code, r.err)
		}
	case "open":
		// an index whose configuration was changed behind its back
		good := c.spec.clone()
		good.Via, good.Shards, good.Shatters, good.SeqLen, good.Inter, good.Flush = "", 1, 1, 2, 1, 5
		c.In("writer", cwdOf(k), func() {
			var res sessResult
			kk := *k
			kk.Root = root
			good.session(&kk, true, &res)
			if !res.ok() {
				c.Fail("session-error", "%s", res.String())
			}
		})
		c.w.FS.Put(root+"/cfg.json", cfgFile())
		how = fmt.Sprintf("opening with %s", cfgFile())
		if okay() {
			return
		}
		before := c.w.FS.Tree(dir)
		for k := range before {
			if strings.HasSuffix(k, ".lock") {
				delete(before, k)
			}
		}
		c.In("writer", "/w", func() {
			if op.A%2 == 0 {
				if x, err = dupi.OpenIndexer(root); err == nil {
					c.Fail("accepted", "%s for adding succeeded", how)
				}
			} else if y, err := dupi.OpenIndex(root); err == nil {
				y.Close()
				c.Fail("accepted", "%s for reading succeeded", how)
			}
		})
		after := c.w.FS.Tree(dir)
		for k := range after {
			if strings.HasSuffix(k, ".lock") {
				delete(after, k)
			}
		}
		if d := diffTrees(before, after); d != "" {
			c.Fail("left-over", "%s was refused and changed %s", how, d)
		}
		c.Probe("refused-opening")
		return
	}
	if !okay() || s.Shatters >= 1<<16 && err != nil {
		if err == nil {
			c.Fail("accepted", "%s succeeded", how)
		}
		if c.w.FS.Exists(root) {
			c.Fail("left-over", "%s was refused (%v) and left %v", how, err, keysOf(c.w.FS.Tree(root)))
		}
		c.Probe("refused")
		return
	}
	if err != nil {
		c.Fail("refused", "%s: %v", how, err)
	}
	c.reading(root, func(x *dupi.Index) {
		if x.NumShards() != s.Shards || x.SeqLen() != s.SeqLen {
			c.Fail("config", "%s gave %d shards and length %d", how, x.NumShards(), x.SeqLen())
		}
		m := buildModel(x, docs)
		c.checkLookup(x, m, nil)
		c.checkExtract(c.extract(x, []int{2}), m)
	})
	c.Probe("works")
}

func keysOf(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// commandRun runs a command as it should run, and then with faults.
func commandRun(c *Ctx) {
	s := c.spec
	m := c.data["m"].(*model)
	if len(s.Ops) == 0 || len(s.Ops[0]) == 0 {
		return
	}
	op := s.Ops[0][0]
	args, bad := c.commandArgs(m, &op)
	if args == nil {
		return
	}
	cmd := "dupi " + strings.Join(args, " ")
	if s.n("bad") != 0 {
		bad = ""
	}
	if bad != "" {
		args = append(args, bad)
		cmd += " " + bad
	}
	r := c.cliRun("control", "/w", nil, args...)
	if !r.done {
		c.Fail("internal", "killed")
	}
	if bad == "" && op.K != "wrong" && r.code != 0 {
		c.Fail("exit-code", "%s: exit %d and nothing is wrong: %s", cmd, r.code, r.err)
	}
	if (bad != "" || op.K == "wrong") && r.code == 0 {
		c.Fail("exit-code", "%s: exit 0 although it could not be done: %s", cmd, r.err)
	}
	want := linesOf(r.out)
	f := c.cliRun("command", "/w", nil, args...)
	pl := c.plans["command"]
	got := linesOf(f.out)
	if f.code == 0 && f.done {
		if d := diffLines(got, want); d != "" {
			c.Fail("incomplete", "%s: exit 0, but its output is not what it should be: %s", cmd, d)
		}
		if pl.ErrsOut > 0 {
			c.Probe("fault-without-effect")
		}
		return
	}
	if pl.ErrsOut == 0 && r.code == 0 {
		c.Fail("exit-code", "%s: exit %d the second time, and nothing failed: %s", cmd, f.code, f.err)
	}
	c.Probe("failure-reported")
	if pl.WriteErrs > 0 {
		return
	}
	// what was output before it failed is right
	all := map[string]int{}
	for _, l := range want {
		all[l]++
	}
	for _, l := range got {
		if all[l]--; l != "" && all[l] < 0 {
			c.Fail("wrong-output", "%s: exit %d, but before that it output %q", cmd, f.code, l)
		}
	}
}

func linesOf(out string) []string {
	l := strings.SplitAfter(out, "\n")
	sort.Strings(l)
	return l
}

func diffLines(got, want []string) string {
	n := map[string]int{}
	for _, l := range want {
		n[l]++
	}
	for _, l := range got {
		n[l]--
	}
	var out []string
	for l, k := range n {
		if k > 0 {
			out = append(out, fmt.Sprintf("%q is missing", l))
		} else if k < 0 {
			out = append(out, fmt.Sprintf("%q is extra", l))
		}
	}
	sort.Strings(out)
	if len(out) > 5 {
		out = append(out[:5], "…")
	}
	return strings.Join(out, ", ")
}

// commandArgs makes a command line; bad is an argument which cannot be done.
func (c *Ctx) commandArgs(m *model, op *Op) (args []string, bad string) {
	s := c.spec
	g := rt.Derive(uint64(op.A), "args")
	args = []string{"-r", theRoot}
	verb := strings.Split(op.K, "-")[0]
	args = append(args, verb)
	if k := strings.TrimPrefix(op.K, verb); k != "" {
		args = append(args, k)
	}
	switch verb {
	case "extract":
		args = append(args, fmt.Sprintf("-sigma=%g", []float64{-1000, 0, 1}[op.B%3]))
	case "unblot":
		keys := m.keys()
		if len(keys) == 0 {
			return nil, ""
		}
		for k := 1 + op.B%3; k > 0; k-- {
			args = append(args, fmt.Sprintf("%x", keys[g.N(len(keys))]))
		}
		bad = []string{"xyzzy", "g1", "1ffffffff"}[op.B%3]
	case "blot", "like":
		if len(s.Extra) == 0 {
			return nil, ""
		}
		for k := 1 + op.B%2; k > 0; k-- {
			args = append(args, s.Extra[g.N(len(s.Extra))].Path)
		}
		bad = []string{"not there", "directory"}[op.B%2]
	case "wrong":
		switch op.B % 8 {
		case 7:
			args = [][]string{{}, {"-r"}, {"-r", theRoot}, {"-r", theRoot, "--"}, {"-nosuch"}, {"query 1"}}[op.A%6]
		case 4:
			args = []string{"-r", theRoot, []string{"extract", "inspect", "blot", "like", "unblot"}[op.A%5], "-nosuch", "query 1"}
		case 5:
			args = []string{"-r", theRoot, "-nosuch", []string{"extract", "inspect", "blot", "like", "unblot"}[op.A%5], "query 1"}
		case 6:
			args = append([]string{"-r"}, [][]string{{theRoot, "extract", "-sigma=abc"}, {theRoot, "extract", "-sigma"}, {"/w/new", "index", "-n", "x", "query 1"},
				{"/w/new", "index", "-nosuch", "query 1"}, {theRoot, "blot", "-offsets=7", "query 1"}}[op.A%5]...)
		case 0:
			args = []string{"-r", "/w/nothing here", []string{"extract", "inspect", "blot", "like", "unblot"}[op.A%5], "query 1"}
		case 1:
			args = []string{"-r", theRoot, "frobnicate"}
		case 2:
			args = []string{"-r", theRoot + "/cfg.json", []string{"extract", "inspect", "blot", "like", "unblot"}[op.A%5], "query 1"}
		case 3:
			args = []string{"-r", "/w/directory", []string{"extract", "inspect", "blot", "like", "unblot"}[op.A%5], "query 1"}
		}
	}
	return args, bad
}

// damageRun changes bytes of the files of an index and uses it.
func damageRun(c *Ctx) {
	m := c.data["m"].(*model)
	snap := c.w.FS.Snapshot()
	for i, ops := range c.spec.Ops {
		c.w.FS.Restore(snap.Clone())
		what := ""
		for j := range ops {
			op := &ops[j]
			switch op.K {
			case "read", "append", "command":
			default:
				what += c.spoil(op)
				continue
			}
			var m0, m1 runtime.MemStats
			runtime.ReadMemStats(&m0)
			switch op.K {
			case "read":
				c.In("reader", "/w", func() { c.readDamaged(m, op) })
			case "append":
				c.In("writer", "/w", func() {
					x, err := dupi.OpenIndexer(theRoot)
					if err != nil {
						c.Probe("noticed-open")
						return
					}
					k := freshSess(opSess(c.spec, op), "/w", i)
					for d := range k.Docs {
						if x.Add(mkDoc(&k.Docs[d])) != nil {
							c.Probe("noticed-add")
						}
					}
					if x.Close() != nil {
						c.Probe("noticed-close")
					}
				})
				c.In("reader", "/w", func() { c.readDamaged(m, op) })
			case "command":
				g := rt.Derive(uint64(op.A), "command")
				o := Op{K: []string{"extract", "extract-b", "extract-json", "unblot", "unblot-all", "inspect", "inspect-json"}[g.N(7)], A: op.A, B: op.B}
				args, _ := c.commandArgs(m, &o)
				if args == nil {
					continue
				}
				c.cliRun("command", "/w", nil, args...)
			}
			runtime.ReadMemStats(&m1)
			if n := m1.TotalAlloc - m0.TotalAlloc; n > 2<<30 {
				c.Fail("memory", "after %s, %s used %d MB", what, op.K, n>>20)
			}
			c.Probe(op.K)
		}
	}
}

// spoil damages a file of the index.
func (c *Ctx) spoil(op *Op) string {
	g := rt.Derive(uint64(op.A)<<20|uint64(op.B), "spoil")
	var names []string
	for n := range c.w.FS.Tree(theRoot) {
		if d, ok := c.w.FS.Get(n); ok && len(d) > 0 && (op.R == "" || strings.Contains(path.Base(n), op.R)) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		return ""
	}
	name := names[g.N(len(names))]
	d, _ := c.w.FS.Get(name)
	at := g.N(len(d))
	switch g.N(4) {
	case 0:
		at = g.N(min(len(d), 16))
	case 1:
		at = len(d) - 1 - g.N(min(len(d), 16))
	case 2:
		// where something is, in files which are mostly the same
		if strings.HasSuffix(name, ".iix") {
			var l []int
			for i := 0; i+1 < len(d); i++ {
				if d[i] > 1 {
					l = append(l, i)
				}
			}
			if len(l) > 0 {
				at = l[g.N(len(l))]
			}
		}
	}
	n := min(1+g.N(16), len(d)-at)
	switch op.K {
	case "flip":
		d[at] ^= 1 << uint(g.N(8))
	case "set":
		d[at] = byte(g.N(256))
	case "ones":
		for i := 0; i < n; i++ {
			d[at+i] = 0xff
		}
	case "zeros":
		for i := 0; i < n; i++ {
			d[at+i] = 0
		}
	case "run":
		for i := 0; i < n; i++ {
			d[at+i] = byte(g.N(256))
		}
	case "insert":
		x := make([]byte, n)
		for i := range x {
			x[i] = byte(g.N(256))
		}
		d = append(d[:at:at], append(x, d[at:]...)...)
	case "drop":
		d = append(d[:at:at], d[at+n:]...)
	case "swap":
		// two places change places
		to := g.N(len(d))
		for i := 0; i < n && to+i < len(d); i++ {
			d[at+i], d[to+i] = d[to+i], d[at+i]
		}
	case "number":
		// a large number, in the forms in which files have them
		switch g.N(3) {
		case 0:
			v := []uint64{math.MaxUint32, math.MaxInt64, math.MaxUint64, 1 << 31, 1 << 40, uint64(len(d))}[g.N(6)]
			for v >= 0x80 && at < len(d) {
				d[at] = byte(v) | 0x80
				v >>= 7
				at++
			}
			if at < len(d) {
				d[at] = byte(v)
			}
		case 1:
			for i := 0; i < 8 && at+i < len(d); i++ {
				d[at+i] = []byte{0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}[i]
			}
		case 2:
			// a place in the same file
			v := uint64(g.N(len(d)))
			for i := 0; i < 8 && at+i < len(d); i++ {
				d[at+i] = byte(v >> uint(56-8*i))
			}
		}
	case "field":
		iix, _ := c.w.FS.Get(name + ".iix")
		e := wrongField(g, name, append([]byte(nil), d...), iix)
		var cfg struct{ NumShatters int }
		if name == theRoot+"/cfg.json" && json.Unmarshal(e, &cfg) == nil && cfg.NumShatters > 64 && cfg.NumShatters < 1<<16 {
			break // simulating so many takes long
		}
		d = e
	case "extend":
		for i := 0; i < n*8; i++ {
			d = append(d, byte(g.N(256)))
		}
	}
	c.w.FS.Put(name, d)
	c.Injected(op.K + "@" + path.Base(name))
	return fmt.Sprintf("%s of %s at %d; ", op.K, path.Base(name), at)
}

// readDamaged reads all there is; only the end of it counts.
func (c *Ctx) readDamaged(m *model, op *Op) {
	x, err := dupi.OpenIndex(theRoot)
	if err != nil {
		c.Probe("noticed-open")
		return
	}
	g := rt.Derive(uint64(op.A), "reading")
	q := x.StartQuery(dupi.QueryMaxBlot)
	space := x.NumShards() << 16
	note := func(what string, err error) {
		if err != nil {
			c.Probe("noticed-" + what)
		} else {
			c.Probe("unnoticed-" + what)
		}
	}
	keys := m.keys()
	for i := 0; i < 40; i++ {
		b := uint32(g.N(space))
		if len(keys) > 0 && g.P(3, 4) {
			b = keys[g.N(len(keys))] % uint32(space)
		}
		bl := dupi.Blot{Blot: b}
		note("lookup", q.Get(&bl))
		for k := range bl.Docs {
			if k == 3 {
				break
			}
			_, _, err := x.FindBlot(b, &bl.Docs[k])
			note("find", err)
		}
	}
	_, err = x.Stats()
	note("stats", err)
	for k := 0; k < 2; k++ {
		q := x.StartQuery(dupi.QueryMaxBlot)
		errs := 0
		for i := 0; i < 300 && errs < 5; i++ {
			dst := make([]dupi.Blot, g.Range(1, 5))
			if k == 1 {
				for j := range dst {
					dst[j].Docs = make([]dupi.Doc, 0, 2)
				}
			}
			_, err := q.Next(dst)
			if err == errEOF {
				break
			}
			if err != nil {
				errs++
			}
		}
		if errs > 0 {
			c.Probe("noticed-extraction")
		}
	}
	x.Close()
}

// endTogether has several tasks close or remove one index or indexer: one of
// them does it, and the others are told that it is closed.
func (c *Ctx) endTogether() {
	s := c.spec
	if len(s.Sess) < 2 || len(s.Ops) == 0 {
		return
	}
	var (
		x  *dupi.Index
		w  *dupi.Indexer
		ss = s.Sess[:1]
	)
	p := c.Proc("p0", "/w")
	p.Do("open", func() {
		var err error
		if s.n("one") == 1 {
			x, err = dupi.OpenIndex(theRoot)
		} else {
			w, err = dupi.OpenIndexer(theRoot)
			ss = s.Sess[:2]
			for i := 0; err == nil && i < len(ss[1].Docs); i++ {
				err = w.Add(mkDoc(&ss[1].Docs[i]))
			}
		}
		if err != nil {
			c.Fail("session-error", "%v", err)
		}
	})
	var (
		ts   []*rt.Task
		done []string
	)
	for i := range s.Ops {
		if len(s.Ops[i]) == 0 {
			continue
		}
		op := &s.Ops[i][0]
		ts = append(ts, p.Go(fmt.Sprintf("c%d", i), func() {
			var err error
			switch {
			case x != nil && op.K == "close":
				err = x.Close()
			case x != nil:
				err = dupi.RemoveIndex(x)
			case op.K == "close":
				err = w.Close()
			default:
				err = dupi.RemoveIndexer(w)
			}
			if err == nil {
				done = append(done, op.K)
				// it is free now, for others to have
				f, err := lock.New(theRoot + ".lock")
				if err == nil {
					err = f.Lock()
				}
				if err != nil {
					c.Fail("lock-error", "%v", err)
				}
				rt.Sleep(1e6)
				f.Close()
			}
		}))
	}
	for _, t := range ts {
		t.Wait()
	}
	if len(ts) == 0 {
		return
	}
	if len(done) != 1 {
		c.Fail("ended-twice", "of %d tasks which ended one index at once, %d did: %v", len(ts), len(done), done)
	}
	c.Probe("ended-together:" + done[0])
	p.Kill()
	if done[0] == "remove" {
		if c.w.FS.Exists(theRoot) {
			c.Fail("remove", "%s is still there", theRoot)
		}
		return
	}
	c.reading(theRoot, func(x *dupi.Index) { c.checkLookup(x, buildModel(x, ss), nil) })
}

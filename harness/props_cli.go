package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"path"
	"sort"
	"strings"

	"github.com/go-air/dupi"
	cli0 "github.com/go-air/dupi/zz/cli0"
	cli1 "github.com/go-air/dupi/zz/cli1"
	cli2 "github.com/go-air/dupi/zz/cli2"
	"github.com/go-air/dupi/zz/rt"
)

// ---- the command line program ----

var cliReset = []func(){cli0.ZzReset, cli1.ZzReset, cli2.ZzReset}
var cliMain = []func(){cli0.ZzMain, cli1.ZzMain, cli2.ZzMain}

type cliRun struct {
	code int
	done bool // it was not killed
	out  string
	err  string
	p    *rt.Proc
}

// cliExec runs the program and reports its exit code.
func (c *Ctx) cliExec(role, cwd string, env map[string]string, args ...string) (int, bool) {
	r := c.cliRun(role, cwd, env, args...)
	return r.code, r.done
}

func (c *Ctx) cliRun(role, cwd string, env map[string]string, args ...string) *cliRun {
	slot := -1
	for i := range c.cliBusy {
		if !c.cliBusy[i] {
			slot = i
			break
		}
	}
	if slot < 0 {
		c.Fail("internal", "too many programs at once")
	}
	c.cliBusy[slot] = true
	p := c.Proc(role, cwd)
	p.Args = append([]string{"dupi"}, args...)
	for k, v := range env {
		p.Env[k] = v
	}
	r := runMain(p, cliReset[slot], cliMain[slot])
	c.cliBusy[slot] = false
	return r
}

// runMain runs a program to its end in a new process.
func runMain(p *rt.Proc, reset, main func()) *cliRun {
	ok := p.Do("main", func() {
		reset()
		main()
	})
	r := &cliRun{p: p}
	switch {
	case ok:
		r.done = true
		p.Kill()
	case p.Exited:
		r.done, r.code = true, p.ExitCode
	default:
		r.code = -1
	}
	r.out, r.err = string(p.Stdout), string(p.Stderr)
	return r
}

// ---- source trees ----

// treeSpec puts the documents of the spec at places some of which are hidden.
func treeSpec(g *rt.RNG, s *Spec) {
	var ds []string
	for i := g.Range(1, 5); i > 0; i-- {
		var p []string
		for j := g.N(4); j >= 0; j-- {
			n := []string{"a", "b", "c d", "é", "Z", "x.y", "a-b", "10"}[g.N(8)]
			if g.P(1, 8) {
				n = "." + n
			}
			p = append(p, n)
		}
		ds = append(ds, strings.Join(p, "/")+"/")
	}
	ds = append(ds, "", "")
	used := map[string]bool{}
	n := 0
	for i := range s.Sess {
		for j := range s.Sess[i].Docs {
			d := &s.Sess[i].Docs[j]
			n++
			name := fmt.Sprintf("f%d", n)
			switch g.N(12) {
			case 0:
				name = "." + name
			case 1:
				name += ".txt"
			case 2:
				name = "..." + name
			case 3:
				name = strings.ToUpper(name)
			}
			d.Path = fmt.Sprintf("src%d/", i) + ds[g.N(len(ds))] + name
			d.Start = 0
			used[d.Path] = true
		}
	}
}

// visible lists what indexing arg in the given directory should index, in order.
func (c *Ctx) visible(cwd, arg string) []DocS {
	root := absOf(cwd, arg)
	if b := path.Base(arg); strings.HasPrefix(b, ".") && b != "." && b != ".." {
		return nil
	}
	tree := c.w.FS.Tree(root)
	if t, ok := tree[root]; ok && len(tree) == 1 {
		return []DocS{{Path: root, Text: t}}
	}
	var out []DocS
	type ent struct{ parts []string }
	for k, v := range tree {
		if strings.HasSuffix(k, "/") {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(k, root), "/")
		hid := false
		for _, e := range strings.Split(rel, "/") {
			hid = hid || strings.HasPrefix(e, ".")
		}
		if !hid {
			out = append(out, DocS{Path: k, Text: v})
		}
	}
	// directory by directory, by name
	sort.Slice(out, func(i, j int) bool {
		a, b := strings.Split(out[i].Path, "/"), strings.Split(out[j].Path, "/")
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	return out
}

// srcArgs draws ways to name the source trees in a working directory.
func srcArgs(g *rt.RNG, s *Spec) []Op {
	var ops []Op
	for i := g.Range(1, 3); i > 0; i-- {
		op := Op{K: "arg", A: g.N(len(s.Sess)), B: g.N(6)}
		if ds := s.Sess[op.A].Docs; len(ds) > 0 && g.P(1, 3) {
			// some file or directory in it
			ps := strings.Split(ds[g.N(len(ds))].Path, "/")
			op.R = strings.Join(ps[:g.Range(1, len(ps))], "/")
		}
		ops = append(ops, op)
	}
	return ops
}

func argOf(cwd string, op *Op) string {
	d := fmt.Sprintf("/w/src%d", op.A)
	if op.R != "" {
		abs := "/w/" + op.R
		switch {
		case op.B == 0 && cwd == "/w":
			return op.R
		case op.B == 1 && cwd == "/w":
			return "./" + op.R
		case op.B < 4 && strings.HasPrefix(abs, cwd+"/"):
			return strings.TrimPrefix(abs, cwd+"/")
		case op.B == 4 && cwd == "/":
			return strings.TrimPrefix(abs, "/")
		case op.B == 5 && cwd == "/w/src0":
			return "../" + op.R
		}
		return abs
	}
	switch {
	case cwd == "/w" && op.B == 0:
		return fmt.Sprintf("src%d", op.A)
	case cwd == "/w" && op.B == 1:
		return fmt.Sprintf("./src%d/", op.A)
	case cwd == d && op.B <= 1:
		return "."
	case strings.HasPrefix(cwd, "/w/") && op.B == 2:
		return fmt.Sprintf("../src%d", op.A)
	case cwd == d+"/in" && op.B <= 1:
		return ".."
	}
	return d
}

// widen puts a lot of nothing between two words of some documents, each the
// last of its file.
func widen(g *rt.RNG, s *Spec) {
	last := map[string]*DocS{}
	for i := range s.Sess {
		for j := range s.Sess[i].Docs {
			d := &s.Sess[i].Docs[j]
			n := absOf(dirOf(&s.Sess[i], j), d.Path)
			if l := last[n]; l == nil || d.Start > l.Start {
				last[n] = d
			}
		}
	}
	for i := range s.Sess {
		for j := range s.Sess[i].Docs {
			d := &s.Sess[i].Docs[j]
			at := strings.IndexByte(d.Text, ' ')
			if last[absOf(dirOf(&s.Sess[i], j), d.Path)] != d || at < 0 || g.P(1, 2) {
				continue
			}
			for k := g.N(len(d.Text)); k < len(d.Text); k++ {
				if d.Text[k] == ' ' {
					at = k
					break
				}
			}
			n := []int{1 << 12, 1 << 15, 1 << 16, 1 << 16, 1 << 17}[g.N(5)] + g.N(500) - g.N(500)
			d.Text = d.Text[:at] + strings.Repeat(" ", n) + d.Text[at:]
		}
	}
}

func init() {
	// C22: where a blot is in a document
	register(&Prop{ID: "C22", K: 5, Strat: denseStrategy,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := smallCorpus(g, corpusOpt{Docs: g.Range(2, 20), Sessions: 1})
			s.Short = []int{0, 0, 2, 5}[g.N(4)]
			if g.P(1, 3) {
				overlap(g, s)
			} else if s.Short == 0 && g.P(1, 2) {
				widen(g, s)
			}
			for i := g.Range(1, 3); i > 0; i-- {
				var ops []Op
				for j := g.Range(4, 20); j > 0; j-- {
					ops = append(ops, Op{K: []string{"find", "find", "findloaded", "blots", "blots", "absent"}[g.N(6)], A: g.N(1 << 20), B: g.N(1 << 20)})
				}
				s.Ops = append(s.Ops, ops)
			}
			s.N["spoil"] = g.N(4)
			return seedQ(g, s)
		},
		Prep: prepReading,
		Run: func(c *Ctx) {
			m := c.data["m"].(*model)
			s := c.spec
			if len(m.keys()) == 0 {
				return
			}
			spoiled := map[string]bool{}
			if s.n("spoil") == 1 {
				c.spoilSources(m, spoiled)
			}
			p := c.Proc("finder", "/w")
			var ts []*rt.Task
			for i, ops := range s.Ops {
				i, ops := i, ops
				ts = append(ts, p.Go(fmt.Sprintf("f%d", i), func() {
					x, err := dupi.OpenIndex(theRoot)
					if err != nil {
						if p.Plan.ErrsOut == 0 {
							c.Fail("open-error", "%v", err)
						}
						return
					}
					for j := range ops {
						c.findOp(x, m, &ops[j], p, spoiled, rt.Derive(uint64(s.N["q"]), fmt.Sprintf("f%d.%d", i, j)))
					}
					x.Close()
				}))
			}
			for _, t := range ts {
				t.Wait()
			}
			p.Kill()
		},
		Faults: func(g *rt.RNG, cen map[string]map[string]int, s *Spec) map[string][]rt.Fault {
			f, ok := pickFault(g, cen["finder"], []string{"eio"}, func(cl string) bool {
				return (strings.HasPrefix(cl, "open:") || strings.HasPrefix(cl, "read") || strings.HasPrefix(cl, "seek:")) &&
					!strings.Contains(cl, "pos") && !strings.Contains(cl, "cfg") && !strings.Contains(cl, "fnm") && !strings.Contains(cl, "dmd")
			})
			if !ok {
				return nil
			}
			f.Sticky = []int{0, 0, 1, 3}[g.N(4)]
			return map[string][]rt.Fault{"finder": {f}}
		}})

	// C23: what the index command reports is so
	register(&Prop{ID: "C23", K: 5,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := smallCorpus(g, corpusOpt{Docs: g.Range(1, 20), Sessions: g.Range(1, 3)})
			s.Inter = 1
			treeSpec(g, s)
			for i := g.Range(1, 2); i > 0; i-- {
				s.Ops = append(s.Ops, srcArgs(g, s))
			}
			s.N["cwd"] = g.N(8)
			s.N["missing"] = g.N(8)
			s.N["env"] = g.N(3)
			s.N["cfg"] = g.N(4)
			if g.P(1, 25) {
				s.N["many"] = 1
			}
			return seedQ(g, s)
		},
		Run: func(c *Ctx) {
			s := c.spec
			putFiles(c, s.Sess)
			for i := range s.Sess {
				c.w.FS.MkAll(fmt.Sprintf("/w/src%d/in", i))
			}
			c.w.FS.MkAll("/w/src0/in")
			if s.n("many") == 1 {
				// more than there may be open at once
				for j := 0; j < 300; j++ {
					c.w.FS.Put(fmt.Sprintf("/w/many/%d/%d", j%7, j), []byte(strings.Repeat("many files ", j%(s.SeqLen+3))))
				}
			}
			cwd := []string{"/w", "/w", "/w", "/w/src0", "/w/src0/in", "/w/src0/in", "/", "/w/src0"}[s.n("cwd")]
			var want Sess
			none := false // nothing promised any more
			must := true
			for i, ops := range s.Ops {
				var args []string
				env := map[string]string{}
				if s.n("env") == 1 {
					env["DUPIROOT"] = theRoot
				} else {
					args = append(args, "-r", theRoot)
				}
				args = append(args, "index")
				if i > 0 {
					args = append(args, "-a")
				} else if s.n("cfg") == 1 {
					cfg := map[string]interface{}{"IndexRoot": theRoot, "SeqLen": s.SeqLen, "NumShards": s.Shards, "NumShatters": s.Shatters,
						"DocFlushRate": s.Flush}
					s.jsonDefaults(c, cfg)
					d, _ := json.Marshal(cfg)
					c.w.FS.Put("/w/my.cfg", d)
					args = append(args, "-c", "/w/my.cfg")
				} else {
					args = append(args, "-n", fmt.Sprint(s.Shards), "-t", fmt.Sprint(s.SeqLen), "-s", fmt.Sprint(s.Shatters))
				}
				if s.n("missing") == 1 && i == 0 {
					args = append(args, "/w/not there")
				}
				var docs []DocS
				for j := range ops {
					a := argOf(cwd, &ops[j])
					if !c.w.FS.Exists(absOf(cwd, a)) {
						continue
					}
					args = append(args, a)
					docs = append(docs, c.visible(cwd, a)...)
				}
				if s.n("many") == 1 && i == 0 {
					args = append(args, "/w/many")
					docs = append(docs, c.visible(cwd, "/w/many")...)
				}
				role := fmt.Sprintf("s%d", i)
				r := c.cliRun(role, cwd, env, args...)
				faulted := c.plans[role].ErrsOut > 0 || !r.done
				if s.n("missing") == 1 && i == 0 {
					if r.code == 0 {
						c.Fail("exit-code", "dupi %s: exit 0 although a path does not exist; %s", strings.Join(args, " "), r.err)
					}
				} else if !faulted && r.code != 0 {
					c.Fail("exit-code", "dupi %s: exit %d and nothing is wrong: %s", strings.Join(args, " "), r.code, r.err)
				}
				if faulted {
					c.Probe(fmt.Sprintf("faulted-exit-%v", r.code == 0))
				}
				h := &hist{sess: []Sess{want, {Docs: docs}}}
				h.must = [][]bool{make([]bool, len(want.Docs)), make([]bool, len(docs))}
				h.acks = h.must
				for j := range want.Docs {
					h.must[0][j] = !none
				}
				for j := range docs {
					h.must[1][j] = r.code == 0 || !faulted
				}
				c.In("reader", "/w", func() {
					x, err := dupi.OpenIndex(theRoot)
					if err != nil {
						if r.code == 0 || i > 0 && must || !faulted {
							c.Fail("no-index", "dupi %s: exit %d and there is no index: %v", strings.Join(args, " "), r.code, err)
						}
						return
					}
					if x.SeqLen() != s.SeqLen || x.NumShards() != s.Shards || x.NumShatters() != s.Shatters {
						c.Fail("config", "dupi %s: similarity length %d, %d shards, %d shatterers", strings.Join(args, " "), x.SeqLen(), x.NumShards(), x.NumShatters())
					}
					c.checkPartial(x, h)
					if r.code == 0 {
						if st, err := x.Stats(); err != nil || st.NumDocs != uint64(len(want.Docs)+len(docs)) && !none {
							c.Fail("stats", "dupi %s: %+v %v for %d documents", strings.Join(args, " "), st, err, len(want.Docs)+len(docs))
						}
					}
					c.closeIndex(x)
				})
				if r.code != 0 && faulted {
					return
				}
				want.Docs = append(want.Docs, docs...)
			}
		},
		Faults: func(g *rt.RNG, cen map[string]map[string]int, s *Spec) map[string][]rt.Fault {
			kinds := []string{"eio"}
			if g.P(1, 3) {
				kinds = []string{"enospc", "eacces", "emfile"}
			}
			return roleFaults(g, cen, 1, kinds, func(cl string) bool {
				return g.P(1, 3) || strings.HasPrefix(cl, "open:f") || strings.HasPrefix(cl, "read") || strings.HasPrefix(cl, "stat")
			})
		}})

	// C24: the commands agree with each other and with the documents
	register(&Prop{ID: "C24", Strat: denseStrategy,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := smallCorpus(g, corpusOpt{Docs: g.Range(2, 20), Sessions: g.Range(1, 2)})
			if g.P(1, 3) {
				// an index of parts of files
				s.N["lib"] = 1
				overlap(g, s)
			} else {
				s.Inter = 1
				treeSpec(g, s)
			}
			x := newGen(g, s.SeqLen)
			for i := g.Range(1, 3); i > 0; i-- {
				t := x.text()
				if ds := s.docs(); len(ds) > 0 && g.P(2, 3) {
					// made of pieces of documents
					t = ""
					for k := g.Range(1, 3); k > 0; k-- {
						d := ds[g.N(len(ds))].Text
						w := wordsOf(d)
						if len(w) > 0 {
							lo := g.N(len(w))
							hi := min(len(w)-1, lo+g.N(2*s.SeqLen+2))
							t += d[w[lo].lo:w[hi].hi] + separators[g.N(len(separators))]
						}
					}
				}
				s.Extra = append(s.Extra, DocS{Path: fmt.Sprintf("query %d", i), Text: t})
			}
			for i := g.Range(3, 9); i > 0; i-- {
				s.Ops = append(s.Ops, []Op{{K: []string{"extract", "extract-b", "extract-json", "unblot", "unblot-all", "blot", "blot-offsets", "like", "like", "inspect"}[g.N(10)], A: g.N(1 << 20), B: g.N(1 << 20)}})
			}
			s.N["par"] = g.N(3)
			s.N["root"] = g.N(8)
			return seedQ(g, s)
		},
		Prep: func(c *Ctx) {
			s := c.spec
			putFiles(c, s.Sess)
			rootEnv, rootArgs := s.whichRoot()
			c.w.FS.MkAll(homeDir)
			for i := range s.Extra {
				c.w.FS.Put("/w/"+s.Extra[i].Path, []byte(s.Extra[i].Text))
			}
			var all Sess
			if s.n("lib") == 1 {
				c.mustSessions("indexer", s.Sess, true)
				c.reading(theRoot, func(x *dupi.Index) {
					m := buildModel(x, s.Sess)
					c.checkLookup(x, m, nil)
					c.data["m"] = m
				})
				return
			}
			for i := range s.Sess {
				dir := fmt.Sprintf("/w/src%d", i)
				c.w.FS.MkAll(dir)
				args := []string{"index", "-n", fmt.Sprint(s.Shards), "-t", fmt.Sprint(s.SeqLen), "-s", fmt.Sprint(s.Shatters)}
				if i > 0 {
					args = []string{"index", "-a"}
				}
				all.Docs = append(all.Docs, c.visible("/w", dir)...)
				args = append(append(rootArgs[:len(rootArgs):len(rootArgs)], args...), dir)
				if r := c.cliRun("indexer", "/w", rootEnv, args...); r.code != 0 {
					c.Fail("exit-code", "indexing: exit %d: %s", r.code, r.err)
				}
			}
			if r := s.realRoot(); r != theRoot {
				// for what reads it by its name
				c.w.FS.CopyTree(r, theRoot)
				c.Probe("root-" + path.Base(r))
			}
			c.reading(theRoot, func(x *dupi.Index) {
				m := buildModel(x, []Sess{all})
				c.checkLookup(x, m, nil)
				c.data["m"] = m
			})
		},
		Run: func(c *Ctx) {
			s := c.spec
			m := c.data["m"].(*model)
			c.clients(1+s.n("par"), func(p *rt.Proc, i int, ops []Op) {
				if s.n("par") == 0 || len(ops) == 0 {
					return
				}
				// at most as many at once as there are copies of the program
				c.w.Block("a free slot", func() bool {
					for k := range c.cliBusy {
						if !c.cliBusy[k] {
							return true
						}
					}
					return false
				})
				c.cliOp(m, &ops[0])
			})
			if s.n("par") == 0 {
				for _, ops := range s.Ops {
					if len(ops) > 0 {
						c.cliOp(m, &ops[0])
					}
				}
			}
		}})
}

// jsonDefaults fills in a configuration file from the library's defaults.
func (s *Spec) jsonDefaults(c *Ctx, cfg map[string]interface{}) {
	d, err := dupi.NewConfig("/w/any", s.Shards, s.SeqLen)
	if err != nil {
		c.Fail("config", "%v", err)
	}
	b, _ := json.Marshal(d)
	var all map[string]interface{}
	json.Unmarshal(b, &all)
	for k, v := range all {
		if _, ok := cfg[k]; !ok {
			cfg[k] = v
		}
	}
}

// spoilSources changes or shortens some source files after they were indexed.
func (c *Ctx) spoilSources(m *model, spoiled map[string]bool) {
	g := qrng(c.spec, "spoil")
	for _, id := range m.ids {
		if spoiled[id.Path] || g.P(1, 2) {
			continue
		}
		d, ok := c.w.FS.Get(id.Path)
		if !ok || len(d) == 0 {
			continue
		}
		spoiled[id.Path] = true
		c.Injected("source-changed@")
		switch g.N(4) {
		case 0:
			c.w.FS.Delete(id.Path)
		case 1:
			c.w.FS.Put(id.Path, d[:g.N(len(d))])
		case 2:
			for k := g.Range(1, 20); k > 0; k-- {
				d[g.N(len(d))] = byte('a' + g.N(26))
			}
			c.w.FS.Put(id.Path, d)
		case 3:
			c.w.FS.Put(id.Path, append([]byte("more "), d...))
		}
	}
}

// spans of the windows of a document: its i-th blot belongs to text [lo, hi).
func (s *Spec) windows(text string) []span {
	ws := wordsOf(text)
	var out []span
	for i := s.SeqLen; i < len(ws); i++ {
		out = append(out, span{"", ws[i-s.SeqLen].lo, ws[i].hi})
	}
	return out
}

func (c *Ctx) findOp(x *dupi.Index, m *model, op *Op, p *rt.Proc, spoiled map[string]bool, g *rt.RNG) {
	s := c.spec
	keys := m.keys()
	b := keys[op.A%len(keys)]
	l := m.by[b]
	i := l[op.B%len(l)]
	id, text := m.ids[i], m.texts[i]
	ws := s.windows(text)
	bs := blotsOf(x, text, id.Start)
	if len(ws) != len(bs) {
		c.Fail("blot-count", "%d blots for a document with %d runs of words", len(bs), len(ws))
	}
	doc := &dupi.Doc{Path: id.Path, Start: id.Start, End: id.End}
	errs := p.Plan.ErrsOut
	spoil := spoiled[id.Path]
	excuse := func(what string, err error) {
		if p.Plan.ErrsOut == errs && len(s.Ops) == 1 && !spoil {
			c.Fail("unexplained-error", "%s: %v, and nothing failed", what, err)
		}
		if p.Plan.ErrsOut == 0 && !spoil {
			c.Fail("unexplained-error", "%s: %v, and nothing failed", what, err)
		}
		c.Probe("error-reported")
	}
	// what the file has there now
	now := text
	if spoil {
		d, ok := c.w.FS.Get(id.Path)
		if !ok || len(d) < int(id.End) {
			now = "" // cannot be loaded
		} else {
			now = string(d[id.Start:id.End])
		}
	}
	switch op.K {
	case "find", "findloaded", "absent":
		if op.K == "absent" {
			b = uint32(g.N(x.NumShards() << 16))
		}
		if op.K == "findloaded" {
			doc.Dat = []byte(text)
			now = text
		}
		want := -1
		var cur []span
		if now != "" {
			cur = s.windows(now)
			for k, bb := range blotsOf(x, now, id.Start) {
				if bb == b && k < len(cur) {
					want = k
					break
				}
			}
		}
		lo, hi, err := x.FindBlot(b, doc)
		if err != nil && want >= 0 {
			excuse(fmt.Sprintf("finding %x in %s", b, id), err)
			// once more, with the same document
			errs = p.Plan.ErrsOut
			lo, hi, err = x.FindBlot(b, doc)
			if err != nil {
				excuse(fmt.Sprintf("finding %x in %s again", b, id), err)
				return
			}
			c.Probe("found-again")
		}
		if want < 0 {
			if err == nil {
				c.Fail("find-absent", "blot %x is not in %s and found at %d:%d", b, id, lo, hi)
			}
			return
		}
		if w := cur[want]; lo != id.Start+uint32(w.lo) || hi != id.Start+uint32(w.hi) {
			c.Fail("find", "blot %x in %s is at %d:%d, found at %d:%d", b, id, int(id.Start)+w.lo, int(id.Start)+w.hi, lo, hi)
		}
		c.Probe("found")
	case "blots":
		if spoil {
			return
		}
		ask := map[uint32][]byte{}
		want := map[uint32]string{}
		for k := range ws {
			if g.P(1, 2) {
				continue
			}
			t := text[ws[k].lo:ws[k].hi]
			if g.P(1, 4) {
				t = t + "x"
			} else if g.P(1, 6) {
				t = strings.ToUpper(t)
			}
			ask[bs[k]] = []byte(t)
		}
		for k := 0; k < 5; k++ {
			if r := uint32(g.N(x.NumShards() << 16)); ask[r] == nil {
				ask[r] = []byte("nothing like it")
			}
		}
		for k := range ws {
			t := text[ws[k].lo:ws[k].hi]
			if ask[bs[k]] != nil && string(ask[bs[k]]) == t {
				want[bs[k]] = t
			}
		}
		got, err := x.FindBlots(ask, doc)
		if err != nil {
			excuse(fmt.Sprintf("finding blots in %s", id), err)
			errs = p.Plan.ErrsOut
			got, err = x.FindBlots(ask, doc)
			if err != nil {
				excuse(fmt.Sprintf("finding blots in %s again", id), err)
				return
			}
			c.Probe("found-again")
		}
		for b, t := range got {
			if w, ok := want[b]; !ok || w != string(t) {
				c.Fail("find-blots", "in %s, blot %x is reported with %q; it was asked for as %q", id, b, t, ask[b])
			}
		}
		for b, t := range want {
			if _, ok := got[b]; !ok {
				c.Fail("find-blots", "in %s, blot %x with text %q is not reported", id, b, t)
			}
		}
	}
}

func docStr(i ident) string { return fmt.Sprintf("%s %d:%d", i.Path, i.Start, i.End) }

// cliOp runs a reading command and checks what it prints.
const (
	homeDir  = "/home/someone"
	homeRoot = 5
	verbRoot = 6
)

// whichRoot says how commands are to be told which index it is.
func (s *Spec) whichRoot() (env map[string]string, args []string) {
	switch s.n("root") {
	case 3: // what is given counts
		return map[string]string{"DUPIROOT": "/w/elsewhere", "HOME": homeDir}, []string{"-r", theRoot}
	case 4:
		return map[string]string{"DUPIROOT": theRoot, "HOME": homeDir}, nil
	case homeRoot:
		if s.n("lib") == 0 {
			return map[string]string{"HOME": homeDir}, nil
		}
	case verbRoot:
		if s.n("lib") == 0 {
			return nil, []string{"-r", path.Base(s.realRoot())}
		}
	}
	return nil, []string{"-r", theRoot}
}

// realRoot is where the index is of which the commands are told.
func (s *Spec) realRoot() string {
	switch {
	case s.n("lib") == 0 && s.n("root") == homeRoot:
		return homeDir + "/.dupi"
	case s.n("lib") == 0 && s.n("root") == verbRoot:
		// a name like any other
		return "/w/" + []string{"index", "extract", "blot", "unblot", "like", "inspect"}[uint(s.n("q"))%6]
	}
	return theRoot
}

func (c *Ctx) cliOp(m *model, op *Op) {
	s := c.spec
	space := uint32(s.Shards) << 16
	env, rootArgs := s.whichRoot()
	run := func(args ...string) *cliRun {
		r := c.cliRun("reader", "/w", env, append(rootArgs[:len(rootArgs):len(rootArgs)], args...)...)
		if r.code != 0 {
			c.Fail("exit-code", "dupi %s: exit %d: %s", strings.Join(args, " "), r.code, r.err)
		}
		return r
	}
	var x *dupi.Index
	with := func(f func()) {
		c.reading(theRoot, func(y *dupi.Index) { x = y; f() })
	}
	switch op.K {
	case "extract", "extract-b", "extract-json":
		sigma := []float64{-1000, 0, 0.5, 1, 2, 3, 10}[op.A%7]
		N := 0
		mean := float64(m.posts()) / float64(space)
		var sos float64
		for _, l := range m.by {
			sos += (float64(len(l)) - mean) * (float64(len(l)) - mean)
		}
		sos += float64(int(space)-len(m.by)) * mean * mean
		if ks := m.keys(); op.A%2 == 0 && len(ks) > 0 && sos > 0 {
			// such that the limit is what some blot has, or one off
			n := len(m.by[ks[op.B%len(ks)]]) + op.A/2%3 - 1
			sigma = (float64(n) - mean) / math.Sqrt(sos/float64(space))
		}
		lim := mean + sigma*math.Sqrt(sos/float64(space))
		N = int(math.Round(lim))
		if math.Abs(lim-math.Floor(lim)-0.5) < 1e-6 {
			return
		}
		args := []string{"extract", fmt.Sprintf("-sigma=%g", sigma)}
		switch op.K {
		case "extract-b":
			args = append(args, "-b")
		case "extract-json":
			args = append(args, "-json")
		}
		r := run(args...)
		want := map[uint32][]int{}
		for b, l := range m.by {
			if len(l) >= 2 && len(l) >= N {
				want[b] = l
			}
		}
		seen := map[uint32]bool{}
		last := 1 << 30
		got := func(b uint32) []int {
			l, ok := want[b]
			if !ok || seen[b] {
				c.Fail("cli-extract", "dupi %s: blot %x (in %d documents, limit %d) is reported, or twice", strings.Join(args, " "), b, len(m.by[b]), N)
			}
			seen[b] = true
			if len(l) > last {
				c.Fail("cli-extract", "dupi %s: blot %x with %d documents after one with %d", strings.Join(args, " "), b, len(l), last)
			}
			last = len(l)
			return l
		}
		if op.K == "extract-json" {
			dec := json.NewDecoder(strings.NewReader(r.out))
			for {
				var bl []dupi.Blot
				err := dec.Decode(&bl)
				if err == io.EOF {
					break
				}
				if err != nil {
					c.Fail("cli-json", "dupi %s: %v", strings.Join(args, " "), err)
				}
				for i := range bl {
					if w, g := m.idsOf(got(bl[i].Blot)), idents(bl[i].Docs); !sameIdents(g, w) {
						c.Fail("cli-extract", "dupi %s: blot %x: %s", strings.Join(args, " "), bl[i].Blot, diffIdents(g, w))
					}
				}
			}
		} else {
			for _, line := range strings.Split(strings.TrimSuffix(r.out, "\n"), "\n") {
				if line == "" {
					continue
				}
				var b uint32
				if _, err := fmt.Sscanf(line, "%x", &b); err != nil {
					c.Fail("cli-extract", "dupi %s: line %q", strings.Join(args, " "), line)
				}
				w := fmt.Sprintf("%x", b)
				l := got(b)
				if op.K == "extract" {
					for _, i := range l {
						w += fmt.Sprintf(" %s@%d:%d", m.ids[i].Path, m.ids[i].Start, m.ids[i].End)
					}
				}
				if w != line {
					c.Fail("cli-extract", "dupi %s: line %q, want %q", strings.Join(args, " "), line, w)
				}
			}
		}
		if len(seen) != len(want) {
			c.Fail("cli-extract", "dupi %s: %d blots reported, want %d (limit %d)", strings.Join(args, " "), len(seen), len(want), N)
		}
		if len(want) > 0 {
			c.Probe("cli-extracted")
		}
	case "unblot", "unblot-all":
		keys := m.keys()
		if len(keys) == 0 {
			return
		}
		args := []string{"unblot"}
		if op.K == "unblot-all" {
			args = append(args, "-all")
		}
		g := rt.Derive(uint64(op.A), "unblot")
		var bs []uint32
		for k := 1 + op.B%3; k > 0; k-- {
			b := keys[g.N(len(keys))]
			bs = append(bs, b)
			args = append(args, fmt.Sprintf("%x", b))
		}
		r := run(args...)
		var want []string
		with(func() {
			for _, b := range bs {
				groups := map[string][]ident{}
				var order []string
				for _, i := range m.by[b] {
					ws := s.windows(m.texts[i])
					had := map[string]bool{}
					for k, bb := range blotsOf(x, m.texts[i], 0) {
						if t := m.texts[i][ws[k].lo:ws[k].hi]; bb == b && !had[t] {
							if groups[t] == nil {
								order = append(order, t)
							}
							groups[t] = append(groups[t], m.ids[i])
							had[t] = true
						}
					}
				}
				for _, t := range order {
					if len(groups[t]) < 2 && op.K == "unblot" {
						continue
					}
					w := fmt.Sprintf("text:\n'''\n%s'''\n", t)
					for _, d := range groups[t] {
						w += "\t" + docStr(d) + "\n"
					}
					want = append(want, w)
				}
			}
		})
		out := r.out
		for len(out) > 0 {
			k := -1
			for i, w := range want {
				if w != "" && strings.HasPrefix(out, w) && (k < 0 || len(w) > len(want[k])) {
					k = i
				}
			}
			if k < 0 {
				c.Fail("cli-unblot", "dupi %s printed %q, want %q", strings.Join(args, " "), r.out, want)
			}
			out = out[len(want[k]):]
			want[k] = ""
		}
		for _, w := range want {
			if w != "" {
				c.Fail("cli-unblot", "dupi %s did not print %q but %q", strings.Join(args, " "), w, r.out)
			}
		}
	case "blot", "blot-offsets":
		if len(s.Extra) == 0 {
			return
		}
		qs := []*DocS{&s.Extra[op.A%len(s.Extra)]}
		if op.B%3 == 0 {
			qs = append(qs, &s.Extra[(op.A/7)%len(s.Extra)])
		}
		args := []string{"blot"}
		if op.K == "blot-offsets" {
			args = append(args, "-offsets")
		}
		for _, q := range qs {
			args = append(args, q.Path)
		}
		r := run(args...)
		var want bytes.Buffer
		with(func() {
			for _, q := range qs {
				ws := s.windows(q.Text)
				bs := blotsOf(x, q.Text, 0)
				if len(ws) != len(bs) {
					c.Fail("blot-count", "%d blots for %d runs", len(bs), len(ws))
				}
				for k, b := range bs {
					if op.K == "blot" {
						fmt.Fprintf(&want, "%x\n", b)
					} else {
						fmt.Fprintf(&want, "%x %d:%d\n", b, ws[k].lo, ws[k].hi)
					}
				}
			}
		})
		if r.out != want.String() {
			c.Fail("cli-blot", "dupi %s of %q printed %q, want %q", strings.Join(args, " "), qs[0].Text, r.out, want.String())
		}
	case "like":
		if len(s.Extra) == 0 {
			return
		}
		draw := func(a, b int) *DocS {
			if b%3 == 0 && len(m.ids) > 0 {
				i := a % len(m.ids)
				t, _ := c.w.FS.Get(m.ids[i].Path)
				return &DocS{Path: m.ids[i].Path, Text: string(t)}
			}
			return &s.Extra[a%len(s.Extra)]
		}
		qs := []*DocS{draw(op.A, op.B)}
		if op.B%5 == 0 {
			qs = append(qs, draw(op.A/7, op.B/7))
		}
		args := []string{"like"}
		for _, q := range qs {
			args = append(args, q.Path)
		}
		r := run(args...)
		out := r.out
		for _, q := range qs {
			want := map[string]bool{}
			with(func() {
				ws := s.windows(q.Text)
				texts := map[uint32]map[string]bool{}
				for k, b := range blotsOf(x, q.Text, 0) {
					if texts[b] == nil {
						texts[b] = map[string]bool{}
					}
					texts[b][q.Text[ws[k].lo:ws[k].hi]] = true
				}
				for i := range m.ids {
					dw := s.windows(m.texts[i])
					for k, b := range blotsOf(x, m.texts[i], 0) {
						if t := texts[b]; t != nil && t[m.texts[i][dw[k].lo:dw[k].hi]] {
							want[docStr(m.ids[i])] = true
						}
					}
				}
			})
			head := fmt.Sprintf("like %s:\n", q.Path)
			if !strings.HasPrefix(out, head) {
				c.Fail("cli-like", "dupi %s printed %q, where %q was to be", strings.Join(args, " "), out, head)
			}
			out = out[len(head):]
			for strings.HasPrefix(out, "\t") {
				end := strings.IndexByte(out, '\n')
				if end < 0 {
					break
				}
				d := out[1:end]
				out = out[end+1:]
				if !want[d] {
					c.Fail("cli-like", "dupi like %q (%q) reports %q, which has no text in common with it, or twice", q.Path, q.Text, d)
				}
				delete(want, d)
				c.Probe("cli-liked")
			}
			for d := range want {
				c.Fail("cli-like", "dupi like %q (%q) does not report %q: %q", q.Path, q.Text, d, r.out)
			}
		}
		if out != "" {
			c.Fail("cli-like", "dupi %s printed %q more", strings.Join(args, " "), out)
		}
	case "inspect":
		root := s.realRoot()
		if op.B%3 == 0 {
			r := run("inspect")
			for _, w := range []string{root, fmt.Sprintf(" %d docs\n", len(m.ids)), fmt.Sprintf(" %d posts\n", m.posts()), fmt.Sprintf(" %d blots\n", space)} {
				if !strings.Contains(r.out, w) {
					c.Fail("cli-inspect", "dupi inspect for %d documents and %d posts printed %q, without %q", len(m.ids), m.posts(), r.out, w)
				}
			}
			return
		}
		r := run("inspect", "-json")
		st := &dupi.Stats{}
		if err := json.Unmarshal([]byte(r.out), st); err != nil {
			c.Fail("cli-inspect", "%v in %q", err, r.out)
		}
		if st.NumDocs != uint64(len(m.ids)) || st.NumPosts != uint64(m.posts()) || st.NumBlots != uint64(space) || st.Root != root {
			c.Fail("cli-inspect", "%s for %d documents and %d posts", r.out, len(m.ids), m.posts())
		}
	}
}

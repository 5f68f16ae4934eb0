package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/lock"
	"github.com/go-air/dupi/zz/rt"
)

// ---- several clients at once ----

// spellings of theRoot in a working directory.
func spellings(cwd string) []string {
	switch cwd {
	case "/w":
		return []string{"idx", "./idx", "idx/", "/w/idx", "../w/idx", "/w//idx", "/w/./idx", "sub/../idx"}
	case "/w/sub":
		return []string{"../idx", "/w/idx", "../idx/", "./../idx"}
	case "/":
		return []string{"w/idx", "/w/idx", "./w/idx/"}
	}
	return []string{theRoot}
}

var clientCwds = []string{"/w", "/w", "/w/sub", "/"}

func spell(cwd string, n int) string {
	l := spellings(cwd)
	return l[n%len(l)]
}

// clients runs each program of the spec as a task; programs are dealt out to
// so many processes.
func (c *Ctx) clients(procs int, f func(p *rt.Proc, i int, ops []Op)) {
	s := c.spec
	if procs < 1 {
		procs = 1
	}
	var ps []*rt.Proc
	for i := 0; i < procs; i++ {
		ps = append(ps, c.Proc(fmt.Sprintf("p%d", i), clientCwds[i%len(clientCwds)]))
	}
	var ts []*rt.Task
	for i, ops := range s.Ops {
		i, ops := i, ops
		p := ps[i%procs]
		ts = append(ts, p.Go(fmt.Sprintf("c%d", i), func() { f(p, i, ops) }))
	}
	for _, t := range ts {
		t.Wait()
	}
	for _, p := range ps {
		if !p.Dead {
			p.Kill()
		}
	}
}

// ledger is what clients know of the index and of each other.
type ledger struct {
	sess             []Sess // in the order in which their writers got the index
	writers, readers int
	gen              int
	exists           bool
	removing         int
	excl             bool
	removingGen      int // what is being removed, the last that was begun
	removedGen       map[int]bool
	changes          int // creations and removals begun or ended
	kind             [2]int
	building         int // creations that have the index but did not close it
}

func opSess(s *Spec, op *Op) *Sess {
	if len(s.Sess) < 2 {
		return &Sess{}
	}
	return &s.Sess[1+op.A%(len(s.Sess)-1)]
}

// fresh gives the documents of a session names no other execution of the
// session uses.
func freshSess(k *Sess, cwd string, tag int) *Sess {
	o := &Sess{Cwd: cwd}
	for _, d := range k.Docs {
		d.Path = fmt.Sprintf("n%d/%s", tag, d.Path)
		o.Docs = append(o.Docs, d)
	}
	return o
}

func init() {
	// C09: queries at the same time do not disturb each other
	register(&Prop{ID: "C09", Strat: denseStrategy,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := hotCorpus(g, g.Range(1, 2), 1, 4)
			s.N["procs"] = g.Range(1, 2)
			s.N["own"] = g.N(3)
			s.Short = []int{0, 0, 3}[g.N(3)]
			for i := g.Range(2, 5); i > 0; i-- {
				s.Ops = append(s.Ops, readProgram(g, 3+g.N(14)))
			}
			return s
		},
		Prep: prepReading,
		Run: func(c *Ctx) {
			m := c.data["m"].(*model)
			s := c.spec
			shared := map[*rt.Proc]*dupi.Index{}
			users := map[*rt.Proc]int{}
			c.clients(s.n("procs"), func(p *rt.Proc, i int, ops []Op) {
				own := s.n("own") == 0 || s.n("own") == 1 && i%2 == 0
				var x *dupi.Index
				if own {
					x = c.openIndex(theRoot)
				} else {
					if users[p]++; shared[p] == nil {
						y := c.openIndex(theRoot)
						if shared[p] == nil {
							shared[p], y = y, nil
						}
						if y != nil {
							c.closeIndex(y)
						}
					}
					x = shared[p]
				}
				c.readOps(x, m, ops, rt.Derive(uint64(s.N["q"]), fmt.Sprintf("ops%d", i)), nil)
				if own {
					c.closeIndex(x)
				} else if users[p]--; users[p] == 0 {
					shared[p] = nil
					c.closeIndex(x)
				}
			})
		}})

	// C10: one writer at a time, and readers see what was closed
	register(&Prop{ID: "C10",
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := smallCorpus(g, corpusOpt{Docs: g.Range(2, 14), Sessions: g.Range(2, 5)})
			s.Shards = g.Range(1, 2)
			s.N["procs"] = g.Range(1, 4)
			for i := g.Range(2, 4); i > 0; i-- {
				var ops []Op
				for j := g.Range(1, 3); j > 0; j-- {
					ops = append(ops, Op{K: []string{"append", "append", "read"}[g.N(3)], A: g.N(100), B: g.N(100)})
				}
				s.Ops = append(s.Ops, ops)
			}
			return seedQ(g, s)
		},
		Prep: func(c *Ctx) {
			if len(c.spec.Sess) > 0 {
				c.mustSessions("writer", c.spec.Sess[:1], true)
			}
		},
		Run: func(c *Ctx) {
			s := c.spec
			if len(s.Sess) == 0 {
				return
			}
			c.w.FS.MkAll("/w/sub")
			l := &ledger{sess: []Sess{s.Sess[0]}}
			c.clients(s.n("procs"), func(p *rt.Proc, i int, ops []Op) {
				for j := range ops {
					op := &ops[j]
					root := spell(p.Cwd, op.B)
					if op.K == "append" {
						x, err := dupi.OpenIndexer(root)
						if err != nil {
							c.Fail("open-error", "opening %s for adding: %v", root, err)
						}
						if l.writers > 0 || l.readers > 0 {
							c.Fail("exclusion", "a writer got the index while %d writers and %d readers have it", l.writers, l.readers)
						}
						l.writers++
						k := freshSess(opSess(s, op), p.Cwd, len(l.sess))
						l.sess = append(l.sess, *k)
						hold(op)
						for d := range k.Docs {
							if err := x.Add(mkDoc(&k.Docs[d])); err != nil {
								c.Fail("session-error", "adding: %v", err)
							}
							if l.writers != 1 || l.readers != 0 {
								c.Fail("exclusion", "while adding, %d writers and %d readers", l.writers, l.readers)
							}
						}
						l.writers--
						if err := x.Close(); err != nil {
							c.Fail("session-error", "closing: %v", err)
						}
						continue
					}
					x, err := dupi.OpenIndex(root)
					if err != nil {
						c.Fail("open-error", "opening %s for reading: %v", root, err)
					}
					if l.writers > 0 {
						c.Fail("exclusion", "a reader got the index while a writer has it")
					}
					l.readers++
					if l.readers > 1 {
						c.Probe("readers-together")
					}
					hold(op)
					n := len(l.sess)
					m := buildModel(x, l.sess[:n])
					c.checkLookup(x, m, nil)
					if op.A%3 == 0 {
						c.checkExtract(c.extract(x, []int{1 + op.B%4}), m)
					}
					if st, err := x.Stats(); err != nil || st.NumDocs != uint64(len(m.ids)) || st.NumPosts != uint64(m.posts()) {
						c.Fail("stats", "%+v %v for %d documents and %d posts", st, err, len(m.ids), m.posts())
					}
					if len(l.sess) != n {
						c.Fail("exclusion", "a writer got the index while a reader has it")
					}
					l.readers--
					c.closeIndex(x)
				}
			})
			c.reading(theRoot, func(x *dupi.Index) {
				m := buildModel(x, l.sess)
				c.checkLookup(x, m, nil)
				c.checkExtract(c.extract(x, []int{2}), m)
			})
		}})

	// C11: no lock outlives its holder
	register(&Prop{ID: "C11", K: 5,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := smallCorpus(g, corpusOpt{Docs: g.Range(1, 8), Sessions: 2})
			s.Shards = g.Range(1, 2)
			if g.P(1, 5) {
				s.N["api"] = 1
				for i := g.Range(2, 5); i > 0; i-- {
					var ops []Op
					for j := g.Range(2, 14); j > 0; j-- {
						ops = append(ops, Op{K: []string{"ex", "ex", "sh", "sh", "un", "close"}[g.N(6)], A: g.N(2)})
					}
					s.Ops = append(s.Ops, ops)
				}
				s.N["procs"] = g.Range(1, 3)
				return seedQ(g, s)
			}
			var ops []Op
			for i := g.Range(1, 4); i > 0; i-- {
				op := Op{K: []string{"read", "append", "create", "kill", "remove", "removew", "damaged-read", "damaged-append"}[g.N(8)], A: g.N(1000), B: g.N(100)}
				op.S = []string{"gone", "empty", "half", "junk"}[g.N(4)]
				ops = append(ops, op)
			}
			s.Ops = [][]Op{ops}
			return seedQ(g, s)
		},
		Prep: func(c *Ctx) {
			if len(c.spec.Sess) > 0 {
				c.mustSessions("writer", c.spec.Sess[:1], true)
			}
		},
		Run: func(c *Ctx) {
			s := c.spec
			if len(s.Sess) == 0 {
				return
			}
			if s.n("api") == 1 {
				c.lockAPI()
				return
			}
			c.w.FS.MkAll("/w/sub")
			snap := c.w.FS.Snapshot()
			for _, ops := range s.Ops {
				for i := range ops {
					c.w.FS.Restore(snap.Clone())
					op := &ops[i]
					p := c.oneOp(fmt.Sprintf("s%d", i), op)
					// whoever comes next gets the lock
					c.In("probe", "/w", func() {
						f, err := lock.New(theRoot + ".lock")
						if err != nil {
							c.Fail("lock-error", "%v", err)
						}
						if err := f.Lock(); err != nil {
							c.Fail("lock-error", "%v", err)
						}
						if err := f.Close(); err != nil {
							c.Fail("lock-error", "%v", err)
						}
					})
					if !p.Dead {
						p.Kill()
					}
				}
			}
		},
		Faults: func(g *rt.RNG, cen map[string]map[string]int, s *Spec) map[string][]rt.Fault {
			return roleFaults(g, cen, g.Range(1, 2), []string{"eio", "eio", "enospc", "crash"}, anyClass)
		}})

	// C20: creating does not touch what is there
	register(&Prop{ID: "C20", K: 2,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := smallCorpus(g, corpusOpt{Docs: g.Range(1, 10), Sessions: g.Range(2, 4)})
			s.Shards = g.Range(1, 2)
			s.N["what"] = []int{0, 0, 0, 1, 2, 3, 4, 4, 4}[g.N(9)]
			s.N["procs"] = g.Range(1, 3)
			for i := g.Range(1, 3); i > 0; i-- {
				s.Ops = append(s.Ops, []Op{{K: "create", A: g.N(100), B: g.N(100), S: []string{"", "new", "create", "cli"}[g.N(4)]}})
			}
			return seedQ(g, s)
		},
		Prep: func(c *Ctx) {
			s := c.spec
			if len(s.Sess) == 0 {
				return
			}
			putFiles(c, s.Sess)
			switch s.n("what") {
			case 0:
				c.mustSessions("writer", s.Sess[:1], true)
			case 1:
				c.w.FS.MkAll(theRoot)
			case 2:
				c.w.FS.Put(theRoot+"/letter", []byte("dear sir"))
				c.w.FS.Put(theRoot+"/sub/b0.pos", []byte("not an index"))
			case 3:
				c.w.FS.Put(theRoot, []byte("a file"))
			}
		},
		Run: func(c *Ctx) {
			s := c.spec
			if len(s.Sess) == 0 {
				return
			}
			c.w.FS.MkAll("/w/sub")
			before := c.w.FS.Tree(theRoot)
			type outcome struct {
				k      *Sess
				opened bool
				ok     bool
			}
			var outs []*outcome
			c.clients(s.n("procs"), func(p *rt.Proc, i int, ops []Op) {
				for j := range ops {
					op := &ops[j]
					root := spell(p.Cwd, op.B)
					o := &outcome{k: freshSess(opSess(s, op), p.Cwd, i)}
					outs = append(outs, o)
					sp := s.clone()
					sp.Via = op.S
					sp.Shards = 1 + op.A%3
					if op.S == "cli" {
						code, done := c.cliExec("cli", p.Cwd, nil, "-r", root, "index", "-n", fmt.Sprint(sp.Shards), "-t", fmt.Sprint(s.SeqLen), "/w/sub")
						o.ok = done && code == 0
						o.opened = o.ok
						o.k = &Sess{}
						continue
					}
					if sp.Via == "create" || sp.Via == "new" {
						sp.Inter = 1
					}
					x, err := sp.create(root)
					if err != nil {
						continue
					}
					o.opened = true
					for d := range o.k.Docs {
						if err := x.Add(mkDoc(&o.k.Docs[d])); err != nil {
							c.Fail("session-error", "adding: %v", err)
						}
					}
					if err := x.Close(); err != nil {
						c.Fail("session-error", "closing: %v", err)
					}
					o.ok = true
				}
			})
			if s.n("what") != 4 {
				for i, o := range outs {
					if o.opened || o.ok {
						c.Fail("clobbered", "attempt %d created an index where something else was", i)
					}
				}
				after := c.w.FS.Tree(theRoot)
				if d := diffTrees(before, after); d != "" {
					c.Fail("clobbered", "a refused creation changed what was there: %s", d)
				}
				if s.n("what") == 0 {
					c.reading(theRoot, func(x *dupi.Index) { c.checkLookup(x, buildModel(x, s.Sess[:1]), nil) })
				}
				c.Probe("refused")
				return
			}
			n := 0
			var win *outcome
			for _, o := range outs {
				if o.opened {
					n++
					win = o
				}
			}
			if len(outs) == 0 {
				return
			}
			if n != 1 {
				c.Fail("winners", "%d of %d concurrent creations of one index succeeded", n, len(outs))
			}
			if len(outs) > 1 {
				c.Probe("raced")
			}
			c.reading(theRoot, func(x *dupi.Index) { c.checkLookup(x, buildModel(x, []Sess{*win.k}), nil) })
		}})

	// C21: removal
	register(&Prop{ID: "C21",
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := smallCorpus(g, corpusOpt{Docs: g.Range(2, 10), Sessions: g.Range(2, 4)})
			s.Shards = g.Range(1, 2)
			s.N["procs"] = g.Range(1, 4)
			for i := g.Range(1, 4); i > 0; i-- {
				var ops []Op
				for j := g.Range(1, 3); j > 0; j-- {
					ops = append(ops, Op{K: []string{"append", "read", "remove", "remove", "removew", "create", "create"}[g.N(7)], A: g.N(100), B: g.N(100)})
				}
				s.Ops = append(s.Ops, ops)
			}
			if g.P(1, 8) {
				s.N["broken"] = 1
				s.Ops = [][]Op{{{K: "removew", A: g.N(100), B: g.N(100)}}}
			} else if g.P(1, 3) {
				// someone waits while a writer removes
				s.N["procs"] = g.Range(2, 3)
				s.Ops = [][]Op{{{K: "removew", A: g.N(100), B: g.N(100)}}}
				for i := g.Range(1, 2); i > 0; i-- {
					s.Ops = append(s.Ops, []Op{{K: []string{"append", "read", "read", "remove", "removew", "create"}[g.N(6)], A: g.N(100), B: g.N(100)}})
				}
			}
			return seedQ(g, s)
		},
		K: 2,
		Strat: func(g *rt.RNG) rt.Strategy {
			if g.P(1, 2) {
				return denseStrategy(g)
			}
			return genStrategy(g)
		},
		Prep: func(c *Ctx) {
			if len(c.spec.Sess) > 0 {
				putFiles(c, c.spec.Sess)
				c.mustSessions("writer", c.spec.Sess[:1], true)
				c.w.FS.Put("/w/idx2/keep", []byte("keep"))
				c.w.FS.Put("/w/idxx", []byte("keep"))
				c.w.FS.Put("/w/sub/keep", []byte("keep"))
			}
		},
		Run: removeRun,
		Faults: func(g *rt.RNG, cen map[string]map[string]int, s *Spec) map[string][]rt.Fault {
			// only removals are made to fail, and nobody else is about
			if len(s.Ops) != 1 {
				return nil
			}
			if s.n("broken") == 1 {
				// nothing can be written, but removing works
				f, ok := pickFault(g, cen["p0"], []string{"eio", "enospc"}, func(cl string) bool {
					k := cl[:strings.Index(cl, ":")]
					return (k == "create" || k == "write" || k == "writeat" || k == "sync" || k == "rename") && !strings.Contains(cl, ".lock")
				})
				if !ok {
					return nil
				}
				f.Sticky = []int{0, 0, 5, 100}[g.N(4)]
				return map[string][]rt.Fault{"p0": {f}}
			}
			cc := map[string]map[string]int{}
			for r, m := range cen {
				for k, n := range m {
					if strings.HasPrefix(k, "remove:") && strings.HasPrefix(r, "p") {
						if cc[r] == nil {
							cc[r] = map[string]int{}
						}
						cc[r][k] = n
					}
				}
			}
			var roles []string
			for r := range cc {
				roles = append(roles, r)
			}
			sort.Strings(roles)
			if len(roles) == 0 {
				return nil
			}
			r := roles[g.N(len(roles))]
			f, ok := pickFault(g, cc[r], []string{"eio"}, nil)
			if !ok {
				return nil
			}
			return map[string][]rt.Fault{r: {f}}
		}})

	// C25: an index can be moved and copied
	register(&Prop{ID: "C25",
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := hotCorpus(g, 3, 1, 6)
			s.N["how"] = g.N(3)
			s.N["then"] = g.N(4)
			s.N["to"] = g.N(5)
			return s
		},
		Run: func(c *Ctx) {
			s := c.spec
			if len(s.Sess) < 3 {
				return
			}
			putFiles(c, s.Sess)
			to := []string{"/w/new", "/w/deep/down/idx", "/other place/idx", "/w/idx.bak", "/idx"}[s.n("to")%5]
			c.mustSessions("writer", s.Sess[:1], true)
			c.w.FS.MkAll(path.Dir(to))
			copied := s.n("how") != 0
			if copied {
				c.w.FS.CopyTree(theRoot, to)
			} else {
				c.w.FS.Move(theRoot, to)
			}
			left := c.w.FS.Tree(theRoot)
			second := s.Sess[1]
			second.Root = to
			if s.n("how") == 2 {
				// something else is where the original was
				third := s.Sess[2]
				c.w.FS.Delete(theRoot)
				c.mustSessions("writer2", []Sess{third}, true)
				left = c.w.FS.Tree(theRoot)
			}
			moved := []Sess{s.Sess[0]}
			if s.n("then") != 0 {
				c.mustSessions("writer", []Sess{second}, false)
				moved = append(moved, s.Sess[1])
			}
			c.reading(to, func(x *dupi.Index) {
				m := buildModel(x, moved)
				c.checkLookup(x, m, nil)
				c.checkExtract(c.extract(x, []int{1, 3}), m)
				if x.Root() != to {
					c.Fail("root", "the index at %s says it is at %s", to, x.Root())
				}
				if st, err := x.Stats(); err != nil || st.NumDocs != uint64(len(m.ids)) {
					c.Fail("stats", "%+v %v for %d documents", st, err, len(m.ids))
				}
			})
			if s.n("then") == 3 {
				c.In("remover", "/w", func() {
					x := c.openIndex(to)
					if err := dupi.RemoveIndex(x); err != nil {
						c.Fail("remove-error", "%v", err)
					}
				})
				if c.w.FS.Exists(to) {
					c.Fail("remove", "%s is still there", to)
				}
			}
			if d := diffTrees(left, c.w.FS.Tree(theRoot)); d != "" {
				c.Fail("original", "working at %s changed %s: %s", to, theRoot, d)
			}
			if s.n("how") == 1 {
				c.reading(theRoot, func(x *dupi.Index) { c.checkLookup(x, buildModel(x, s.Sess[:1]), nil) })
			}
			if s.n("how") == 0 && c.w.FS.Exists(theRoot) {
				c.Fail("original", "working at %s brought back %s", to, theRoot)
			}
		}})

	// C28: nothing stays behind
	register(&Prop{ID: "C28", K: 4,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := smallCorpus(g, corpusOpt{Docs: g.Range(1, 8), Sessions: 2})
			var ops []Op
			for i := g.Range(1, 3); i > 0; i-- {
				op := Op{K: []string{"read", "append", "create", "newidx", "remove", "removew", "damaged-read", "damaged-append"}[g.N(8)], A: g.N(1000), B: g.N(100)}
				op.S = []string{"gone", "empty", "half", "junk"}[g.N(4)]
				ops = append(ops, op)
			}
			s.Ops = [][]Op{ops}
			return seedQ(g, s)
		},
		Prep: func(c *Ctx) {
			if len(c.spec.Sess) > 0 {
				c.mustSessions("writer", c.spec.Sess[:1], true)
			}
		},
		Run: func(c *Ctx) {
			s := c.spec
			if len(s.Sess) == 0 {
				return
			}
			c.w.FS.MkAll("/w/sub")
			snap := c.w.FS.Snapshot()
			names := map[string]bool{} // the files of an index
			for n := range c.w.FS.Tree(theRoot) {
				names[n[len(theRoot):]] = true
			}
			for _, ops := range s.Ops {
				for i := range ops {
					c.w.FS.Restore(snap.Clone())
					op := &ops[i]
					p := c.oneOp(fmt.Sprintf("s%d", i), op)
					if p.Dead {
						continue
					}
					p.Settle()
					if l := p.OpenFiles(); len(l) > 0 {
						c.Fail("open-files", "after %s %s, files are open: %v", op.K, op.S, l)
					}
					if l := p.Tasks(); len(l) > 0 {
						c.Fail("tasks", "after %s %s, goroutines are left: %v", op.K, op.S, l)
					}
					tidy := true
					for _, f := range p.Plan.Fired {
						tidy = tidy && !strings.Contains(f, "@remove:")
					}
					for _, r := range []string{theRoot, theRoot + "3"} {
						for n := range c.w.FS.Tree(r) {
							if n = n[len(r):]; tidy && !names[n] {
								c.Fail("left-over", "after %s %s, there is %s in %s", op.K, op.S, n, r)
							}
						}
					}
					p.Kill()
				}
			}
		},
		Faults: func(g *rt.RNG, cen map[string]map[string]int, s *Spec) map[string][]rt.Fault {
			return roleFaults(g, cen, 1, []string{"eio", "eio", "enospc"}, anyClass)
		}})
}

func diffTrees(a, b map[string]string) string {
	var out []string
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			out = append(out, "-"+k)
		} else if w != v {
			out = append(out, fmt.Sprintf("~%s (%d to %d bytes)", k, len(v), len(w)))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, "+"+k)
		}
	}
	sort.Strings(out)
	if len(out) > 10 {
		out = out[:10]
	}
	return strings.Join(out, " ")
}

// damage spoils one file of the index.
func (c *Ctx) damage(op *Op) {
	var names []string
	for n := range c.w.FS.Tree(theRoot) {
		if !strings.HasSuffix(n, "/") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		return
	}
	n := names[op.A%len(names)]
	d, _ := c.w.FS.Get(n)
	c.Injected(op.S + "@" + path.Base(n))
	switch op.S {
	case "gone":
		c.w.FS.Delete(n)
	case "empty":
		c.w.FS.Put(n, nil)
	case "half":
		c.w.FS.Put(n, d[:len(d)/2])
	case "junk":
		g := rt.Derive(uint64(op.A*100+op.B), "junk")
		for i := range d {
			if i > 64 && i%17 != 0 {
				continue
			}
			d[i] = byte(g.N(256))
		}
		if strings.HasSuffix(n, "cfg.json") {
			d = []byte("{\"SeqLen\": 3")
		}
		c.w.FS.Put(n, d)
	}
}

// oneOp runs one operation on the index in a process that stays alive.
func (c *Ctx) oneOp(role string, op *Op) *rt.Proc {
	s := c.spec
	if strings.HasPrefix(op.K, "damaged") && op.S == "junk" {
		// junk may be anything at all; only what is checked when opening is
		// spoilt this way
		c2 := *op
		c2.S = "half"
		if op.A%3 != 0 {
			op = &c2
		} else {
			c.w.FS.Put(theRoot+"/cfg.json", []byte("{\"SeqLen\": 3"))
		}
	}
	if strings.HasPrefix(op.K, "damaged") && op.S != "junk" {
		c.damage(op)
	}
	p := c.Proc(role, "/w")
	faulted := func() bool { return p.Plan.ErrsOut > 0 || strings.HasPrefix(op.K, "damaged") }
	sound := func(what string, err error) {
		if err != nil && !faulted() {
			c.Fail("unexplained-error", "%s: %v, and nothing failed", what, err)
		}
		if err != nil {
			c.Probe("failed:" + op.K)
		}
	}
	p.Do("main", func() {
		root := spell("/w", op.B)
		switch strings.TrimPrefix(op.K, "damaged-") {
		case "read":
			x, err := dupi.OpenIndex(root)
			sound("opening", err)
			if err != nil {
				return
			}
			q := x.StartQuery(dupi.QueryMaxBlot)
			for i := 0; i < 2; i++ {
				dst := make([]dupi.Blot, 2)
				q.Next(dst)
			}
			sound("closing", x.Close())
		case "append", "kill":
			x, err := dupi.OpenIndexer(root)
			sound("opening", err)
			if err != nil {
				return
			}
			k := opSess(s, op)
			for i := range k.Docs {
				sound("adding", x.Add(mkDoc(&k.Docs[i])))
			}
			if op.K == "kill" {
				c.Injected("crash@before close")
				p.Kill()
			}
			sound("closing", x.Close())
		case "create", "newidx":
			if op.K == "newidx" {
				root += "3"
				root = strings.Replace(root, "idx/3", "idx3", 1)
			}
			x, err := s.create(root)
			if err != nil {
				if op.K == "newidx" {
					sound("creating", err)
				}
				return
			}
			if op.K == "create" {
				c.Fail("clobbered", "an index was created over another one")
			}
			k := opSess(s, op)
			for i := range k.Docs {
				sound("adding", x.Add(mkDoc(&k.Docs[i])))
			}
			sound("closing", x.Close())
		case "remove":
			x, err := dupi.OpenIndex(root)
			sound("opening", err)
			if err != nil {
				return
			}
			sound("removing", dupi.RemoveIndex(x))
		case "removew":
			x, err := dupi.OpenIndexer(root)
			sound("opening", err)
			if err != nil {
				return
			}
			k := opSess(s, op)
			for i := range k.Docs {
				sound("adding", x.Add(mkDoc(&k.Docs[i])))
			}
			sound("removing", dupi.RemoveIndexer(x))
		}
	})
	return p
}

// lockAPI runs random histories over the lock files themselves.
func (c *Ctx) lockAPI() {
	s := c.spec
	type held struct{ ex, sh int }
	hs := [2]held{}
	c.clients(s.n("procs"), func(p *rt.Proc, i int, ops []Op) {
		var f *lock.File
		at, mode := 0, ""
		drop := func() {
			switch mode {
			case "ex":
				hs[at].ex--
			case "sh":
				hs[at].sh--
			}
			mode = ""
		}
		must := func(what string, err error) {
			if err != nil {
				c.Fail("lock-error", "%s: %v", what, err)
			}
		}
		for j := range ops {
			op := &ops[j]
			if f == nil {
				at = op.A % 2
				var err error
				f, err = lock.New(fmt.Sprintf("/w/l%d", at))
				must("opening a lock file", err)
			}
			switch op.K {
			case "ex":
				if mode == "ex" {
					continue
				}
				drop()
				must("locking", f.Lock())
				if hs[at].ex > 0 || hs[at].sh > 0 {
					c.Fail("lock", "an exclusive lock was given while %d exclusive and %d shared ones are held", hs[at].ex, hs[at].sh)
				}
				hs[at].ex++
				mode = "ex"
			case "sh":
				if mode == "sh" {
					continue
				}
				drop()
				must("locking shared", f.LockShared())
				if hs[at].ex > 0 {
					c.Fail("lock", "a shared lock was given while an exclusive one is held")
				}
				hs[at].sh++
				mode = "sh"
				if hs[at].sh > 1 {
					c.Probe("shared-together")
				}
			case "un":
				drop()
				must("unlocking", f.Unlock())
			case "close":
				drop()
				must("closing", f.Close())
				f = nil
			}
		}
		if f != nil {
			drop()
			must("closing", f.Close())
		}
	})
}

func removeRun(c *Ctx) {
	s := c.spec
	if len(s.Sess) == 0 {
		return
	}
	outside := func() map[string]string {
		m := c.w.FS.Tree("/")
		for k := range m {
			if k == theRoot || strings.HasPrefix(k, theRoot+"/") || strings.HasSuffix(k, ".lock") {
				delete(m, k)
			}
		}
		return m
	}
	before := outside()
	if s.n("broken") == 1 {
		c.removeBroken()
		if d := diffTrees(before, outside()); d != "" {
			c.Fail("outside", "files outside of the index changed: %s", d)
		}
		return
	}
	l := &ledger{sess: []Sess{s.Sess[0]}, exists: true, removedGen: map[int]bool{}, kind: [2]int{s.SeqLen, s.Shards}}
	c.clients(s.n("procs"), func(p *rt.Proc, i int, ops []Op) {
		var old ended
		for j := range ops {
			op := &ops[j]
			root := spell(p.Cwd, op.B)
			if op.K == "stale" {
				c.stale(&old, op)
				continue
			}
			// an operation may be refused when the index came or went while
			// it was under way
			ch, ex := l.changes, l.exists
			excuse := func(what string, err error, ifExists bool) {
				if l.changes == ch && l.removing == 0 && l.building == 0 && ex != ifExists {
					c.Fail("unexplained-error", "%s: %v (exists: %v, and nothing changed that)", what, err, ex)
				}
				c.Probe("refused:" + op.K)
			}
			alive := func(what string, shared bool) {
				// a removal under a shared lock may overlap with an opening
				if !l.exists && l.removing == 0 && !(shared && l.changes != ch) {
					c.Fail("resurrected", "%s succeeded on an index that was removed", what)
				}
			}
			switch op.K {
			case "create":
				sp := s.clone()
				sp.Via = ""
				if op.A%2 == 0 {
					// an index of another kind comes in place of what was there
					sp.Shards = 1 + op.A/2%3
					sp.Shatters = 1 + op.B%3
					sp.SeqLen, sp.Inter = 1+op.B/3%4, 1
				}
				x, err := sp.create(root)
				if err != nil {
					excuse("creating", err, true)
					continue
				}
				if l.exists && l.removing == 0 {
					c.Fail("clobbered", "created over an index that is there")
				}
				k := freshSess(opSess(s, op), p.Cwd, l.changes)
				l.gen++
				l.changes++
				l.building++
				l.exists, l.sess = true, []Sess{*k}
				l.kind = [2]int{sp.SeqLen, sp.Shards}
				hold(op)
				for d := range k.Docs {
					if err := x.Add(mkDoc(&k.Docs[d])); err != nil {
						c.Fail("session-error", "adding: %v", err)
					}
				}
				if err := x.Close(); err != nil {
					c.Fail("session-error", "closing a created index: %v", err)
				}
				old.w = append(old.w, x)
				l.building--
				l.changes++
				c.Probe("created")
			case "append", "removew":
				x, err := dupi.OpenIndexer(root)
				if err != nil {
					excuse("opening to add", err, false)
					continue
				}
				alive(op.K, false)
				if l.removing > 0 && l.removingGen == l.gen {
					c.Fail("exclusion", "the index was opened for adding while it is being removed")
				}
				k := freshSess(opSess(s, op), p.Cwd, 1000+l.changes*100+len(l.sess))
				if op.K == "removew" {
					l.removing++
					l.excl = true
					l.removingGen = l.gen
					l.changes++
				} else {
					l.sess = append(l.sess, *k)
				}
				hold(op)
				for d := range k.Docs {
					if err := x.Add(mkDoc(&k.Docs[d])); err != nil {
						c.Fail("session-error", "adding: %v", err)
					}
				}
				old.w = append(old.w, x)
				if op.K == "append" {
					if err := x.Close(); err != nil {
						c.Fail("session-error", "closing: %v", err)
					}
					continue
				}
				gen := l.gen
				errs := p.Plan.ErrsOut
				err = dupi.RemoveIndexer(x)
				c.removed(l, gen, err, p.Plan.ErrsOut > errs)
			case "read", "remove":
				x, err := dupi.OpenIndex(root)
				if err != nil {
					excuse("opening to read", err, false)
					continue
				}
				alive(op.K, true)
				if l.removing > 0 && l.removingGen == l.gen && l.excl {
					c.Fail("exclusion", "the index was opened for reading while its writer removes it")
				}
				gen := l.gen
				if k := [2]int{x.SeqLen(), x.NumShards()}; k != l.kind {
					c.Fail("kind", "an index with similarity length %d and %d shards was opened as one with %d and %d", l.kind[0], l.kind[1], k[0], k[1])
				}
				m := buildModel(x, l.sess)
				c.checkLookup(x, m, nil)
				if l.gen != gen {
					c.Fail("exclusion", "the index was created anew while it was open")
				}
				hold(op)
				if l.gen != gen {
					c.Fail("exclusion", "the index was created anew while it was open")
				}
				old.r = append(old.r, x)
				if op.K == "read" {
					c.closeIndex(x)
					continue
				}
				l.removing++
				l.excl = false
				l.removingGen = l.gen
				l.changes++
				errs := p.Plan.ErrsOut
				err = dupi.RemoveIndex(x)
				c.removed(l, gen, err, p.Plan.ErrsOut > errs)
			}
		}
	})
	if d := diffTrees(before, outside()); d != "" {
		c.Fail("outside", "files outside of the index changed: %s", d)
	}
	if !l.exists {
		if c.w.FS.Exists(theRoot) && l.removedGen[l.gen] {
			c.Fail("left-over", "the index was removed and %v are still there", c.w.FS.Tree(theRoot))
		}
		return
	}
	c.reading(theRoot, func(x *dupi.Index) { c.checkLookup(x, buildModel(x, l.sess), nil) })
}

// ended is what a client has closed or removed.
type ended struct {
	r []*dupi.Index
	w []*dupi.Indexer
}

// stale uses something after it was closed or removed; that must end with an
// error, and the others must not notice.
func (c *Ctx) stale(e *ended, op *Op) {
	must := func(what string, err error) {
		if err == nil {
			c.Fail("stale-use", "%s succeeded after it was closed", what)
		}
		c.Probe("stale:" + what)
	}
	n := len(e.r) + len(e.w)
	if n == 0 {
		return
	}
	if k := op.A % n; k < len(e.w) {
		x := e.w[k]
		switch op.B % 3 {
		case 0:
			must("closing an indexer", x.Close())
		case 1:
			must("removing an indexer", dupi.RemoveIndexer(x))
		default:
			must("adding to an indexer", x.Add(&dupi.Doc{Path: "late", End: 28, Dat: []byte("one two three four five six ")}))
		}
	} else {
		x := e.r[k-len(e.w)]
		switch op.B % 3 {
		case 0:
			must("closing an index", x.Close())
		case 1:
			must("removing an index", dupi.RemoveIndex(x))
		default:
			_, err := x.Stats()
			must("statistics of an index", err)
			q := x.StartQuery(dupi.QueryMaxBlot)
			for i := 0; i < 20; i++ {
				b := dupi.Blot{Blot: uint32(op.A*31+i*1237) % uint32(x.NumShards()<<16)}
				if err := q.Get(&b); err == nil && len(b.Docs) > 0 {
					c.Fail("stale-use", "looking up %x in a closed index gives %s", b.Blot, showIdents(idents(b.Docs)))
				}
			}
		}
	}
}

// hold keeps what is open for a while, if the operation says so.
func hold(op *Op) {
	if op.A%3 == 1 {
		rt.Sleep([]int64{1e6, 1e9, 60e9, 3600e9}[op.B%4])
	}
}

// removed notes the end of a removal of generation gen.
func (c *Ctx) removed(l *ledger, gen int, err error, faulted bool) {
	l.removing--
	l.changes++
	if err != nil {
		if !faulted {
			c.Fail("remove-error", "removing: %v, and nothing failed", err)
		}
		// it may be half there; nobody can tell any more
		c.Probe("remove-failed")
		c.w.FS.Delete(theRoot)
		if l.gen == gen {
			l.exists = false
			l.changes++
		}
		return
	}
	c.Probe("removed")
	if l.gen == gen {
		l.exists = false
		l.removedGen[gen] = true
	}
}

// removeBroken removes an index while nothing but removing works.
func (c *Ctx) removeBroken() {
	s := c.spec
	c.clients(1, func(p *rt.Proc, i int, ops []Op) {
		for j := range ops {
			op := &ops[j]
			x, err := dupi.OpenIndexer(spell(p.Cwd, op.B))
			if err != nil {
				if p.Plan.ErrsOut == 0 {
					c.Fail("unexplained-error", "opening to add: %v, and nothing failed", err)
				}
				return
			}
			k := opSess(s, op)
			for d := range k.Docs {
				x.Add(mkDoc(&k.Docs[d]))
			}
			err = dupi.RemoveIndexer(x)
			if err != nil && p.Plan.ErrsOut == 0 {
				c.Fail("remove-error", "removing: %v, and nothing failed", err)
			}
			if err != nil {
				c.Probe("removed-in-trouble")
			}
			if c.w.FS.Exists(theRoot) {
				c.Fail("left-over", "the index was removed (%v) and %v are still there", err, c.w.FS.Tree(theRoot))
			}
		}
	})
}

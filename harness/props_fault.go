package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/dmd"
	"github.com/go-air/dupi/zz/rt"
)

// ---- histories with crashes and failures, and what must survive them ----

// hist is what a sequence of sessions did to one index.
type hist struct {
	sess []Sess   // one document list per session, only documents handed to Add
	must [][]bool // whether it has to be there
	acks [][]bool // whether Add accepted it
	ok   bool     // there is an index
}

// record notes the outcome of a session.
func (h *hist) record(k *Sess, res *sessResult) {
	n := len(res.adds)
	if !res.closed && n < len(k.Docs) && res.open == nil {
		n++ // it may have been in the middle of Add
	}
	ks := Sess{Cwd: k.Cwd, Docs: k.Docs[:n]}
	must, acks := make([]bool, n), make([]bool, n)
	for i := range res.adds {
		acks[i] = res.adds[i] == nil
		must[i] = acks[i] && res.closed && res.close == nil
	}
	h.acks = append(h.acks, acks)
	h.sess = append(h.sess, ks)
	h.must = append(h.must, must)
}

// checkPartial compares the index with a history in which some sessions did
// not end well: every document that must be there is there, in the order of
// addition, what else is there was really added with that text, and lookup
// and extraction agree.
func (c *Ctx) checkPartial(x *dupi.Index, h *hist) {
	m := buildModel(x, h.sess)
	var must []bool
	for i := range h.must {
		must = append(must, h.must[i]...)
	}
	seen := newModel()
	seen.ids, seen.texts = m.ids, m.texts
	q := x.StartQuery(dupi.QueryMaxBlot)
	keys := m.keys()
	g := qrng(c.spec, "absent")
	for i := 0; i < 30; i++ {
		b := uint32(g.N(x.NumShards() << 16))
		if m.by[b] == nil {
			keys = append(keys, b)
		}
	}
	extra := false
	for _, b := range keys {
		bl := dupi.Blot{Blot: b}
		if err := q.Get(&bl); err != nil {
			c.Fail("lookup-error", "looking up blot %x: %v", b, err)
		}
		got := idents(bl.Docs)
		all := m.by[b]
		j := 0
		var at []int
		for _, i := range all {
			if j < len(got) && got[j] == m.ids[i] {
				at = append(at, i)
				if !must[i] {
					extra = true
				}
				j++
				continue
			}
			if must[i] {
				c.Fail("lost", "blot %x: document %d (%s) was committed and is missing; got %s, committed and attempted %s",
					b, i, m.ids[i], showIdents(got), showIdents(m.idsOf(all)))
			}
		}
		if j < len(got) {
			c.Fail("bogus", "blot %x: document %s should not be there; got %s, committed and attempted %s",
				b, got[j], showIdents(got), showIdents(m.idsOf(all)))
		}
		if len(at) > 0 {
			seen.by[b] = at
		}
	}
	if extra {
		c.Probe("uncommitted-visible")
	}
	c.checkExtract(c.extract(x, batchSizes(g)), seen)
}

// sessions runs all of the spec's sessions, the i-th in role s<i>, over an
// index that may be there already, and checks it after each.
func (c *Ctx) faultySessions(h *hist) {
	s := c.spec
	for i := range s.Sess {
		k := &s.Sess[i]
		role := fmt.Sprintf("s%d", i)
		create := !h.ok
		var res sessResult
		before := 0
		if pl := c.plans[role]; pl != nil {
			before = pl.ErrsOut
		}
		done := c.In(role, cwdOf(k), func() { s.session(k, create, &res) })
		faulted := !done || c.plans[role].ErrsOut > before
		if !faulted && !res.ok() {
			c.Fail("session-error", "session %d without any fault in it: %s", i, res.String())
		}
		if !done {
			c.Probe("session-killed")
		} else if !res.ok() {
			c.Probe("session-failed")
		} else if faulted {
			c.Probe("fault-survived")
		}
		h.record(k, &res)
		if create {
			c.afterCreate(h, i)
			continue
		}
		c.reading(theRoot, func(x *dupi.Index) { c.checkPartial(x, h) })
	}
}

// afterCreate checks that an index is either not there or complete.
func (c *Ctx) afterCreate(h *hist, i int) {
	must := false
	last := len(h.must) - 1
	for _, b := range h.must[last] {
		must = must || b
	}
	opened := false
	c.In("reader", "/w", func() {
		x, err := dupi.OpenIndex(theRoot)
		if err != nil {
			if must {
				c.Fail("lost", "session %d created the index successfully; opening it: %v", i, err)
			}
			return
		}
		opened = true
		// it opens, so it is complete
		hh := &hist{sess: h.sess[last:], must: h.acks[last:]}
		if !must && len(h.acks[last]) > 0 {
			c.Probe("complete-without-close")
			if len(h.sess[last].Docs) < len(c.spec.Sess[i].Docs) {
				c.Fail("half-created", "the index opens although its creation did not get to adding all documents")
			}
		}
		c.checkPartial(x, hh)
		c.closeIndex(x)
	})
	if opened {
		h.ok = true
		return
	}
	// start again: nothing is in the way of removing and creating anew
	c.Probe("creation-undone")
	c.w.FS.Delete(theRoot)
	*h = hist{}
}

// roleFaults plans one fault for each of up to n roles.
func roleFaults(g *rt.RNG, cen map[string]map[string]int, n int, kinds []string, want func(cl string) bool) map[string][]rt.Fault {
	var roles []string
	for r := range cen {
		if strings.HasPrefix(r, "s") {
			roles = append(roles, r)
		}
	}
	sort.Strings(roles)
	out := map[string][]rt.Fault{}
	for i := 0; i < n && len(roles) > 0; i++ {
		r := roles[g.N(len(roles))]
		if len(out[r]) > 0 {
			continue
		}
		f, ok := pickFault(g, cen[r], kinds, want)
		if !ok {
			continue
		}
		if f.Kind == "eio" || f.Kind == "enospc" {
			f.Sticky = []int{0, 0, 0, 3, 40, 1 << 30}[g.N(6)]
		}
		out[r] = append(out[r], f)
		if f.Kind == "eio" && g.P(1, 4) {
			if f2, ok := pickFault(g, cen[r], kinds, want); ok {
				out[r] = append(out[r], f2)
			}
		}
	}
	return out
}

// bootstrap builds the first sessions of the index on a healthy machine.
func (c *Ctx) bootstrap(n int) *hist {
	h := &hist{}
	k := c.spec.Sess[:n]
	if n > 0 {
		c.mustSessions("writer", k, true)
		h.ok = true
	}
	for i := range k {
		h.sess = append(h.sess, k[i])
		m := make([]bool, len(k[i].Docs))
		for j := range m {
			m[j] = true
		}
		h.must = append(h.must, m)
		h.acks = append(h.acks, m)
	}
	return h
}

func (h *hist) clone() *hist {
	o := &hist{ok: h.ok}
	o.sess = append(o.sess, h.sess...)
	o.must = append(o.must, h.must...)
	o.acks = append(o.acks, h.acks...)
	return o
}

func smallCorpus(g *rt.RNG, o corpusOpt) *Spec {
	s := genSpec(g, o)
	s.Shards = []int{1, 1, 1, 2, 2, 3}[g.N(6)]
	s.Shatters = g.Range(1, 3)
	s.Flush = []int{1, 2, 3, 5, 17, 4096}[g.N(6)]
	if s.Via == "default" {
		s.Via = ""
	}
	return s
}

func anyClass(string) bool { return true }

// hotCorpus is a corpus that has long posting lists now and then, so that
// posts reach the disk before the session ends.
func hotCorpus(g *rt.RNG, sessions, p, q int) *Spec {
	o := corpusOpt{Docs: g.Range(2, 14), Sessions: sessions}
	if g.P(p, q) {
		o.T = g.Range(1, 2)
		o.Hot = []int{520, 620, 1060}[g.N(3)] + g.N(40)
		if g.P(1, 5) {
			// as many as just fill a block, or nearly so
			o.Hot = []int{512, 512, 1024}[g.N(3)] + []int{-1, 0, 1}[g.N(3)]
		}
	}
	o.Gaps = g.P(1, 5)
	s := smallCorpus(g, o)
	if o.Hot > 0 {
		s.Shards = g.Range(1, 2)
		s.Flush = []int{7, 64, 300, 4096}[g.N(4)]
	}
	return seedQ(g, s)
}

// spread makes sure that the first n sessions have something in them.
func splitBoot(g *rt.RNG, s *Spec, n int) *Spec {
	s.N["boot"] = n
	return s
}

func init() {
	// C12: creating an index is all or nothing
	register(&Prop{ID: "C12", K: 5,
		Gen: func(g *rt.RNG, deep bool) *Spec { return hotCorpus(g, 1, 1, 6) },
		Run: func(c *Ctx) {
			s := c.spec
			h := &hist{}
			k := &s.Sess[0]
			var res sessResult
			done := c.In("s0", cwdOf(k), func() { s.session(k, true, &res) })
			if done && !res.ok() {
				c.Fail("session-error", "creation without any fault: %s", res.String())
			}
			h.record(k, &res)
			// whoever tries to add to it must not get a half index either
			if !done {
				c.In("appender", "/w", func() {
					x, err := dupi.OpenIndexer(theRoot)
					if err == nil {
						if err := x.Close(); err != nil {
							c.Fail("append-error", "adding nothing to a created index: %v", err)
						}
					}
				})
			}
			c.afterCreate(h, 0)
			if !h.ok {
				c.mustSessions("again", s.Sess[:1], true)
				c.reading(theRoot, func(x *dupi.Index) {
					m := buildModel(x, s.Sess[:1])
					c.checkLookup(x, m, nil)
					c.checkExtract(c.extract(x, []int{1, 7}), m)
				})
			}
		},
		Faults: func(g *rt.RNG, cen map[string]map[string]int, s *Spec) map[string][]rt.Fault {
			return roleFaults(g, cen, 1, []string{"crash", "torn"}, anyClass)
		}})

	// C13: a killed append leaves what was there
	register(&Prop{ID: "C13", K: 6,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := hotCorpus(g, g.Range(2, 3), 1, 3)
			return splitBoot(g, s, len(s.Sess)-1)
		},
		Prep: func(c *Ctx) {
			c.data["h"] = c.bootstrap(min(c.spec.n("boot"), len(c.spec.Sess)))
		},
		Run: func(c *Ctx) {
			h := c.data["h"].(*hist).clone()
			n := len(h.sess)
			if n == 0 {
				return
			}
			sp := *c.spec
			sp.Sess = sp.Sess[n:]
			c.spec = &sp
			c.faultySessions(h)
			// reading must not depend on a writer having cleaned up, nor clean up
			c.reading(theRoot, func(x *dupi.Index) { c.checkPartial(x, h) })
		},
		Faults: func(g *rt.RNG, cen map[string]map[string]int, s *Spec) map[string][]rt.Fault {
			return roleFaults(g, cen, 1, []string{"crash", "torn"}, anyClass)
		}})

	// C14: adding again after crashes
	register(&Prop{ID: "C14", K: 4,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := hotCorpus(g, g.Range(3, 5), 1, 3)
			return splitBoot(g, s, 1)
		},
		Prep: func(c *Ctx) {
			c.data["h"] = c.bootstrap(min(c.spec.n("boot"), len(c.spec.Sess)))
		},
		Run: func(c *Ctx) {
			h := c.data["h"].(*hist).clone()
			if len(h.sess) == 0 {
				return
			}
			sp := *c.spec
			sp.Sess = sp.Sess[len(h.sess):]
			c.spec = &sp
			c.faultySessions(h)
		},
		Faults: func(g *rt.RNG, cen map[string]map[string]int, s *Spec) map[string][]rt.Fault {
			// the last session is left alone
			if s.n("full") > 0 {
				return roleFaults(g, cen, g.Range(1, 2), []string{"eio"}, func(cl string) bool {
					return strings.HasPrefix(cl, "read:") && strings.HasSuffix(cl, ".iix")
				})
			}
			last := fmt.Sprintf("s%d", len(s.Sess)-2)
			cc := map[string]map[string]int{}
			for r, m := range cen {
				if r != last {
					cc[r] = m
				}
			}
			return roleFaults(g, cc, g.Range(1, 4), []string{"crash", "torn"}, anyClass)
		}})

	// C15: what was closed survives power loss
	register(&Prop{ID: "C15", K: 4, TrackDur: true,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := hotCorpus(g, g.Range(1, 3), 1, 6)
			s.N["cut"] = g.N(len(s.Sess) + 1) // power is lost after that many sessions, when no fault does it earlier
			return s
		},
		Run: func(c *Ctx) {
			s := c.spec
			c.w.FS.SyncAll()
			h := &hist{}
			for i := range s.Sess {
				k := &s.Sess[i]
				create := !h.ok
				var res sessResult
				lost := c.w.PowerLosses
				role := fmt.Sprintf("s%d", i)
				done := c.In(role, cwdOf(k), func() { s.session(k, create, &res) })
				faulted := done && c.plans[role].ErrsOut > 0
				if done && !res.ok() && !faulted {
					c.Fail("session-error", "session %d without any fault: %s", i, res.String())
				}
				h.record(k, &res)
				cut := c.w.PowerLosses > lost
				if !cut && (s.n("cut") == i+1 || faulted) {
					c.w.PowerLoss()
					c.Injected("power@idle")
					cut = true
				}
				if faulted && res.ok() {
					c.Probe("fault-survived")
				}
				if !cut {
					h.ok = true
					continue
				}
				c.Probe("power-lost")
				if create {
					c.afterCreate(h, i)
					continue
				}
				c.reading(theRoot, func(x *dupi.Index) { c.checkPartial(x, h) })
			}
			if h.ok {
				c.reading(theRoot, func(x *dupi.Index) { c.checkPartial(x, h) })
			}
		},
		Faults: func(g *rt.RNG, cen map[string]map[string]int, s *Spec) map[string][]rt.Fault {
			switch g.N(6) {
			case 0:
				return roleFaults(g, cen, g.Range(1, 2), []string{"eio", "enospc"}, anyClass)
			case 1, 2:
				// what was not made durable must not be said to be
				return roleFaults(g, cen, g.Range(1, 2), []string{"eio"}, func(cl string) bool { return strings.HasPrefix(cl, "sync") })
			}
			return roleFaults(g, cen, g.Range(1, 2), []string{"power", "power-torn"}, anyClass)
		}})

	// C16: success means success
	register(&Prop{ID: "C16", K: 6,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := hotCorpus(g, g.Range(1, 2), 2, 5)
			if g.P(1, 2) {
				return splitBoot(g, s, len(s.Sess)-1)
			}
			return s
		},
		Prep: func(c *Ctx) {
			c.data["h"] = c.bootstrap(min(c.spec.n("boot"), len(c.spec.Sess)))
		},
		Run: func(c *Ctx) {
			h := c.data["h"].(*hist).clone()
			sp := *c.spec
			sp.Sess = sp.Sess[len(h.sess):]
			c.spec = &sp
			c.faultySessions(h)
		},
		Faults: func(g *rt.RNG, cen map[string]map[string]int, s *Spec) map[string][]rt.Fault {
			return roleFaults(g, cen, 1, []string{"eio", "enospc"}, anyClass)
		}})

	// C17: a failed append does no harm
	register(&Prop{ID: "C17", K: 4,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := hotCorpus(g, g.Range(3, 5), 2, 5)
			if g.P(1, 8) {
				s.Shards, s.Inter = 1, 1
				s.N["full"] = g.Range(1, 3)
				return seedQ(g, s)
			}
			return splitBoot(g, s, 1)
		},
		Prep: func(c *Ctx) {
			if c.spec.n("full") == 0 {
				c.data["h"] = c.bootstrap(min(c.spec.n("boot"), len(c.spec.Sess)))
			}
		},
		Run: func(c *Ctx) {
			if c.spec.n("full") > 0 {
				c.fullAppends()
				return
			}
			h := c.data["h"].(*hist).clone()
			if len(h.sess) == 0 {
				return
			}
			sp := *c.spec
			sp.Sess = sp.Sess[len(h.sess):]
			c.spec = &sp
			c.faultySessions(h)
		},
		Faults: func(g *rt.RNG, cen map[string]map[string]int, s *Spec) map[string][]rt.Fault {
			if s.n("full") > 0 {
				return roleFaults(g, cen, g.Range(1, 2), []string{"eio"}, func(cl string) bool {
					return strings.HasPrefix(cl, "read:") && strings.HasSuffix(cl, ".iix")
				})
			}
			last := fmt.Sprintf("s%d", len(s.Sess)-2)
			cc := map[string]map[string]int{}
			for r, m := range cen {
				if r != last {
					cc[r] = m
				}
			}
			return roleFaults(g, cc, g.Range(1, 3), []string{"eio", "enospc"}, anyClass)
		}})

	// C18: reading with read errors
	register(&Prop{ID: "C18", K: 8, Strat: denseStrategy,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := hotCorpus(g, g.Range(1, 2), 1, 3)
			s.Short = []int{0, 0, 2, 5, 50}[g.N(5)]
			for i := g.Range(1, 2); i > 0; i-- {
				s.Ops = append(s.Ops, readProgram(g, 4+g.N(12)))
			}
			return s
		},
		Prep: prepReading,
		Run: func(c *Ctx) {
			m := c.data["m"].(*model)
			p := c.Proc("reader", "/w")
			var ts []*rt.Task
			for i, ops := range c.spec.Ops {
				i, ops := i, ops
				ts = append(ts, p.Go(fmt.Sprintf("r%d", i), func() {
					// errors are expected in whichever task a fault hits; with several
					// tasks it is not known which, so errors are only excused at all
					// once a fault was delivered
					tol := &tolerance{pl: p.Plan, shared: len(c.spec.Ops) > 1}
					tol.begin()
					x, err := dupi.OpenIndex(theRoot)
					if err != nil {
						tol.excuse(c, "opening the index", err)
						x, err = dupi.OpenIndex(theRoot)
						if err != nil {
							tol.excuse(c, "opening the index", err)
							return
						}
					}
					c.readOps(x, m, ops, rt.Derive(uint64(c.spec.N["q"]), fmt.Sprintf("ops%d", i)), tol)
					tol.begin()
					if err := x.Close(); err != nil {
						tol.excuse(c, "closing the index", err)
					}
				}))
			}
			for _, t := range ts {
				t.Wait()
			}
			p.Kill()
		},
		Faults: func(g *rt.RNG, cen map[string]map[string]int, s *Spec) map[string][]rt.Fault {
			f, ok := pickFault(g, cen["reader"], []string{"eio"}, func(cl string) bool { return !strings.HasPrefix(cl, "create") })
			if !ok {
				return nil
			}
			f.Sticky = []int{0, 0, 1, 2, 5, 30}[g.N(6)]
			return map[string][]rt.Fault{"reader": {f}}
		}})

	// C26: the document table
	register(&Prop{ID: "C26", K: 8,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := &Spec{N: map[string]int{"rate": g.Range(1, 9)}}
			if g.P(1, 4) {
				s.N["rate"] = []int{1, 64, 1000}[g.N(3)]
			}
			for i := g.Range(1, 5); i > 0; i-- {
				var ops []Op
				for j := g.N(30); j > 0; j-- {
					ops = append(ops, Op{K: "add", A: g.N(1 << 31), B: g.N(1 << 31)})
				}
				ops = append(ops, Op{K: "close"})
				if g.P(1, 4) {
					ops[len(ops)-1].A = 1 // retry after a failure
				}
				s.Ops = append(s.Ops, ops)
			}
			return seedQ(g, s)
		},
		Run: runDmd,
		Faults: func(g *rt.RNG, cen map[string]map[string]int, s *Spec) map[string][]rt.Fault {
			kinds := []string{"eio", "enospc"}
			if g.P(1, 3) {
				kinds = []string{"crash", "torn"}
			}
			return roleFaults(g, cen, g.Range(1, 2), kinds, anyClass)
		}})

	// C27: files that were cut short are noticed
	register(&Prop{ID: "C27", Strat: denseStrategy,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := hotCorpus(g, g.Range(1, 2), 1, 2)
			for i := g.Range(3, 10); i > 0; i-- {
				s.Ops = append(s.Ops, []Op{{K: "cut", A: g.N(1000), B: g.N(1001), S: []string{"mid", "mid", "end", "start"}[g.N(4)]}})
			}
			return s
		},
		Prep: prepReading,
		Run: func(c *Ctx) {
			m := c.data["m"].(*model)
			snap := c.w.FS.Snapshot()
			for _, ops := range c.spec.Ops {
				if len(ops) == 0 {
					continue
				}
				op := ops[0]
				c.w.FS.Restore(snap.Clone())
				tree := c.w.FS.Tree(theRoot)
				var names []string
				for n := range tree {
					if d, ok := c.w.FS.Get(n); ok && len(d) > 0 {
						names = append(names, n)
					}
				}
				sort.Strings(names)
				if len(names) == 0 {
					c.Fail("internal", "no files in the index")
				}
				name := names[op.A%len(names)]
				d, _ := c.w.FS.Get(name)
				n := len(d) * op.B / 1001
				switch op.S {
				case "end":
					n = len(d) - 1 - op.B%min(len(d), 20)
				case "start":
					n = min(op.B%20, len(d)-1)
				}
				c.w.FS.Put(name, d[:n])
				c.Injected("cut@" + path.Base(name))
				c.In("reader", "/w", func() {
					x, err := dupi.OpenIndex(theRoot)
					if err != nil {
						c.Probe("noticed-open")
						return
					}
					tol := &tolerance{any: true}
					for i := 0; i < 2; i++ {
						c.readOps(x, m, []Op{{K: "getall"}, {K: "next"}, {K: "nextlim"}}, qrng(c.spec, "cut"), tol)
					}
					if tol.n > 0 {
						c.Probe("noticed-query")
					}
					x.Close()
				})
			}
		}})
}

// fullAppends adds to an index in which there is every blot, and whose tables
// cannot always be read: what was in it stays.
func (c *Ctx) fullAppends() {
	s := c.spec
	g := qrng(s, "full")
	putFiles(c, s.Sess)
	r := newRef(theRoot, s)
	for i := g.Range(1, 4); i > 0; i-- {
		r.docs = append(r.docs, refDoc{r.fid(fmt.Sprintf("/w/d%d", i)), 0, uint32(10 * i)})
	}
	for b := 0; b < 1<<16; b++ {
		for d := 1; d < len(r.docs); d++ {
			if d == 1 || s.n("full") > 1 && g.P(1, 3) {
				r.posts[0][uint16(b)] = append(r.posts[0][uint16(b)], uint32(d))
			}
		}
		if s.n("full") == 3 && g.P(1, 50) {
			r.posts[0][uint16(b)] = nil
		}
	}
	r.put(c, theRoot, g)
	c.w.FS.Put(theRoot+".lock", nil)
	for i := range s.Sess {
		k := &s.Sess[i]
		role := fmt.Sprintf("s%d", i)
		var res sessResult
		done := c.In(role, cwdOf(k), func() { s.session(k, false, &res) })
		if c.plans[role].ErrsOut > 0 {
			c.Probe("full-faulted")
		} else if !done || !res.ok() {
			c.Fail("session-error", "session %d without any fault: %s (completed %v)", i, res.String(), done)
		}
		switch {
		case res.ok():
			for j := range k.Docs {
				r.add(absOf(dirOf(k, j), k.Docs[j].Path), &k.Docs[j])
			}
		case res.open == nil:
			c.Fail("session-error", "session %d: its index could be opened, and no fault is met thereafter: %s", i, res.String())
		}
		readRef(c, theRoot).same(c, r)
	}
	c.Probe("full-shard")
}

// prepReading builds the index and its source files, and the model.
func prepReading(c *Ctx) {
	putFiles(c, c.spec.Sess)
	c.mustSessions("writer", c.spec.Sess, true)
	c.reading(theRoot, func(x *dupi.Index) {
		m := buildModel(x, c.spec.Sess)
		c.checkLookup(x, m, nil)
		c.data["m"] = m
	})
}

// tolerance says when an operation may report an error.
type tolerance struct {
	pl     *rt.FaultPlan
	at     int
	shared bool
	any    bool
	n      int
}

func (t *tolerance) begin() {
	if t != nil && t.pl != nil && !t.shared {
		t.at = t.pl.ErrsOut
	}
}

// excuse fails unless the error has a fault to explain it.
func (t *tolerance) excuse(c *Ctx, what string, err error) {
	if t == nil || !t.any && (t.pl == nil || t.pl.ErrsOut <= t.at) {
		c.Fail("unexplained-error", "%s: %v, and nothing failed", what, err)
	}
	t.n++
	c.Probe("error-reported")
}

// readProgram draws operations for a reader.
func readProgram(g *rt.RNG, n int) []Op {
	var ops []Op
	for ; n > 0; n-- {
		ops = append(ops, Op{K: []string{"get", "get", "get", "getlim", "next", "nextlim", "find", "stats", "blots"}[g.N(9)], A: g.N(1 << 20), B: g.Range(1, 9)})
	}
	return ops
}

// readOps runs a reader's operations and checks each answer.
func (c *Ctx) readOps(x *dupi.Index, m *model, ops []Op, g *rt.RNG, tol *tolerance) {
	keys := m.keys()
	q := x.StartQuery(dupi.QueryMaxBlot)
	get := func(b uint32, room int) {
		tol.begin()
		bl := dupi.Blot{Blot: b}
		want := m.idsOf(m.by[b])
		if room > 0 {
			bl.Docs = make([]dupi.Doc, 0, room)
			want = want[:min(room, len(want))]
		}
		if err := q.Get(&bl); err != nil {
			tol.excuse(c, fmt.Sprintf("looking up %x", b), err)
			return
		}
		if got := idents(bl.Docs); !sameIdents(got, want) {
			c.Fail("lookup", "blot %x: %s", b, diffIdents(got, want))
		}
	}
	pick := func(a int) uint32 {
		if len(keys) == 0 || a%11 == 0 {
			return uint32(a*7919) % uint32(x.NumShards()<<16)
		}
		return keys[a%len(keys)]
	}
	for _, op := range ops {
		switch op.K {
		case "getall":
			for _, b := range keys {
				get(b, 0)
			}
		case "get":
			get(pick(op.A), 0)
		case "getlim":
			get(pick(op.A), op.B)
		case "next", "nextlim":
			c.extractUnder(x, m, op, g, tol)
		case "find":
			if len(keys) == 0 {
				continue
			}
			b := keys[op.A%len(keys)]
			l := m.by[b]
			i := l[op.B%len(l)]
			c.findUnder(x, b, m.ids[i], m.texts[i], tol)
		case "stats":
			tol.begin()
			st, err := x.Stats()
			if err != nil {
				tol.excuse(c, "statistics", err)
				continue
			}
			if st.NumDocs != uint64(len(m.ids)) || st.NumPosts != uint64(m.posts()) {
				c.Fail("stats", "statistics %+v for %d documents with %d posts", *st, len(m.ids), m.posts())
			}
		case "blots":
			if len(m.ids) == 0 {
				continue
			}
			i := op.A % len(m.ids)
			if got := distinct(blotsOf(x, m.texts[i], m.ids[i].Start)); fmt.Sprint(got) != fmt.Sprint(m.blots[i]) {
				c.Fail("blots", "document %d: blots %x, before %x", i, got, m.blots[i])
			}
		}
	}
}

// extractUnder runs an extraction that may be cut short by an error; up to
// then it has to be right.
func (c *Ctx) extractUnder(x *dupi.Index, m *model, op Op, g *rt.RNG, tol *tolerance) {
	q := x.StartQuery(dupi.QueryMaxBlot)
	got := map[uint32][]ident{}
	room := 0
	if op.K == "nextlim" {
		room = max(1, op.B)
	}
	size := 1 + g.N(6)
	total := 0
	for {
		dst := make([]dupi.Blot, size)
		if room > 0 {
			for i := range dst {
				dst[i].Docs = make([]dupi.Doc, 0, room)
			}
		}
		tol.begin()
		n, err := q.Next(dst)
		if n < 0 || n > size {
			c.Fail("extract-count", "%d results for a batch of %d", n, size)
		}
		for i := 0; i < n; i++ {
			b := dst[i].Blot
			if room == 0 && got[b] != nil {
				c.Fail("extract-twice", "blot %x is reported twice", b)
			}
			got[b] = append(got[b], idents(dst[i].Docs)...)
			want := m.idsOf(m.by[b])
			if len(want) < 2 || len(got[b]) > len(want) || !sameIdents(got[b], want[:len(got[b])]) || room == 0 && len(got[b]) != len(want) {
				c.Fail("extract-docs", "blot %x: %s", b, diffIdents(got[b], want))
			}
		}
		if err == errEOF {
			if n != 0 {
				c.Fail("extract-eof", "end reported together with %d results", n)
			}
			break
		}
		if err != nil {
			tol.excuse(c, "extracting", err)
			return
		}
		if n == 0 {
			c.Fail("extract-progress", "no result, no end and no error")
		}
		if total += n; total > 1<<20 {
			c.Fail("extract-endless", "extraction does not end")
		}
	}
	for _, b := range m.keys() {
		if w := m.by[b]; len(w) >= 2 && len(got[b]) != len(w) {
			c.Fail("extract-missing", "blot %x occurs in %d documents, extraction reports %d of them and no error", b, len(w), len(got[b]))
		}
	}
}

// findUnder locates a blot in one of its documents.
func (c *Ctx) findUnder(x *dupi.Index, b uint32, id ident, text string, tol *tolerance) {
	d := &dupi.Doc{Path: id.Path, Start: id.Start, End: id.End}
	tol.begin()
	lo, hi, err := x.FindBlot(b, d)
	if err != nil {
		tol.excuse(c, fmt.Sprintf("finding %x in %s", b, id), err)
		return
	}
	if lo < id.Start || hi > id.End || lo > hi {
		c.Fail("find", "blot %x in %s: found at %d:%d", b, id, lo, hi)
	}
	frag := text[lo-id.Start : hi-id.Start]
	if bs := blotsOf(x, frag, 0); len(bs) != 1 || bs[0] != b {
		c.Fail("find", "blot %x in %s: found at %d:%d, %q, which has blots %x", b, id, lo, hi, frag, bs)
	}
}

// ---- the document table on its own ----

type rec3 [3]uint32

func runDmd(c *Ctx) {
	s := c.spec
	c.w.FS.MkAll("/w/t")
	must := map[uint32]rec3{}    // acknowledged
	maybe := map[uint32][]rec3{} // tried
	next := uint32(1)            // the least id not given to an acknowledged record
	for i, ops := range s.Ops {
		role := fmt.Sprintf("s%d", i)
		type pend struct {
			id uint32
			r  rec3
		}
		var added []pend
		closed, failed := false, false
		var addErr, closeErr, openErr error
		first := uint32(0)
		done := c.In(role, "/w", func() {
			var a *dmd.Adder
			a, openErr = dmd.NewAdder("/w/t", s.n("rate"))
			if openErr != nil {
				return
			}
			first = a.Last() + 1
			for _, op := range ops {
				switch op.K {
				case "add":
					r := rec3{uint32(op.A % 1000), uint32(op.A), uint32(op.B)}
					id, err := a.Add(r[0], r[1], r[2])
					if err != nil {
						addErr, failed = err, true
						id, err = a.Add(r[0], r[1], r[2])
						if err != nil {
							continue
						}
						c.Probe("retried")
					}
					if n := len(added); n > 0 && id != added[n-1].id+1 || n == 0 && id != first {
						c.Fail("ids", "ids are not consecutive: %d after %d records from %d", id, n, first)
					}
					if a.Last() != id {
						c.Fail("ids", "Last gives %d after adding %d", a.Last(), id)
					}
					added = append(added, pend{id, r})
				case "close":
					closeErr = a.Close()
					if closeErr != nil && op.A == 1 {
						failed = true
						closeErr = a.Close()
						c.Probe("retried")
					}
					closed = closeErr == nil
				}
			}
		})
		faulted := !done || c.plans[role].ErrsOut > 0
		if !faulted && (openErr != nil || addErr != nil || closeErr != nil) {
			c.Fail("dmd-error", "session %d without any fault: %v %v %v", i, openErr, addErr, closeErr)
		}
		_ = failed
		if openErr == nil && first < next && first > 0 {
			c.Fail("ids", "id %d is given again, %d is the next", first, next)
		}
		for _, p := range added {
			if closed {
				must[p.id] = p.r
				delete(maybe, p.id)
				if p.id >= next {
					next = p.id + 1
				}
			} else {
				maybe[p.id] = append(maybe[p.id], p.r)
			}
		}
		c.In("reader", "/w", func() {
			t, err := dmd.New("/w/t")
			if err != nil {
				if len(must) > 0 {
					c.Fail("dmd-open", "opening: %v", err)
				}
				return
			}
			for id, r := range must {
				f, lo, hi, err := t.Lookup(id)
				if err != nil {
					c.Fail("dmd-lost", "record %d of %d: %v", id, len(must), err)
				}
				if (rec3{f, lo, hi}) != r {
					c.Fail("dmd-record", "record %d is %v, added as %v", id, rec3{f, lo, hi}, r)
				}
			}
			if f, lo, hi, err := t.Lookup(next + 100000); err == nil {
				c.Fail("dmd-absent", "record %d was never added and is %d %d:%d", next+100000, f, lo, hi)
			}
			if err := t.Close(); err != nil {
				c.Fail("dmd-close", "%v", err)
			}
		})
	}
}

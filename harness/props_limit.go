package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/zz/rt"
)

// bigSizes are of files which are too big for 32 bits.
var bigSizes = []int64{1 << 32, 1<<32 + 1, 1<<32 + 4096, 1 << 33, 3<<32 - 1, 1 << 40}

func init() {
	// C34: what is too large to record is refused, not recorded wrongly
	register(&Prop{ID: "C34", K: 3, Strat: denseStrategy,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := smallCorpus(g, corpusOpt{Docs: g.Range(2, 20), Sessions: g.Range(1, 3)})
			s.N["full"] = g.N(2)
			if s.n("full") == 1 {
				s.Via = ""
				s.Shards = []int{1, 1, 2}[g.N(3)]
				n := len(s.docs())
				s.N["room"] = g.N(n + 3)
				return seedQ(g, s)
			}
			s.Inter = 1
			treeSpec(g, s)
			for i := range s.Sess {
				ds := s.Sess[i].Docs
				var ops []Op
				for j := g.Range(1, 2); j > 0; j-- {
					dir := fmt.Sprintf("src%d", i)
					if len(ds) > 0 {
						dir = path.Dir(ds[g.N(len(ds))].Path)
					}
					// at which name, how big, with what at its end
					ops = append(ops, Op{K: "huge", R: dir + "/" + []string{"a", "big", "zz"}[g.N(3)], A: g.N(len(bigSizes)), B: g.N(200)})
				}
				s.Ops = append(s.Ops, ops)
			}
			s.N["direct"] = g.N(3)
			return seedQ(g, s)
		},
		Run: func(c *Ctx) {
			if c.spec.n("full") == 1 {
				c.noMoreNumbers()
			} else {
				c.tooBig()
			}
		}})
}

// tooBig has the program come upon files whose ends cannot be recorded.
func (c *Ctx) tooBig() {
	s := c.spec
	g := qrng(s, "big")
	putFiles(c, s.Sess)
	var h hist
	for i := range s.Sess {
		huge := map[string]bool{}
		src := fmt.Sprintf("/w/src%d", i)
		c.w.FS.MkAll(src)
		docs := c.visible("/w", src)
		for _, op := range s.Ops[i] {
			name := "/w/" + op.R
			hid := false
			for _, e := range strings.Split(op.R, "/") {
				hid = hid || strings.HasPrefix(e, ".")
			}
			if c.w.FS.Exists(name) || hid {
				continue
			}
			end := newGen(g, s.SeqLen).text()
			if len(s.docs()) > 0 {
				end += s.docs()[op.B%len(s.docs())].Text
			}
			size := bigSizes[op.A]
			if int64(len(end)) > size {
				end = ""
			}
			c.w.FS.PutAt(name, size-int64(len(end)), []byte(end))
			huge[name] = true
		}
		args := []string{"-r", theRoot, "index"}
		if i > 0 {
			args = append(args, "-a")
		} else {
			args = append(args, "-n", fmt.Sprint(s.Shards), "-t", fmt.Sprint(s.SeqLen), "-s", fmt.Sprint(s.Shatters))
		}
		args = append(args, src)
		r := c.cliRun("index", "/w", nil, args...)
		if len(huge) > 0 && r.code == 0 {
			c.Fail("exit-code", "dupi %s: exit 0 although a file is too big to record; %s", strings.Join(args, " "), r.err)
		}
		if len(huge) == 0 && r.code != 0 {
			c.Fail("exit-code", "dupi %s: exit %d and nothing is wrong: %s", strings.Join(args, " "), r.code, r.err)
		}
		must := make([]bool, len(docs))
		for j := range must {
			must[j] = r.code == 0
		}
		h.sess = append(h.sess, Sess{Docs: docs})
		h.must = append(h.must, must)
		h.acks = append(h.acks, must)
		var huges []string
		for n := range huge {
			huges = append(huges, n)
		}
		sort.Strings(huges)
		c.reading(theRoot, func(x *dupi.Index) {
			c.checkPartial(x, &h)
			for _, n := range huges {
				d := dupi.Doc{Path: n}
				if err := d.Load(); err == nil {
					c.Fail("load", "%s, of 2^32 bytes or more, was loaded as bytes %d to %d", n, d.Start, d.End)
				}
			}
		})
		for _, n := range huges {
			for _, verb := range []string{"like", "blot"} {
				if r := c.cliRun(verb, "/w", nil, "-r", theRoot, verb, n); r.code == 0 {
					c.Fail("exit-code", "dupi %s: exit 0 although %s is too big; %q", verb, n, r.out)
				}
			}
			c.Probe("too-big")
			break
		}
	}
}

// noMoreNumbers adds documents until there are no numbers for more.
func (c *Ctx) noMoreNumbers() {
	s := c.spec
	putFiles(c, s.Sess)
	room := int64(s.n("room")) // so many numbers are left
	want := newRef(theRoot, s)
	want.base = uint32(1<<32 - 1 - room)
	want.put(c, theRoot, qrng(s, "layout"))
	c.w.FS.Put(theRoot+".lock", nil)
	refused := false
	for i := range s.Sess {
		k := &s.Sess[i]
		var res sessResult
		c.In("writer", cwdOf(k), func() { s.session(k, false, &res) })
		next := int64(want.base) + int64(len(want.docs))
		if res.open != nil {
			// only if there is no number left at all
			if next < 1<<32-4 {
				c.Fail("session-error", "with %d numbers left: %v", 1<<32-next, res.open)
			}
			refused = true
			continue
		}
		if res.close != nil {
			c.Fail("session-error", "closing with %d numbers left: %v", 1<<32-next, res.close)
		}
		for j := range k.Docs {
			next := int64(want.base) + int64(len(want.docs))
			switch {
			case res.adds[j] == nil && next >= 1<<32:
				c.Fail("no-number", "document %d was added and there is no such number", next)
			case res.adds[j] == nil && refused:
				c.Fail("no-number", "document %d was added after another was refused", next)
			case res.adds[j] == nil:
				want.add(absOf(dirOf(k, j), k.Docs[j].Path), &k.Docs[j])
				continue
			case next < 1<<32-4:
				c.Fail("session-error", "adding document %d: %v", next, res.adds[j])
			}
			refused = true
			c.Probe("refused")
		}
		readRef(c, theRoot).same(c, want)
		m := want.model()
		c.reading(theRoot, func(x *dupi.Index) {
			c.checkLookup(x, m, []uint32{0, 1})
			c.checkExtract(c.extract(x, []int{3}), m)
			if st, err := x.Stats(); err != nil || st.NumDocs != uint64(want.base)+uint64(len(want.docs))-1 {
				c.Fail("stats", "%+v %v", st, err)
			}
		})
	}
}

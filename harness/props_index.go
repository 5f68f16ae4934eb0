package main

import (
	"fmt"
	"io"
	"math"
	"path"
	"reflect"
	"slices"
	"sort"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/zz/rt"
)

var errEOF = io.EOF

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func qrng(s *Spec, label string) *rt.RNG { return rt.Derive(uint64(s.N["q"]), label) }

func seedQ(g *rt.RNG, s *Spec) *Spec {
	s.N["q"] = g.N(1 << 40)
	return s
}

// batchSizes draws the batch sizes of an extraction.
func batchSizes(g *rt.RNG) []int {
	var out []int
	for i := 1 + g.N(4); i > 0; i-- {
		out = append(out, []int{1, 1, 2, 3, 5, 16, 100}[g.N(7)])
	}
	return out
}

// hotN is how many documents share one window: often enough for the posting
// list to be spread over several flushed blocks.
func hotN(g *rt.RNG, deep bool) int {
	if g.P(3, 5) {
		return 0
	}
	if g.P(1, 3) {
		// a power of two, or close to it
		return []int{128, 256, 512, 1024}[g.N(4)] + []int{-2, -1, 0, 0, 1, 2}[g.N(6)]
	}
	n := []int{120, 520, 560, 700, 1100}[g.N(5)]
	if deep && g.P(1, 3) {
		n = 1700
	}
	return n + g.N(30)
}

func init() {
	// C01: shared runs are always found
	register(&Prop{ID: "C01", MaxTicks: 500_000_000,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			o := corpusOpt{Docs: g.Range(2, 30), Sessions: 1 + g.N(3), Big: true}
			if g.P(1, 12) {
				o.Hot = hotN(g, deep)
			}
			s := genSpec(g, o)
			if s.Via == "" && s.Inter == 1 && g.P(1, 3) {
				s.Via = "new"
				if g.P(1, 3) {
					s.Via = "create"
				}
			}
			if g.P(1, 4) {
				s.N["cross"] = 1 // read through another copy of the query path: extraction
			}
			return seedQ(g, s)
		},
		Run: func(c *Ctx) {
			s := c.spec
			putFiles(c, s.Sess)
			c.mustSessions("writer", s.Sess, true)
			c.reading(theRoot, func(x *dupi.Index) {
				g := qrng(s, "frag")
				x2 := newGen(g, s.SeqLen)
				T := s.SeqLen
				docs := s.docs()
				ids := []ident{}
				for i := range s.Sess {
					for j := range s.Sess[i].Docs {
						d := &s.Sess[i].Docs[j]
						ids = append(ids, ident{absOf(dirOf(&s.Sess[i], j), d.Path), d.Start, d.end()})
					}
				}
				where := map[string][]int{}
				var order []string
				at := map[string][2]int{}
				ws := make([][]span, len(docs))
				for i := range docs {
					ws[i] = wordsOf(docs[i].Text)
					for k, r := range runsOf(ws[i], T+1) {
						l := where[r]
						if len(l) == 0 {
							order = append(order, r)
							at[r] = [2]int{i, k}
						}
						if len(l) == 0 || l[len(l)-1] != i {
							where[r] = append(l, i)
						}
					}
				}
				q := x.StartQuery(dupi.QueryMaxBlot)
				// every run that ends or starts a document, and a sample of the others
				pick := map[string]bool{}
				for i := range ws {
					rs := runsOf(ws[i], T+1)
					if len(rs) > 0 {
						pick[rs[len(rs)-1]] = true
						pick[rs[0]] = true
					}
				}
				for i := 0; i < 80 && len(order) > 0; i++ {
					pick[order[g.N(len(order))]] = true
				}
				var extracted map[uint32]map[ident]bool
				if s.n("cross") == 1 {
					extracted = map[uint32]map[ident]bool{}
					for _, d := range c.extract(x, batchSizes(g)) {
						m := extracted[d.b]
						if m == nil {
							m = map[ident]bool{}
							extracted[d.b] = m
						}
						for _, i := range d.docs {
							m[i] = true
						}
					}
				}
				n := 0
				for _, r := range order {
					if !pick[r] || n > 250 {
						continue
					}
					n++
					a := at[r]
					var fw []string
					for k := 0; k <= T; k++ {
						w := ws[a[0]][a[1]+k]
						fw = append(fw, docs[a[0]].Text[w.lo:w.hi])
					}
					frag := x2.join(fw, g.P(2, 3))
					if g.P(1, 3) {
						frag = "(" + frag
					}
					if g.P(1, 3) {
						frag += "."
					}
					bs := blotsOf(x, frag, 0)
					if len(bs) != 1 {
						c.Fail("fragment", "a text of %d words (similarity length %d) has %d blots: %q", T+1, T, len(bs), frag)
					}
					bl := dupi.Blot{Blot: bs[0]}
					if err := q.Get(&bl); err != nil {
						c.Fail("lookup-error", "looking up %x: %v", bs[0], err)
					}
					found := map[ident]bool{}
					for _, i := range idents(bl.Docs) {
						found[i] = true
					}
					for _, i := range where[r] {
						if !found[ids[i]] {
							c.Fail("run-missed", "document %d (%s) contains the %d words %q and is not found by looking them up as %q (blot %x gives %s)",
								i, ids[i], T+1, strings.Join(fw, " "), frag, bs[0], showIdents(idents(bl.Docs)))
						}
						if extracted != nil && len(where[r]) > 1 && !extracted[bs[0]][ids[i]] {
							c.Fail("run-not-extracted", "document %d (%s) shares the %d words %q with others and extraction does not report it under blot %x",
								i, ids[i], T+1, strings.Join(fw, " "), bs[0])
						}
					}
					if len(where[r]) > 1 {
						c.Probe("shared-run")
					}
				}
			})
		}})

	// C02: looking up a blot gives exactly its documents
	register(&Prop{ID: "C02", MaxTicks: 500_000_000,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			o := corpusOpt{Docs: g.Range(1, 40), Sessions: 1 + g.N(4), Hot: hotN(g, deep), Big: true}
			s := genSpec(g, o)
			if o.Hot > 0 && s.SeqLen > 3 {
				s = genSpec(g, corpusOpt{Docs: o.Docs, Sessions: o.Sessions, Hot: o.Hot, T: g.Range(1, 3)})
			}
			if len(s.docs()) < 200 && g.P(1, 5) {
				// documents without anything in common
				s.N["alien"] = 1
				alike := ""
				if g.P(1, 4) {
					alike = newGen(g, 1).longWord()
					alike = strings.ToValidUTF8(alike[:min(len(alike), 300)], "")
				}
				for i := range s.Sess {
					for j := range s.Sess[i].Docs {
						if g.P(1, 2) || i+j == 0 {
							var ws []string
							for k := 0; k < 60; k++ {
								ws = append(ws, fmt.Sprintf("%s%c%016x", alike, 'g'+k%16, g.U64()))
							}
							s.Sess[i].Docs[j].Text = strings.Join(ws, " ")
						}
					}
				}
				fixStarts(s)
			}
			if g.P(1, 4) {
				overlap(g, s)
			}
			if g.P(1, 60) {
				// more documents with one blot than 16 bits count
				s.N["crowd"] = []int{30000, 65530, 66000, 66000, 70000}[g.N(5)] + g.N(10)
				s.Via = ""
				s.SeqLen, s.Inter = g.Range(1, 3), 1
				if s.Flush > 0 && s.Flush < 10 {
					s.Flush = 10 + g.N(20000)
				}
			} else {
				someLists(g, s)
			}
			return seedQ(g, s)
		},
		Run: func(c *Ctx) {
			s := c.spec
			if s.n("lists") > 0 {
				c.manyLists(func(x *dupi.Index, m *model) { c.checkLookup(x, m, []uint32{0, 1, 1 << 15}) })
				return
			}
			ss := s.Sess
			if n := s.n("crowd"); n > 0 && len(ss) > 0 {
				ss = s.clone().Sess
				for j := 0; j < n; j++ {
					k := &ss[j*len(ss)/n]
					d := DocS{Path: "/w/crowd", Start: uint32(j), Text: strings.Repeat("crowd ", s.SeqLen+1)}
					k.Docs = append(k.Docs, d)
				}
				c.Probe("crowd")
			}
			c.mustSessions("writer", ss, true)
			c.reading(theRoot, func(x *dupi.Index) {
				m := buildModel(x, ss)
				g := qrng(s, "absent")
				var extra []uint32
				for i := 0; i < 40; i++ {
					extra = append(extra, uint32(g.N(x.NumShards()<<16)))
				}
				c.checkLookup(x, m, extra)
				// a whole document finds itself
				docs := (&Spec{Sess: ss}).docs()
				q := x.StartQuery(dupi.QueryMaxBlot)
				for i := 0; i < 10 && len(docs) > 0; i++ {
					j := g.N(len(docs))
					nw := len(wordsOf(docs[j].Text))
					bs := blotsOf(x, docs[j].Text, docs[j].Start)
					if want := max(0, nw-s.SeqLen); len(bs) != want {
						c.Fail("blot-count", "document %d has %d words, similarity length %d, and %d blots", j, nw, s.SeqLen, len(bs))
					}
					for _, b := range bs {
						bl := dupi.Blot{Blot: b}
						if err := q.Get(&bl); err != nil {
							c.Fail("lookup-error", "looking up %x: %v", b, err)
						}
						ok := false
						for _, d := range idents(bl.Docs) {
							ok = ok || d == m.ids[j]
						}
						if !ok {
							c.Fail("self", "document %d (%s) is not among the documents of its own blot %x", j, m.ids[j], b)
						}
					}
				}
				if s.n("alien") == 1 {
					c.precision(x, s, m)
				}
				if len(m.ids) > 512 {
					c.Probe("long-list")
				}
			})
		}})

	// C03: documents keep their identity
	register(&Prop{ID: "C03",
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := genSpec(g, corpusOpt{T: g.Range(1, 2), Docs: g.Range(3, 60), Sessions: 1 + g.N(5), Cwds: true})
			if g.P(1, 2) {
				s.Flush = g.Range(1, 9)
			}
			if g.P(1, 3) {
				// the working directory changes in between
				for i := range s.Sess {
					k := &s.Sess[i]
					for j := range k.Docs {
						if g.P(1, 2) {
							k.Docs[j].Cwd = []string{"/w", "/w/a", "/w/x y", "/other", "/"}[g.N(5)]
						}
						if j > 0 && g.P(1, 3) {
							k.Docs[j].Path = k.Docs[j-1].Path
						}
					}
				}
			}
			if g.P(1, 3) {
				for i := range s.Sess {
					s.Sess[i].Root = spell(cwdOf(&s.Sess[i]), g.N(100))
				}
			}
			// paths of all shapes
			for i := range s.Sess {
				for j := range s.Sess[i].Docs {
					d := &s.Sess[i].Docs[j]
					if strings.HasPrefix(d.Path, "/") {
						continue
					}
					switch g.N(9) {
					case 0:
						d.Path = "./" + d.Path
					case 1:
						d.Path = "zz/../" + d.Path
					case 2:
						d.Path = absOf(dirOf(&s.Sess[i], j), d.Path)
					case 3:
						d.Path = strings.Replace(d.Path, "/", "//", 1)
					case 4: // absolute, and not in its shortest form
						a := absOf(dirOf(&s.Sess[i], j), d.Path)
						at := strings.LastIndex(a, "/")
						d.Path = a[:at] + []string{"//", "/./", "/zz/../"}[g.N(3)] + a[at+1:]
					}
				}
			}
			if g.P(1, 4) {
				deepPath := "deep"
				for k := g.Range(5, 40); k > 0; k-- {
					deepPath += fmt.Sprintf("/d%d", g.N(3))
				}
				for i := range s.Sess {
					for j := range s.Sess[i].Docs {
						if g.P(1, 4) {
							s.Sess[i].Docs[j].Path = deepPath + fmt.Sprintf("/%d.%d", i, j)
							s.Sess[i].Docs[j].Start = uint32(g.N(50))
						}
					}
				}
			}
			if g.P(1, 6) && len(s.Sess[0].Docs) > 0 {
				s.N["bigoff"] = 1 + g.N(2) // offsets near the end of the 32 bit range, or its middle
			}
			fixStarts(s)
			if g.P(1, 3) {
				overlap(g, s)
			}
			return seedQ(g, s)
		},
		Run: func(c *Ctx) {
			s := c.spec
			off := uint32(0)
			ss := s.Sess
			if s.n("bigoff") == 1 {
				off = math.MaxUint32 - (1 << 20)
			} else if s.n("bigoff") == 2 {
				off = 1<<31 - 300
			}
			putFilesAt(c, ss, int64(off))
			if off != 0 {
				sp := s.clone()
				for i := range sp.Sess {
					for j := range sp.Sess[i].Docs {
						sp.Sess[i].Docs[j].Start += off
					}
				}
				ss = sp.Sess
			}
			c.mustSessions("writer", ss, true)
			c.reading(theRoot, func(x *dupi.Index) {
				m := buildModel(x, ss)
				q := x.StartQuery(dupi.QueryMaxBlot)
				seen := map[ident]bool{}
				for _, b := range m.keys() {
					bl := dupi.Blot{Blot: b}
					if err := q.Get(&bl); err != nil {
						c.Fail("lookup-error", "looking up %x: %v", b, err)
					}
					got, want := idents(bl.Docs), m.idsOf(m.by[b])
					if !sameIdents(got, want) {
						c.Fail("identity", "blot %x: %s", b, diffIdents(got, want))
					}
					for i := range bl.Docs {
						d := &bl.Docs[i]
						if seen[got[i]] {
							continue
						}
						seen[got[i]] = true
						if d.Start == 0 && d.End == 0 {
							continue
						}
						if err := d.Load(); err != nil {
							c.Fail("load", "loading %s: %v", got[i], err)
						}
						if t := m.texts[m.by[b][i]]; string(d.Dat) != t {
							c.Fail("load", "loading %s gave %q, indexed %q", got[i], string(d.Dat), t)
						}
						if (ident{d.Path, d.Start, d.End}) != got[i] {
							c.Fail("load", "loading changed %s into %s@%d:%d", got[i], d.Path, d.Start, d.End)
						}
					}
				}
				// any range loads as that range, empty ones included; 0:0 is a
				// whole file
				for i, id := range m.ids {
					if id.Start == 0 && id.End == 0 {
						continue
					}
					for _, e := range []uint32{id.End, id.Start, id.Start + (id.End-id.Start)/2} {
						if id.Start == 0 && e == 0 {
							continue
						}
						d := dupi.Doc{Path: id.Path, Start: id.Start, End: e}
						if err := d.Load(); err != nil {
							c.Fail("load", "loading %s to %d: %v", id, e, err)
						}
						if t := m.texts[i][:e-id.Start]; string(d.Dat) != t {
							c.Fail("load", "loading %s to %d gave %q, indexed %q", id, e, string(d.Dat), t)
						}
					}
				}
				if off == 0 {
					for _, id := range m.ids {
						f, ok := c.w.FS.Get(id.Path)
						d := dupi.Doc{Path: id.Path}
						err := d.Load()
						if !ok {
							if err == nil {
								c.Fail("load", "loading all of %s, which is not there, gave %q", id.Path, string(d.Dat))
							}
							continue
						}
						if err != nil {
							c.Fail("load", "loading all of %s: %v", id.Path, err)
						}
						if string(d.Dat) != string(f) || d.Start != 0 || d.End != uint32(len(f)) {
							c.Fail("load", "loading all of %s (%d bytes) gave %q, %d:%d", id.Path, len(f), string(d.Dat), d.Start, d.End)
						}
					}
				}
				for _, d := range c.extract(x, []int{1, 4}) {
					if want := m.idsOf(m.by[d.b]); !sameIdents(d.docs, want) {
						c.Fail("identity", "extraction, blot %x: %s", d.b, diffIdents(d.docs, want))
					}
				}
			})
		}})

	// C04: results do not depend on parallelism, schedule or flushing
	register(&Prop{ID: "C04", K: 0,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			o := corpusOpt{Docs: g.Range(2, 40), Sessions: 1 + g.N(2)}
			if g.P(1, 5) {
				o.Hot = hotN(g, false)
				o.T = g.Range(1, 3)
			}
			s := genSpec(g, o)
			s.N["shat2"] = g.Range(1, 9)
			s.N["flush2"] = []int{1, 2, 5, 100, 16384}[g.N(5)]
			return seedQ(g, s)
		},
		Run: func(c *Ctx) {
			s := c.spec
			// the same documents through two differently configured writers
			c.mustSessions("writer", s.Sess, true)
			a := s.clone()
			a.Shatters, a.Flush, a.Via = s.n("shat2"), s.n("flush2"), ""
			for i := range a.Sess {
				a.Sess[i].Root = "/w/idx2"
			}
			old := c.spec
			c.spec = a
			c.mustSessions("writer2", a.Sess, true)
			c.spec = old
			c.In("reader", "/w", func() {
				x, y := c.openIndex(theRoot), c.openIndex("/w/idx2")
				m := buildModel(x, s.Sess)
				g := qrng(s, "b")
				q1, q2 := x.StartQuery(dupi.QueryMaxBlot), y.StartQuery(dupi.QueryMaxBlot)
				keys := m.keys()
				for i := 0; i < 20; i++ {
					keys = append(keys, uint32(g.N(x.NumShards()<<16)))
				}
				for _, b := range keys {
					b1, b2 := dupi.Blot{Blot: b}, dupi.Blot{Blot: b}
					if err := q1.Get(&b1); err != nil {
						c.Fail("lookup-error", "looking up %x: %v", b, err)
					}
					if err := q2.Get(&b2); err != nil {
						c.Fail("lookup-error", "looking up %x: %v", b, err)
					}
					if !sameIdents(idents(b1.Docs), idents(b2.Docs)) {
						c.Fail("differs", "blot %x: %d shatterers and %d shatterers give different documents: %s", b, s.Shatters, a.Shatters, diffIdents(idents(b2.Docs), idents(b1.Docs)))
					}
					if w := m.idsOf(m.by[b]); !sameIdents(idents(b1.Docs), w) {
						c.Fail("differs", "blot %x: documents are not those, in the order, that were added: %s", b, diffIdents(idents(b1.Docs), w))
					}
				}
				c.sameExtraction(c.extract(x, batchSizes(g)), c.extract(y, batchSizes(g)))
				c.sameStats(x, y)
				c.closeIndex(x)
				c.closeIndex(y)
			})
		}})

	// C05: adding to an index later is the same as adding at once
	register(&Prop{ID: "C05",
		Gen: func(g *rt.RNG, deep bool) *Spec {
			o := corpusOpt{Docs: g.Range(2, 40), Sessions: g.Range(2, 6)}
			if g.P(2, 5) {
				o.Hot = hotN(g, deep)
				o.T = g.Range(1, 3)
			}
			s := genSpec(g, o)
			if g.P(1, 3) {
				s.N["reads"] = 1
			}
			s.N["reuse"] = g.N(3)
			if g.P(1, 8) {
				s.N["lists"] = 1
				s.Via = ""
			}
			return seedQ(g, s)
		},
		Run: func(c *Ctx) {
			s := c.spec
			if s.n("lists") > 0 {
				c.listAppends()
				return
			}
			var was *dupi.Config
			config := func(when string) {
				c.In("reader", "/w", func() {
					got, err := dupi.ReadConfigFromRoot(theRoot)
					if err != nil {
						c.Fail("config", "reading the configuration after %s: %v", when, err)
					}
					if was == nil && s.Via == "create" {
						was = got
					} else if was == nil {
						was, err = s.config(theRoot)
						if err != nil {
							c.Fail("config", "building the configuration: %v", err)
						}
					}
					if !reflect.DeepEqual(got, was) {
						c.Fail("config", "after %s the configuration is %+v, created with %+v", when, *got, *was)
					}
				})
			}
			for i := range s.Sess {
				c.mustSessions("writer", s.Sess[i:i+1], i == 0)
				config(fmt.Sprintf("session %d", i))
				if s.n("reads") == 1 {
					// an index is complete and readable after every session
					c.reading(theRoot, func(x *dupi.Index) {
						c.checkLookup(x, buildModel(x, s.Sess[:i+1]), nil)
					})
				}
			}
			if len(s.Sess) == 0 {
				return
			}
			one := Sess{Cwd: s.Sess[0].Cwd, Root: "/w/idx2", Docs: s.docs()}
			c.mustSessions("writer2", []Sess{one}, true)
			c.In("reader", "/w", func() {
				x, y := c.openIndex(theRoot), c.openIndex("/w/idx2")
				m := buildModel(x, s.Sess)
				c.checkLookup(x, m, nil)
				c.checkLookup(y, m, nil)
				g := qrng(s, "b")
				c.sameExtraction(c.extract(x, batchSizes(g)), c.extract(y, batchSizes(g)))
				c.sameStats(x, y)
				if x.SeqLen() != s.SeqLen || x.NumShards() != s.Shards || x.NumShatters() != s.Shatters {
					c.Fail("config", "the reopened index has similarity length %d, %d shards, %d shatterers; created with %d, %d, %d",
						x.SeqLen(), x.NumShards(), x.NumShatters(), s.SeqLen, s.Shards, s.Shatters)
				}
				c.closeIndex(x)
				c.closeIndex(y)
			})
		}})

	// C06: indexing always finishes
	register(&Prop{ID: "C06", K: 2, MaxTicks: 120_000_000,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			o := corpusOpt{Docs: g.Range(0, 60), Sessions: 1 + g.N(2)}
			if g.P(1, 4) {
				// blocks of postings are written while documents are added
				o.Docs, o.Hot, o.T = g.N(4), []int{520, 620, 1100}[g.N(3)]+g.N(40), g.Range(1, 3)
			}
			s := genSpec(g, o)
			s.Shards = g.Range(1, 5)
			s.Shatters = g.Range(1, 12)
			if deep {
				s.Shards = g.Range(1, 8)
			}
			if g.P(1, 5) {
				for i := range s.Sess {
					for j := range s.Sess[i].Docs {
						if g.P(1, 2) {
							s.Sess[i].Docs[j].Text = []string{"", "x", "...", "\xff\xfe broken \xc3"}[g.N(4)]
						}
					}
				}
			}
			return seedQ(g, s)
		},
		Run: func(c *Ctx) {
			s := c.spec
			faulty := len(c.cs.Faults) > 0
			for i := range s.Sess {
				k := &s.Sess[i]
				var res sessResult
				done := c.In("victim", cwdOf(k), func() { c.spec.session(k, i == 0, &res) })
				if !done {
					c.Fail("stopped", "the indexing process ended by itself in session %d", i)
				}
				if !faulty && !res.ok() {
					c.Fail("session-error", "session %d without any fault: %s", i, res.String())
				}
				if res.open != nil {
					break
				}
			}
			for _, p := range c.procs {
				_ = p
			}
		},
		Faults: func(g *rt.RNG, cen map[string]map[string]int, s *Spec) map[string][]rt.Fault {
			f, ok := pickFault(g, cen["victim"], []string{"eio", "enospc"}, func(cl string) bool {
				return !strings.HasPrefix(cl, "flock") && !strings.HasPrefix(cl, "seek") && !strings.HasPrefix(cl, "close")
			})
			if !ok {
				return nil
			}
			f.Sticky = []int{0, 0, 5, 1 << 30}[g.N(4)]
			return map[string][]rt.Fault{"victim": {f}}
		}})

	// C07: extraction enumerates every duplicate once, most frequent first
	register(&Prop{ID: "C07", MaxTicks: 150_000_000,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			o := corpusOpt{Docs: g.Range(0, 50), Sessions: 1 + g.N(3)}
			if g.P(1, 4) {
				o.Hot = hotN(g, deep)
				o.T = g.Range(1, 3)
			}
			s := genSpec(g, o)
			if g.P(1, 6) {
				// nothing at all, or nothing in common
				for i := range s.Sess {
					for j := range s.Sess[i].Docs {
						s.Sess[i].Docs[j].Text = fmt.Sprintf("u%da u%db u%dc", i*1000+j, i*1000+j, i*1000+j)
					}
				}
			}
			s.N["runs"] = g.Range(1, 4)
			if g.P(1, 40) {
				s.N["full"] = g.Range(1, 6)
				s.Sess = nil
				s.Via = ""
				s.Shards = g.Range(1, 2)
			} else {
				someLists(g, s)
			}
			return seedQ(g, fixStarts(s))
		},
		Run: func(c *Ctx) {
			s := c.spec
			if n := s.n("full"); n > 0 {
				c.fullShards(n, func(x *dupi.Index, m *model) { c.checkExtract(c.extract(x, []int{64, 1, 1000}), m) })
				return
			}
			if s.n("lists") > 0 {
				c.manyLists(func(x *dupi.Index, m *model) { c.checkExtract(c.extract(x, batchSizes(qrng(s, "sizes"))), m) })
				return
			}
			c.mustSessions("writer", s.Sess, true)
			c.reading(theRoot, func(x *dupi.Index) {
				m := buildModel(x, s.Sess)
				g := qrng(s, "sizes")
				for i := 0; i < s.n("runs"); i++ {
					out := c.extract(x, batchSizes(g))
					c.checkExtract(out, m)
					if len(out) > 0 {
						c.Probe("extracted-something")
					}
				}
				// a batch of no results is neither an end nor progress
				q := x.StartQuery(dupi.QueryMaxBlot)
				if n, err := q.Next(nil); n != 0 || err != nil && err != errEOF {
					c.Fail("extract-empty-batch", "a batch of size 0 gave n=%d err=%v", n, err)
				}
			})
		}})

	// C08: bounded result buffers
	register(&Prop{ID: "C08", MaxTicks: 150_000_000,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			o := corpusOpt{Docs: g.Range(1, 50), Sessions: 1 + g.N(2)}
			if g.P(1, 5) {
				o.Hot = hotN(g, deep)
				o.T = g.Range(1, 3)
			}
			s := genSpec(g, o)
			s.N["runs"] = g.Range(1, 4)
			someLists(g, s)
			return seedQ(g, s)
		},
		Run: func(c *Ctx) {
			s := c.spec
			if s.n("lists") > 0 {
				c.manyLists(c.limited)
				return
			}
			c.mustSessions("writer", s.Sess, true)
			c.reading(theRoot, func(x *dupi.Index) { c.limited(x, buildModel(x, s.Sess)) })
		}})

	// C19: statistics
	register(&Prop{ID: "C19",
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := genSpec(g, corpusOpt{Docs: g.Range(0, 60), Sessions: 1 + g.N(4), Cwds: true})
			if g.P(1, 8) {
				s.Sess = s.Sess[:1]
				s.Sess[0].Docs = nil
			}
			if g.P(1, 40) {
				s.N["full"] = g.Range(1, 6)
				s.Sess = nil
				s.Via = ""
				s.Shards = g.Range(1, 3)
			} else {
				someLists(g, s)
			}
			return seedQ(g, s)
		},
		Run: func(c *Ctx) {
			s := c.spec
			if n := s.n("full"); n > 0 {
				c.fullShards(n, func(x *dupi.Index, m *model) { c.checkStatsOf(x, m) })
				return
			}
			if s.n("lists") > 0 {
				c.manyLists(c.checkStatsOf)
				return
			}
			for i := range s.Sess {
				c.mustSessions("writer", s.Sess[i:i+1], i == 0)
				c.reading(theRoot, func(x *dupi.Index) { c.checkStats(x, s.Sess[:i+1]) })
			}
		}})
}

// someLists has the index be laid out with lists of all lengths, at times.
func someLists(g *rt.RNG, s *Spec) {
	if g.P(1, 8) {
		s.N["lists"] = 1
		if g.P(1, 10) {
			s.N["lists"] = 2 // one has more than 16 bits of documents
		}
		s.Sess = nil
		s.Via = ""
	}
}

// limited extracts and looks up with little room for results.
func (c *Ctx) limited(x *dupi.Index, m *model) {
	s := c.spec
	g := qrng(s, "caps")
	for i := 0; i < s.n("runs"); i++ {
		c.limitedExtract(x, m, g)
	}
	q := x.StartQuery(dupi.QueryMaxBlot)
	ks := m.keys()
	for i := 0; i < 60 && len(ks) > 0; i++ {
		b := ks[g.N(len(ks))]
		pre := g.N(3)
		room := g.N(6)
		bl := dupi.Blot{Blot: b, Docs: make([]dupi.Doc, pre, pre+room)}
		for j := range bl.Docs {
			bl.Docs[j].Path = fmt.Sprintf("mine%d", j)
		}
		for j := pre; j < cap(bl.Docs); j++ {
			bl.Docs[:cap(bl.Docs)][j] = dupi.Doc{Path: "old", Dat: []byte("stale")}
		}
		if err := q.Get(&bl); err != nil {
			c.Fail("lookup-error", "looking up %x: %v", b, err)
		}
		c.notStale(&bl, pre)
		want := m.idsOf(m.by[b])
		if len(want) > room {
			want = want[:room]
		}
		for j := 0; j < pre; j++ {
			if bl.Docs[j].Path != fmt.Sprintf("mine%d", j) {
				c.Fail("limited-get", "looking up %x overwrote what was in the buffer", b)
			}
		}
		if got := idents(bl.Docs[pre:]); !sameIdents(got, want) {
			c.Fail("limited-get", "looking up %x with room for %d: %s", b, room, diffIdents(got, want))
		}
	}
}

// checkStats compares the statistics of an index with its documents.
func (c *Ctx) checkStats(x *dupi.Index, ss []Sess) {
	c.checkStatsOf(x, buildModel(x, ss))
}

func (c *Ctx) checkStatsOf(x *dupi.Index, m *model) {
	st, err := x.Stats()
	if err != nil {
		c.Fail("stats-error", "%v", err)
	}
	if st.NumDocs != uint64(len(m.ids)) {
		c.Fail("stats-docs", "%d documents were added, the statistics say %d", len(m.ids), st.NumDocs)
	}
	if st.NumPosts != uint64(m.posts()) {
		c.Fail("stats-posts", "the documents have %d distinct (document, blot) pairs, the statistics say %d", m.posts(), st.NumPosts)
	}
	if want := uint64(x.NumShards()) << 16; st.NumBlots != want {
		c.Fail("stats-blots", "%d blots, want %d", st.NumBlots, want)
	}
	nodes := map[string]bool{"/": true}
	for _, i := range m.ids {
		for p := i.Path; p != "/" && !nodes[p]; p = path.Dir(p) {
			nodes[p] = true
		}
	}
	if st.NumPaths != uint64(len(nodes)) {
		c.Fail("stats-paths", "the paths form a tree of %d nodes, the statistics say %d", len(nodes), st.NumPaths)
	}
	mean := float64(m.posts()) / float64(st.NumBlots)
	var sos float64
	for _, l := range m.by {
		sos += (float64(len(l)) - mean) * (float64(len(l)) - mean)
	}
	sos += float64(int(st.NumBlots)-len(m.by)) * mean * mean
	sigma := math.Sqrt(sos / float64(st.NumBlots))
	near := func(a, b float64) bool { return math.Abs(a-b) <= 1e-6*(1+math.Abs(a)+math.Abs(b)) }
	if !near(st.BlotMean, mean) || !near(st.BlotSigma, sigma) {
		c.Fail("stats-mean", "mean %g sigma %g, want %g and %g", st.BlotMean, st.BlotSigma, mean, sigma)
	}
	if st.Root != x.Root() || st.Root != theRoot {
		c.Fail("stats-root", "the statistics give the root %q, the index is at %q", st.Root, theRoot)
	}
}

func (c *Ctx) sameStats(x, y *dupi.Index) {
	a, err := x.Stats()
	if err != nil {
		c.Fail("stats-error", "%v", err)
	}
	b, err := y.Stats()
	if err != nil {
		c.Fail("stats-error", "%v", err)
	}
	a.Root, b.Root = "", ""
	if a.NumDocs != b.NumDocs || a.NumPaths != b.NumPaths || a.NumPosts != b.NumPosts || a.NumBlots != b.NumBlots {
		c.Fail("stats-differ", "same documents, different statistics: %+v and %+v", *a, *b)
	}
}

func (c *Ctx) sameExtraction(a, b []dup) {
	am := map[uint32][]ident{}
	for _, d := range a {
		if _, ok := am[d.b]; ok {
			c.Fail("extract-twice", "blot %x is reported twice", d.b)
		}
		am[d.b] = d.docs
	}
	if len(a) != len(b) {
		c.Fail("extract-differs", "same documents, %d and %d duplicate blots", len(a), len(b))
	}
	for i, d := range b {
		if w, ok := am[d.b]; !ok || !sameIdents(w, d.docs) {
			c.Fail("extract-differs", "same documents, blot %x: %s", d.b, diffIdents(d.docs, w))
		}
		if len(d.docs) != len(a[i].docs) {
			c.Fail("extract-differs", "same documents, result %d has %d and %d documents", i, len(a[i].docs), len(d.docs))
		}
	}
}

// limitedExtract extracts with room for only so many documents per result:
// a blot then comes in consecutive pieces that together are its documents.
func (c *Ctx) limitedExtract(x *dupi.Index, m *model, g *rt.RNG) {
	q := x.StartQuery(dupi.QueryMaxBlot)
	sizes := batchSizes(g)
	room := g.Range(1, 7)
	mixed := g.P(1, 3)
	got := map[uint32][]ident{}
	done := map[uint32]bool{}
	var cur uint32
	have := false
	total := 0
	reuse := g.P(1, 2)
	mine := g.P(1, 3)  // there is something in the buffers
	tight := g.P(1, 4) // some have no room
	noroom := 0
	var used []dupi.Blot
	for i := 0; ; i++ {
		dst := make([]dupi.Blot, sizes[i%len(sizes)])
		rooms := make([]int, len(dst))
		pre := make([]int, len(dst))
		for j := range dst {
			r := room
			if mixed {
				r = g.Range(1, 7)
			}
			rooms[j] = r
			if reuse && j < len(used) {
				// whatever an earlier result left there, and was loaded
				for k := range used[j].Docs {
					used[j].Docs[k].Dat = []byte("stale")
				}
				dst[j].Docs = used[j].Docs[:0]
				rooms[j] = cap(used[j].Docs)
				continue
			}
			if tight && g.P(1, 3) && noroom == 0 {
				r = 0
			}
			if mine {
				pre[j] = g.N(3)
			}
			rooms[j] = r
			dst[j].Docs = make([]dupi.Doc, pre[j], pre[j]+r)
			for k := range dst[j].Docs {
				dst[j].Docs[k].Path = fmt.Sprintf("mine%d", k)
			}
		}
		n, err := q.Next(dst)
		for j := range dst {
			if len(dst[j].Docs) < pre[j] || j >= n && err == nil && len(dst[j].Docs) != pre[j] {
				c.Fail("limited-mine", "a result with %d documents in its buffer has %d now (result %d of %d)", pre[j], len(dst[j].Docs), j, n)
			}
			for k := 0; k < pre[j]; k++ {
				if dst[j].Docs[k].Path != fmt.Sprintf("mine%d", k) {
					c.Fail("limited-mine", "an extraction overwrote what was in the buffer")
				}
			}
		}
		if err != nil && err != errEOF && n == 0 && len(dst) > 0 && rooms[0] == 0 {
			c.Probe("no-room")
			noroom = 1
			used = nil
			continue
		}
		noroom = 0
		if err == errEOF {
			if n != 0 {
				c.Fail("extract-eof", "end reported together with %d results", n)
			}
			break
		}
		if err != nil {
			c.Fail("extract-error", "%v", err)
		}
		if n <= 0 || n > len(dst) {
			c.Fail("extract-progress", "%d results for a batch of %d", n, len(dst))
		}
		used = dst
		for j := 0; j < n; j++ {
			d := &dst[j]
			c.notStale(d, pre[j])
			d.Docs = d.Docs[pre[j]:]
			if len(d.Docs) == 0 {
				c.Fail("limited-empty", "blot %x comes with no documents", d.Blot)
			}
			if len(d.Docs) > rooms[j] {
				c.Fail("limited-room", "blot %x comes with %d documents, there was room for %d", d.Blot, len(d.Docs), rooms[j])
			}
			if !have || d.Blot != cur {
				if have {
					done[cur] = true
				}
				if done[d.Blot] {
					c.Fail("limited-again", "blot %x comes back after others", d.Blot)
				}
				cur, have = d.Blot, true
			}
			got[d.Blot] = append(got[d.Blot], idents(d.Docs)...)
			if len(got[d.Blot]) > len(m.by[d.Blot]) {
				c.Fail("limited-docs", "blot %x: %s", d.Blot, diffIdents(got[d.Blot], m.idsOf(m.by[d.Blot])))
			}
		}
		total += n
		if total > 4<<20 {
			c.Fail("extract-endless", "extraction does not end")
		}
	}
	for _, b := range m.keys() {
		want := m.idsOf(m.by[b])
		if len(want) < 2 {
			want = nil
		}
		if !sameIdents(got[b], want) {
			c.Fail("limited-docs", "blot %x with room for %d at a time: %s", b, room, diffIdents(got[b], want))
		}
		if len(want) > room {
			c.Probe("piecewise")
		}
	}
	for b := range got {
		if len(m.by[b]) < 2 {
			c.Fail("extract-extra", "blot %x occurs in %d documents", b, len(m.by[b]))
		}
	}
}

// notStale fails if documents come with the text of others.
func (c *Ctx) notStale(b *dupi.Blot, from int) {
	for k := from; k < len(b.Docs); k++ {
		if string(b.Docs[k].Dat) == "stale" {
			c.Fail("stale", "document %d of blot %x comes with the text of the one whose place it takes", k, b.Blot)
		}
	}
}

// precision: documents with nothing in common share blots only by accident.
func (c *Ctx) precision(x *dupi.Index, s *Spec, m *model) {
	docs := s.docs()
	win := map[uint32]map[string]bool{}
	n := 0
	for i := range docs {
		ws := wordsOf(docs[i].Text)
		// short words are alike to the hash
		if len(ws) < 40 || slices.ContainsFunc(ws, func(w span) bool { return len(w.w) < 12 }) {
			continue
		}
		bs := blotsOf(x, docs[i].Text, docs[i].Start)
		if len(bs) != len(ws)-s.SeqLen {
			return
		}
		for k, b := range bs {
			// what a blot covers, up to order and up to repetition
			odd := map[string]int{}
			for j := k + s.SeqLen; j > k; j -= s.Inter {
				odd[ws[j].w] ^= 1
			}
			key := ""
			for _, w := range sortedKeys(odd) {
				if odd[w] == 1 {
					key += w + "\x00"
				}
			}
			if win[b] == nil {
				win[b] = map[string]bool{}
			}
			if !win[b][key] {
				win[b][key] = true
				n++
			}
		}
	}
	coll := 0
	for _, w := range win {
		coll += len(w) - 1
	}
	space := float64(x.NumShards() << 16)
	expect := float64(n) * float64(n) / 2 / space
	if float64(coll) > 20+6*expect {
		c.Fail("precision", "%d of %d different runs of words share a blot with another one; by chance it would be about %.0f", coll, n, expect)
	}
	c.Probe("precision")
}

// fixStarts re-lays documents of the same file after their texts changed.
func fixStarts(s *Spec) *Spec {
	next := map[string]uint32{}
	for i := range s.Sess {
		for j := range s.Sess[i].Docs {
			d := &s.Sess[i].Docs[j]
			p := absOf(dirOf(&s.Sess[i], j), d.Path)
			if d.Start < next[p] {
				d.Start = next[p]
			}
			next[p] = d.end() + 1
		}
	}
	return s
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

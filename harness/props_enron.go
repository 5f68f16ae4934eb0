package main

import (
	"encoding/csv"
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/go-air/dupi"
	dupenron0 "github.com/go-air/dupi/zz/dupenron0"
	"github.com/go-air/dupi/zz/rt"
	"github.com/go-air/dupi/zz/simflag"
)

// ---- the importer of mail archives ----

// A mail is a record of an archive.
type mail struct {
	name, body string
	rec        []string
	lo, hi     int // where it is in the file, without what ends the line
}

// archive writes the documents of a session as mails, one a record, and may
// spoil the record with number bad.
func archive(g *rt.RNG, docs []DocS, bad int) (string, []mail) {
	var b strings.Builder
	var ms []mail
	field := func(f string) {
		if f != "" && !strings.ContainsAny(f, "\",\r\n") && !strings.HasPrefix(f, " ") && g.P(1, 2) {
			b.WriteString(f)
			return
		}
		b.WriteString(`"` + strings.ReplaceAll(f, `"`, `""`) + `"`)
	}
	eol := []string{"\n", "\n", "\r\n"}[g.N(3)]
	for i, d := range docs {
		for g.P(1, 10) {
			b.WriteString(eol) // an empty line is no record
		}
		m := mail{name: d.Path, lo: b.Len()}
		msg := ""
		switch g.N(6) {
		case 0:
			msg = d.Text
		case 1:
			msg = "\n\n" + d.Text
		default:
			for _, h := range []string{"Message-ID: <1.2@3>", "From: a@b", `To: "x, y" <z@w>`, "Subject: " + wordLine(d.Text), "X-Folder: \\a\\b"} {
				if g.P(2, 3) {
					msg += h + "\n"
				}
			}
			msg += "\n" + d.Text
		}
		if g.P(1, 8) {
			msg = strings.Replace(msg, " ", ` "quoted, so" `, 1)
		}
		field(m.name)
		if bad == i && g.P(1, 2) {
			m.rec = []string{m.name}
		} else {
			b.WriteString(",")
			field(msg)
			m.rec = []string{m.name, msg}
			if bad == i {
				b.WriteString(",more")
			}
		}
		m.hi = b.Len()
		if i < len(docs)-1 || g.P(3, 4) {
			b.WriteString(eol)
		}
		for k := range m.rec {
			m.rec[k] = strings.ReplaceAll(m.rec[k], "\r\n", "\n")
		}
		if len(m.rec) == 2 {
			m.body = m.rec[1]
			if k := strings.Index(m.body, "\n\n"); k >= 0 {
				m.body = m.body[k+2:]
			}
		}
		ms = append(ms, m)
	}
	return b.String(), ms
}

func wordLine(t string) string {
	t = strings.Map(func(r rune) rune {
		if r == '\n' || r == '\r' || r == 0xfffd {
			return ' '
		}
		return r
	}, t)
	if r := []rune(t); len(r) > 20 {
		t = string(r[:20])
	}
	return t
}

func (c *Ctx) enronRun(role, cwd string, args ...string) *cliRun {
	p := c.Proc(role, cwd)
	p.Args = append([]string{"dupenron"}, args...)
	return runMain(p, func() { simflag.Reset(); dupenron0.ZzReset() }, dupenron0.ZzMain)
}

func init() {
	// C35: a mail archive is imported whole, or that it was not is reported
	register(&Prop{ID: "C35", K: 4,
		Gen: func(g *rt.RNG, deep bool) *Spec {
			s := smallCorpus(g, corpusOpt{Docs: g.Range(1, 30), Sessions: 1})
			s.Inter = 1
			s.N["bad"] = -1
			if n := len(s.docs()); n > 0 && g.P(1, 5) {
				s.N["bad"] = g.N(n)
			}
			s.N["show"] = g.N(4)
			s.N["there"] = g.N(8)
			if g.P(1, 150) {
				// as much as can be recorded, or more
				s.N["huge"], s.N["bad"] = 1, -1
				s.N["over"] = []int{-100000, -1, 0, 1, 2, 3, 60, 5000, 1 << 20}[g.N(9)]
			}
			return seedQ(g, s)
		},
		Run: enronRun,
		Faults: func(g *rt.RNG, cen map[string]map[string]int, s *Spec) map[string][]rt.Fault {
			if s.n("huge") == 1 {
				return nil
			}
			kinds := []string{"eio", "enospc"}
			if g.P(1, 4) {
				kinds = []string{"eacces", "emfile"}
			}
			return roleFaults(g, cen, 1, kinds, func(cl string) bool {
				return g.P(1, 3) || strings.HasPrefix(cl, "open:") || strings.HasPrefix(cl, "read") || cl == "write:stdout"
			})
		}})
}

func enronRun(c *Ctx) {
	s := c.spec
	g := qrng(s, "archive")
	text, mails := archive(g, s.docs(), s.n("bad"))
	c.w.FS.MkAll("/w/mail")
	size := len(text)                                    // of the archive
	at := func(lo, hi int) string { return text[lo:hi] } // what is there
	if s.n("huge") == 1 {
		size, at, mails = c.hugeArchive(text, mails)
	} else {
		c.w.FS.Put("/w/mail/a.csv", []byte(text))
	}
	cwd, name := "/w", "mail/a.csv"
	switch g.N(3) {
	case 0:
		name = "/w/mail/../mail/a.csv"
	case 1:
		cwd, name = "/w/mail", "a.csv"
	}
	if s.n("show") == 0 && s.n("huge") == 0 {
		c.enronShow(cwd, name, mails)
		return
	}
	args := []string{"-r", theRoot, "-n", fmt.Sprint(s.Shards), "-s", fmt.Sprint(s.SeqLen), name}
	there := s.n("there") == 0 && s.n("huge") == 0
	if there {
		// there is an index already
		if r := c.enronRun("before", cwd, args...); (r.code == 0) != (s.n("bad") < 0) {
			c.Fail("exit-code", "dupenron: exit %d; %s", r.code, r.err)
		}
	}
	files := c.w.FS.Tree(theRoot)
	r := c.enronRun("s0", cwd, args...)
	faulted := c.plans["s0"].ErrsOut > 0 || !r.done
	if there {
		if r.code == 0 {
			c.Fail("exit-code", "dupenron: exit 0 although there is something at the place of the index")
		}
		if !reflect.DeepEqual(files, c.w.FS.Tree(theRoot)) {
			c.Fail("changed", "dupenron changed what was at the place of the index")
		}
		return
	}
	if s.n("bad") >= 0 {
		if r.code == 0 {
			c.Fail("exit-code", "dupenron: exit 0 although record %d is malformed", s.n("bad"))
		}
		return
	}
	if n := len(mails); n > 0 && mails[n-1].hi > math.MaxUint32 {
		if r.code == 0 {
			c.Fail("exit-code", "dupenron: exit 0 although the archive, of %d bytes, is too big", size)
		}
		c.Probe("too-big")
		return
	}
	if r.code != 0 {
		if size > math.MaxUint32 {
			return
		}
		if !faulted {
			c.Fail("exit-code", "dupenron: exit %d and nothing is wrong: %s", r.code, r.err)
		}
		c.Probe("failed")
		return
	}
	if faulted {
		c.Probe("fault-survived")
	}
	ref := readRef(c, theRoot)
	if len(ref.docs)-1 != len(mails) {
		c.Fail("mails", "%d mails, %d documents", len(mails), len(ref.docs)-1)
	}
	last := uint32(0)
	for i, m := range mails {
		d := ref.docs[i+1]
		next := size
		if i+1 < len(mails) {
			next = mails[i+1].lo
		}
		if p := ref.path(d.fid); p != "/w/mail/a.csv" || d.start < last || int(d.start) > m.lo || int(d.end) < m.hi || int(d.end) > next {
			c.Fail("range", "mail %d is at %d:%d (the next begins at %d) of /w/mail/a.csv, its document at %d:%d of %s", i, m.lo, m.hi, next, d.start, d.end, p)
		}
		last = d.end
	}
	// the postings as they are to be
	want := newRef(theRoot, s)
	fid := want.fid("/w/mail/a.csv")
	for i, m := range mails {
		want.add("/w/mail/a.csv", &DocS{Text: m.body})
		want.docs[i+1] = refDoc{fid, ref.docs[i+1].start, ref.docs[i+1].end}
	}
	ref.same(c, want)
	model := want.model()
	c.reading(theRoot, func(x *dupi.Index) {
		c.checkLookup(x, model, []uint32{0, 1})
		c.checkExtract(c.extract(x, batchSizes(g)), model)
		keys := model.keys()
		for k := 0; k < 8 && len(keys) > 0; k++ {
			b := keys[g.N(len(keys))]
			l := model.by[b]
			id := model.ids[l[g.N(len(l))]]
			doc := &dupi.Doc{Path: id.Path, Start: id.Start, End: id.End}
			lo, hi, err := x.FindBlot(b, doc)
			if err != nil || lo < id.Start || hi > id.End || lo >= hi {
				c.Fail("find", "blot %x of %s: found at %d:%d, %v", b, id, lo, hi, err)
			}
			if bs := blotsOf(x, at(int(lo), int(hi)), 0); len(bs) != 1 || bs[0] != b {
				c.Fail("find", "blot %x of %s: found %q, which has %x", b, id, at(int(lo), int(hi)), bs)
			}
		}
	})
}

// hugeArchive puts so many mails before those of the archive that it has 2^32
// bytes, more or less.
func (c *Ctx) hugeArchive(text string, mails []mail) (size int, at func(lo, hi int) string, all []mail) {
	g := qrng(c.spec, "huge")
	long := func(name, body string, n int) (string, mail) {
		head := "x-header: " + strings.Repeat(strings.Repeat("z", 4000)+"\n", n/4001)
		if k := n - len(head); k > 0 {
			head += strings.Repeat("y", k)
		}
		rec := "\"" + name + "\",\"" + head + "\n\n" + body + "\"\n"
		return rec, mail{name: name, body: body, hi: len(rec) - 1}
	}
	word := func() string {
		if ds := c.spec.docs(); len(ds) > 0 {
			return wordLine(strings.NewReplacer("\"", " ", "\n", " ").Replace(ds[g.N(len(ds))].Text)) + "a b c d"
		}
		return "a b c d e f"
	}
	pat, m := long("many", word(), 1<<20+g.N(5000))
	goal := 1<<32 - 1 + c.spec.n("over") // how long it is to be
	k := (goal - len(text)) / len(pat)
	k--
	fill, f := long("fill", word(), 5000)
	fill, f = long("fill", f.body, 5000+goal-len(text)-k*len(pat)-len(fill))
	for i := 0; i < k; i++ {
		m.lo = i * len(pat)
		m.hi = m.lo + len(pat) - 1
		all = append(all, m)
	}
	base := k * len(pat)
	f.lo, f.hi = base, base+len(fill)-1
	all = append(all, f)
	for _, m := range mails {
		m.lo += base + len(fill)
		m.hi += base + len(fill)
		all = append(all, m)
	}
	tail := fill + text
	c.w.FS.PutMany("/w/mail/a.csv", []byte(pat), k, []byte(tail))
	size = base + len(tail)
	return size, func(lo, hi int) string {
		if lo >= base {
			return tail[lo-base : hi-base]
		}
		return (pat + pat)[lo%len(pat) : lo%len(pat)+hi-lo]
	}, all
}

// enronShow has the importer print the first records.
func (c *Ctx) enronShow(cwd, name string, mails []mail) {
	s := c.spec
	n := qrng(s, "show").N(len(mails) + 3)
	r := c.enronRun("s0", cwd, "-o", "-n", fmt.Sprint(n), name)
	faulted := c.plans["s0"].ErrsOut > 0 || !r.done
	bad := s.n("bad")
	if bad >= 0 && bad < n {
		if r.code == 0 {
			c.Fail("exit-code", "dupenron -o: exit 0 although record %d is malformed", bad)
		}
		return
	}
	if r.code != 0 {
		if !faulted {
			c.Fail("exit-code", "dupenron -o: exit %d and nothing is wrong: %s", r.code, r.err)
		}
		return
	}
	rd := csv.NewReader(strings.NewReader(r.out))
	got, err := rd.ReadAll()
	if err != nil {
		c.Fail("show", "dupenron -o: %v in %q", err, r.out)
	}
	want := mails[:min(n, len(mails))]
	if len(got) != len(want) {
		c.Fail("show", "dupenron -o -n %d: %d records of %d", n, len(got), len(mails))
	}
	for i := range want {
		if !reflect.DeepEqual(got[i], want[i].rec) {
			c.Fail("show", "dupenron -o: record %d is %q, printed %q", i, want[i].rec, got[i])
		}
	}
	c.Probe("shown")
}

package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"path"
	"sort"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/token"
	"github.com/go-air/dupi/zz/rt"
)

// A second implementation of what an index is on disk and of what a blot is,
// written from the format and sharing nothing with the code under test: both
// stay what they are from one version to the next.

type refCfg struct {
	IndexRoot    string
	SeqLen       int
	NumShards    int
	NumShatters  int
	DocFlushRate int
	TokenConfig  struct{ Name string }
	BlotConfig   struct{ SeqLen, Interleave int }
}

type refName struct {
	name   string
	parent uint32
}

type refDoc struct{ fid, start, end uint32 }

type refIndex struct {
	cfg   refCfg
	names []refName
	kids  map[refName]uint32
	docs  []refDoc
	posts []map[uint16][]uint32

	base uint32  // the number of docs[0]: so many documents before it have neither a file nor words
	lead []int64 // so many bytes before what is in the file of postings are of nothing
}

func newRef(root string, s *Spec) *refIndex {
	r := &refIndex{names: []refName{{}}, kids: map[refName]uint32{}, docs: []refDoc{{}}}
	r.cfg = refCfg{IndexRoot: root, SeqLen: s.SeqLen, NumShards: s.Shards, NumShatters: s.Shatters, DocFlushRate: s.Flush}
	r.cfg.TokenConfig.Name = "words.simple"
	r.cfg.BlotConfig.Interleave = max(1, s.Inter)
	r.cfg.BlotConfig.SeqLen = s.SeqLen / max(1, s.Inter)
	r.makePosts()
	return r
}

func (r *refIndex) makePosts() {
	for i := 0; i < r.cfg.NumShards; i++ {
		r.posts = append(r.posts, map[uint16][]uint32{})
		r.lead = append(r.lead, 0)
	}
}

// refBlots is what the blots of a text are: from the word after the first
// SeqLen on, one for each word, of it and those before it.
func (r *refIndex) refBlots(text string) []uint32 {
	var hs []uint32
	for _, w := range wordsOf(text) {
		h := fnv.New32()
		h.Write([]byte(w.w))
		hs = append(hs, h.Sum32())
	}
	var out []uint32
	n, l := r.cfg.BlotConfig.Interleave, r.cfg.BlotConfig.SeqLen
	for i := r.cfg.SeqLen; i < len(hs); i++ {
		b := uint32(0)
		for j := 0; j < l; j++ {
			b ^= hs[i-j*n]
		}
		out = append(out, b)
	}
	return out
}

func (r *refIndex) split(b uint32) (int, uint16) {
	n := uint32(r.cfg.NumShards)
	return int(b % n), uint16(b / n)
}

func (r *refIndex) join(sh int, sb uint16) uint32 {
	return uint32(sh) + uint32(r.cfg.NumShards)*uint32(sb)
}

func (r *refIndex) fid(abs string) uint32 {
	at := uint32(0)
	for _, p := range strings.Split(strings.TrimPrefix(abs, "/"), "/") {
		k := refName{p, at}
		id, ok := r.kids[k]
		if !ok {
			id = uint32(len(r.names))
			r.names = append(r.names, k)
			r.kids[k] = id
		}
		at = id
	}
	return at
}

func (r *refIndex) path(fid uint32) string {
	p := ""
	for fid != 0 {
		p = "/" + r.names[fid].name + p
		fid = r.names[fid].parent
	}
	if p == "" {
		return "/"
	}
	return p
}

func (r *refIndex) add(abs string, d *DocS) {
	did := r.base + uint32(len(r.docs))
	r.docs = append(r.docs, refDoc{r.fid(abs), d.Start, d.end()})
	for _, b := range r.refBlots(d.Text) {
		sh, sb := r.split(b)
		l := r.posts[sh][sb]
		if len(l) == 0 || l[len(l)-1] != did {
			r.posts[sh][sb] = append(l, did)
		}
	}
}

// files lays the index out, the blocks of postings as g has it.
func (r *refIndex) files(g *rt.RNG) map[string][]byte {
	out := map[string][]byte{}
	cfg, _ := json.MarshalIndent(&r.cfg, "", "\t")
	out["cfg.json"] = append(cfg, '\n')
	var fn []byte
	fn = binary.AppendUvarint(fn, uint64(len(r.names)))
	for _, n := range r.names {
		fn = binary.AppendUvarint(fn, uint64(len(n.name)))
		fn = append(fn, n.name...)
		fn = binary.AppendUvarint(fn, uint64(n.parent))
	}
	out["files.fnm"] = fn
	dmd := make([]byte, 0, 12*len(r.docs))
	for _, d := range r.docs {
		dmd = binary.BigEndian.AppendUint32(dmd, d.fid)
		dmd = binary.BigEndian.AppendUint32(dmd, d.start)
		dmd = binary.BigEndian.AppendUint32(dmd, d.end)
	}
	out["dmd"] = dmd
	for i := range r.posts {
		pos, iix := r.shard(i, g)
		out[fmt.Sprintf("b%d.pos", i)] = pos
		out[fmt.Sprintf("b%d.pos.iix", i)] = iix
	}
	return out
}

// put lays the index out in a directory.
func (r *refIndex) put(c *Ctx, root string, g *rt.RNG) {
	fs := r.files(g)
	var names []string
	for n := range fs {
		names = append(names, n)
	}
	sort.Strings(names)
	c.w.FS.MkAll(root)
	for _, n := range names {
		lead := int64(0)
		if n == "dmd" {
			lead = 12 * int64(r.base)
		}
		for i := range r.posts {
			if n == fmt.Sprintf("b%d.pos", i) {
				lead = r.lead[i]
			}
		}
		c.w.FS.PutAt(path.Join(root, n), lead, fs[n])
	}
}

func (r *refIndex) shard(i int, g *rt.RNG) (pos, iix []byte) {
	var keys []int
	for k := range r.posts[i] {
		keys = append(keys, int(k))
	}
	sort.Ints(keys)
	// the postings, cut into blocks
	left := map[int][][]byte{}
	var open []int
	most := []int{1, 8, 64, 512, 512}[g.N(5)]
	for _, k := range keys {
		last := uint32(0)
		var blk []byte
		for _, d := range r.posts[i][uint16(k)] {
			blk = binary.AppendUvarint(blk, uint64(d-last))
			last = d
			if len(blk) >= most {
				left[k] = append(left[k], blk)
				blk = nil
			}
		}
		if len(blk) > 0 {
			left[k] = append(left[k], blk)
		}
		open = append(open, k)
	}
	// one after the other, in any order which keeps that of each list
	head, link := map[int]int64{}, map[int]int64{}
	for len(open) > 0 {
		j := g.N(len(open))
		k := open[j]
		for n := 1 + g.N(3); n > 0 && len(left[k]) > 0; n-- {
			blk := left[k][0]
			left[k] = left[k][1:]
			at := int64(len(pos))
			if l, ok := link[k]; ok {
				binary.BigEndian.PutUint64(pos[l:], uint64(at+r.lead[i]))
			} else {
				head[k] = at + r.lead[i]
			}
			pos = binary.AppendVarint(pos, int64(len(blk)+8))
			pos = append(pos, blk...)
			link[k] = int64(len(pos))
			pos = binary.BigEndian.AppendUint64(pos, ^uint64(0))
		}
		if len(left[k]) == 0 {
			open[j] = open[len(open)-1]
			open = open[:len(open)-1]
		}
	}
	for k := 0; k < 1<<16; k++ {
		l := r.posts[i][uint16(k)]
		if len(l) == 0 {
			iix = binary.AppendVarint(iix, -1)
			iix = binary.AppendVarint(iix, 0)
			iix = append(iix, 0, 0, 0, 0)
			continue
		}
		iix = binary.AppendVarint(iix, head[k])
		iix = binary.AppendVarint(iix, int64(len(l)))
		iix = binary.BigEndian.AppendUint32(iix, l[len(l)-1])
	}
	return pos, iix
}

// readRef reads an index which the code under test has written.
func readRef(c *Ctx, root string) *refIndex {
	bad := func(f, format string, args ...interface{}) {
		c.Fail("format", "%s as written now cannot be read by what reads the format: %s", f, fmt.Sprintf(format, args...))
	}
	get := func(f string) []byte {
		b, ok := c.w.FS.Get(path.Join(root, f))
		if !ok {
			bad(f, "there is none")
		}
		return b
	}
	r := &refIndex{kids: map[refName]uint32{}}
	if err := json.Unmarshal(get("cfg.json"), &r.cfg); err != nil {
		bad("cfg.json", "%v", err)
	}
	if r.cfg.NumShards < 1 || r.cfg.NumShards > 1000 {
		bad("cfg.json", "NumShards=%d", r.cfg.NumShards)
	}
	r.makePosts()
	b := get("files.fnm")
	uv := func(f string) uint64 {
		v, n := binary.Uvarint(b)
		if n <= 0 {
			bad(f, "no number where one was to be, %d bytes before the end", len(b))
		}
		b = b[n:]
		return v
	}
	sv := func(f string) int64 {
		v, n := binary.Varint(b)
		if n <= 0 {
			bad(f, "no number where one was to be, %d bytes before the end", len(b))
		}
		b = b[n:]
		return v
	}
	for i, n := uint64(0), uv("files.fnm"); i < n; i++ {
		l := uv("files.fnm")
		if l > uint64(len(b)) {
			bad("files.fnm", "name %d is %d bytes long", i, l)
		}
		nm := refName{name: string(b[:l])}
		b = b[l:]
		p := uv("files.fnm")
		if p >= i && i != 0 || p > 0 && i == 0 {
			bad("files.fnm", "name %d has parent %d", i, p)
		}
		nm.parent = uint32(p)
		r.kids[nm] = uint32(i)
		r.names = append(r.names, nm)
	}
	if len(b) != 0 {
		bad("files.fnm", "%d more bytes", len(b))
	}
	b = get("dmd")
	r.base = uint32(c.w.FS.Lead(path.Join(root, "dmd")) / 12)
	if len(b)%12 != 0 {
		bad("dmd", "%d bytes", len(b))
	}
	for ; len(b) > 0; b = b[12:] {
		d := refDoc{binary.BigEndian.Uint32(b), binary.BigEndian.Uint32(b[4:]), binary.BigEndian.Uint32(b[8:])}
		if int(d.fid) >= len(r.names) {
			bad("dmd", "document %d is in file %d", r.base+uint32(len(r.docs)), d.fid)
		}
		r.docs = append(r.docs, d)
	}
	for i := range r.posts {
		iix, posf := fmt.Sprintf("b%d.pos.iix", i), fmt.Sprintf("b%d.pos", i)
		pos := get(posf)
		r.lead[i] = c.w.FS.Lead(path.Join(root, posf))
		b = get(iix)
		for k := 0; k < 1<<16; k++ {
			head, count := sv(iix), sv(iix)
			if len(b) < 4 {
				bad(iix, "ends in blot %x", k)
			}
			last := binary.BigEndian.Uint32(b)
			b = b[4:]
			cur := uint32(0)
			var l []uint32
			for at := head; at != -1 && int64(len(l)) < count; {
				if at -= r.lead[i]; at < 0 || at >= int64(len(pos)) {
					bad(posf, "block at %d", at+r.lead[i])
				}
				v, n := binary.Varint(pos[at:])
				if n <= 0 || v <= 8 || v > int64(len(pos))-at-int64(n) {
					bad(posf, "block at %d of %d bytes", at, v)
				}
				blk := pos[at+int64(n) : at+int64(n)+v]
				for d := blk[:v-8]; len(d) > 0; {
					v, n := binary.Uvarint(d)
					if n <= 0 {
						bad(posf, "block at %d", at)
					}
					d = d[n:]
					cur += uint32(v)
					l = append(l, cur)
				}
				at = int64(binary.BigEndian.Uint64(blk[v-8:]))
			}
			if int64(len(l)) != count || cur != last {
				bad(iix, "blot %x is to have %d documents up to %d but has %d up to %d", k, count, last, len(l), cur)
			}
			if len(l) > 0 {
				r.posts[i][uint16(k)] = l
			}
		}
		if len(b) != 0 {
			bad(iix, "%d more bytes", len(b))
		}
	}
	return r
}

// same compares what an index holds with what it is to hold.
func (r *refIndex) same(c *Ctx, want *refIndex) {
	g, w := r.cfg, want.cfg
	if g.SeqLen != w.SeqLen || g.NumShards != w.NumShards || g.TokenConfig != w.TokenConfig || g.BlotConfig != w.BlotConfig {
		c.Fail("format-config", "cfg.json as written now reads %+v, not %+v", g, w)
	}
	if r.base != want.base || len(r.docs) != len(want.docs) {
		c.Fail("format-docs", "dmd as written now has %d documents after %d, not %d after %d", len(r.docs)-1, r.base, len(want.docs)-1, want.base)
	}
	for i := 1; i < len(r.docs); i++ {
		a, b := r.docs[i], want.docs[i]
		if r.path(a.fid) != want.path(b.fid) || a.start != b.start || a.end != b.end {
			c.Fail("format-docs", "document %d as written now reads %s@%d:%d, not %s@%d:%d", i, r.path(a.fid), a.start, a.end, want.path(b.fid), b.start, b.end)
		}
	}
	for i := range r.posts {
		for k := 0; k < 1<<16; k++ {
			a, b := r.posts[i][uint16(k)], want.posts[i][uint16(k)]
			if fmt.Sprint(a) != fmt.Sprint(b) {
				c.Fail("format-posts", "blot %x as written now has documents %v, not %v", r.join(i, uint16(k)), a, b)
			}
		}
	}
}

// model is what reading the index is to give.
func (r *refIndex) model() *model {
	m := newModel()
	for i, d := range r.docs {
		if i > 0 {
			m.ids = append(m.ids, ident{r.path(d.fid), d.start, d.end})
		}
	}
	for i := range r.posts {
		for k, l := range r.posts[i] {
			b := r.join(i, k)
			for _, d := range l {
				m.by[b] = append(m.by[b], int(d-r.base)-1)
			}
		}
	}
	return m
}

// configPaths compares where an index's files are with where they are said to be.
func (c *Ctx) configPaths(r *refIndex) {
	cfg, err := dupi.ReadConfigFromRoot(theRoot)
	if err != nil {
		c.Fail("config", "%v", err)
	}
	got := []string{cfg.Path(), cfg.DmdPath(), cfg.FnamesPath(), cfg.LockPath()}
	want := []string{"/cfg.json", "/dmd", "/files.fnm", ".lock"}
	for i := range r.posts {
		got = append(got, cfg.PostPath(i), cfg.IixPath(i))
		want = append(want, fmt.Sprintf("/b%d.pos", i), fmt.Sprintf("/b%d.pos.iix", i))
	}
	for i := range got {
		if got[i] != theRoot+want[i] {
			c.Fail("config-paths", "%s is said to be at %s", theRoot+want[i], got[i])
		}
	}
}

// fullShards reads an index in which every blot there can be occurs, most of
// them in several of a few documents; it is laid out by the reference writer,
// for no text of reasonable size has so many blots.
func (c *Ctx) fullShards(kind int, check func(x *dupi.Index, m *model)) {
	g := qrng(c.spec, "full")
	r := newRef(theRoot, c.spec)
	for i := 1; i <= 5; i++ {
		r.docs = append(r.docs, refDoc{r.fid(fmt.Sprintf("/w/d%d", i)), 0, uint32(10 * i)})
	}
	full := g.N(c.spec.Shards)
	for sh := range r.posts {
		for b := 0; b < 1<<16; b++ {
			n := g.Range(2, 5)
			switch {
			case sh != full:
				n = g.N(3)
				if b%7 != 0 {
					n = 0
				}
			case kind == 1:
				n = 2
			case kind == 2 && g.P(1, 1000):
				n = 1
			case kind == 3 && b == 1<<16-1:
				n = 1
			}
			var l []uint32
			for d := 1; d <= 5 && n > 0; d++ {
				if g.P(n, 6-d) {
					l = append(l, uint32(d))
					n--
				}
			}
			if len(l) > 0 {
				r.posts[sh][uint16(b)] = l
			}
		}
	}
	r.put(c, theRoot, g)
	c.reading(theRoot, func(x *dupi.Index) {
		check(x, r.model())
		c.Probe("full-shard")
	})
}

// manyLists reads an index with lists of postings of all lengths.
func (c *Ctx) manyLists(check func(x *dupi.Index, m *model)) {
	g := qrng(c.spec, "lists")
	r := c.lists(g)
	r.put(c, theRoot, g)
	c.reading(theRoot, func(x *dupi.Index) {
		check(x, r.model())
		c.Probe("many-lists")
	})
}

// lists is an index with lists of all lengths, many of them those at which
// something may change, and some of the blots of what is to be added.
func (c *Ctx) lists(g *rt.RNG) *refIndex {
	r := newRef(theRoot, c.spec)
	var to []uint32
	for _, d := range c.spec.docs() {
		to = append(to, r.refBlots(d.Text)...)
	}
	most := []int{20, 300, 1100, 2100, 4200}[g.N(5)]
	long := c.spec.n("lists") == 2
	if long {
		most = 65530 + g.N(4000)
	}
	for i := 1; i <= most; i++ {
		r.docs = append(r.docs, refDoc{r.fid(fmt.Sprintf("/w/d%d", i%37)), uint32(i), uint32(10 * i)})
	}
	for left := g.Range(1, 40000); left > 0; left-- {
		n := 1 + g.N(5)
		switch g.N(3) {
		case 0:
			n = 1<<g.N(13) + []int{-2, -1, 0, 0, 1, 2}[g.N(6)]
		case 1:
			n = 1 + g.N(most)
		}
		n = max(1, min(n, most))
		if long {
			n, long = most-g.N(12), false
		}
		left -= n
		var l []uint32
		at, step := 1, 1
		if g.P(1, 2) {
			step = max(1, most/n)
		}
		at += g.N(1 + most - step*(n-1) - 1)
		for ; n > 0; n-- {
			l = append(l, uint32(at))
			at += step
		}
		sh, sb := g.N(len(r.posts)), uint16(g.N(1<<16))
		if g.P(1, 10) {
			sb = []uint16{0, 1, 1<<16 - 2, 1<<16 - 1}[g.N(4)]
		} else if len(to) > 0 && g.P(1, 2) {
			sh, sb = r.split(to[g.N(len(to))])
		}
		r.posts[sh][sb] = l
	}
	return r
}

// listAppends adds to an index with lists of all lengths.
func (c *Ctx) listAppends() {
	s := c.spec
	g := qrng(s, "lists")
	putFiles(c, s.Sess)
	r := c.lists(g)
	if g.P(1, 4) {
		for i := range r.lead {
			r.lead[i] = bigs[g.N(len(bigs))] - int64(g.N(200))
		}
	}
	r.put(c, theRoot, g)
	c.w.FS.Put(theRoot+".lock", nil)
	for i := range s.Sess {
		c.mustSessions("writer", s.Sess[i:i+1], false)
		k := &s.Sess[i]
		for j := range k.Docs {
			r.add(absOf(dirOf(k, j), k.Docs[j].Path), &k.Docs[j])
		}
		readRef(c, theRoot).same(c, r)
	}
	m := r.model()
	c.reading(theRoot, func(x *dupi.Index) {
		c.checkLookup(x, m, nil)
		c.checkExtract(c.extract(x, []int{64}), m)
		c.checkStatsOf(x, m)
	})
	c.Probe("list-appends")
}

// field is where a number is in a file, and how: u and s are varints, 4 and 8
// big endian numbers, d decimal digits.
type field struct {
	lo, hi int
	kind   byte
	v      int64 // what it is
	own    int64 // a value which refers to itself
}

// fieldsOf finds the numbers in a file of an index, as far as it can be read.
func fieldsOf(name string, d, iix []byte) []field {
	var out []field
	at := 0
	num := func(kind byte, own int64) (int64, bool) {
		var v int64
		n := 0
		switch {
		case at < 0 || at >= len(d):
		case kind == 'u':
			var u uint64
			u, n = binary.Uvarint(d[at:])
			v = int64(u)
		case kind == 's':
			v, n = binary.Varint(d[at:])
		case kind == '4' && at+4 <= len(d):
			v, n = int64(binary.BigEndian.Uint32(d[at:])), 4
		case kind == '8' && at+8 <= len(d):
			v, n = int64(binary.BigEndian.Uint64(d[at:])), 8
		}
		if n <= 0 {
			return 0, false
		}
		out = append(out, field{at, at + n, kind, v, own})
		at += n
		return v, true
	}
	switch {
	case strings.HasSuffix(name, ".fnm"):
		n, ok := num('u', 0)
		for i := int64(0); ok && i < n; i++ {
			var l int64
			if l, ok = num('u', i); ok && l >= 0 && l < int64(len(d)) {
				at += int(l)
				_, ok = num('u', i)
			}
		}
	case strings.HasSuffix(name, "dmd"):
		for i := int64(0); ; i++ {
			if _, ok := num('4', i/3); !ok {
				break
			}
		}
	case strings.HasSuffix(name, ".iix"):
		for i := 0; i < 1<<16; i++ {
			k := len(out)
			h, ok := num('s', -1)
			if ok {
				_, ok = num('s', -1)
			}
			if ok {
				_, ok = num('4', -1)
			}
			if !ok {
				break
			}
			if h == -1 && i%4096 != 0 {
				out = out[:k] // most are of nothing
			}
		}
	case strings.HasSuffix(name, ".pos"):
		seen := map[int64]bool{}
		for _, f := range fieldsOf(".iix", iix, nil) {
			if f.kind != 's' {
				continue
			}
			for head := f.v; head >= 0 && head < int64(len(d)) && !seen[head]; {
				seen[head] = true
				at = int(head)
				l, ok := num('s', head)
				if !ok || l < 8 || int64(at)+l > int64(len(d)) {
					break
				}
				end := at + int(l) - 8
				num('u', head)
				at = end
				head, _ = num('8', head)
			}
		}
	default:
		for i := 0; i < len(d); i++ {
			if j := i; d[i] >= '0' && d[i] <= '9' {
				v := int64(0)
				for ; j < len(d) && d[j] >= '0' && d[j] <= '9'; j++ {
					v = v*10 + int64(d[j]-'0')
				}
				out = append(out, field{i, j, 'd', v, 0})
				i = j
			}
		}
	}
	return out
}

// wrongField puts another number where one is.
func wrongField(g *rt.RNG, name string, d, iix []byte) []byte {
	fs := fieldsOf(name, d, iix)
	if len(fs) == 0 {
		return d
	}
	f := fs[g.N(len(fs))]
	v := []int64{f.own, f.own, f.own, f.own + 1, f.own - 1, f.v + 1, f.v - 1, 2 * f.v, 0, 1, -1, int64(len(d)), int64(f.lo), math.MaxInt32, math.MaxUint32,
		1 << 32, math.MaxInt64, math.MinInt64, -f.v, fs[g.N(len(fs))].v, fs[g.N(len(fs))].v, int64(g.N(len(d)))}[g.N(22)]
	var b []byte
	switch f.kind {
	case 'u':
		b = binary.AppendUvarint(nil, uint64(v))
	case 's':
		b = binary.AppendVarint(nil, v)
	case '4':
		b = binary.BigEndian.AppendUint32(nil, uint32(v))
	case '8':
		b = binary.BigEndian.AppendUint64(nil, uint64(v))
	default:
		b = fmt.Append(nil, v)
	}
	return append(d[:f.lo:f.lo], append(b, d[f.hi:]...)...)
}

// bigs are sizes around which what is not made for large files goes wrong.
var bigs = []int64{1 << 31, 1 << 32, 3 << 31, 1 << 33, 1 << 40}

func init() {
	// C33: indexes and blots mean the same in every version
	register(&Prop{ID: "C33",
		Gen: func(g *rt.RNG, deep bool) *Spec {
			o := corpusOpt{Docs: g.Range(1, 14), Sessions: g.Range(1, 4)}
			if g.P(1, 6) {
				o.Hot = hotN(g, deep) / 2
			}
			s := genSpec(g, o)
			s.Via = ""
			s.Shards = []int{1, 1, 2, 2, 3}[g.N(5)]
			s.N["who"] = g.N(1 << 4)
			// documents without words between those with: the numbers of
			// documents, and the steps between them, grow
			for i := range s.Sess {
				if g.P(1, 2) {
					s.N[fmt.Sprintf("gap%d", i)] = []int{1, 100, 127, 128, 300, 16383, 16384, 20000, 70000}[g.N(9)]
				}
			}
			if g.P(1, 30) {
				s.N["gap0"] = 1<<21 + g.N(3) - 1
			}
			if g.P(1, 40) {
				// so many documents, all with one blot
				s.N["gap0"] = []int{8191, 8192, 65535, 65536, 66000}[g.N(5)] + g.N(2)
				s.N["crowd"] = 1 + g.N(s.Shards<<16)
				s.N["who"] |= 1
			} else if g.P(1, 8) {
				// the index of a large collection
				s.N["base"] = []int{1 << 24, 178956971, 357913942, 1<<31 - 1, 1 << 31, 1<<32 - 1<<22}[g.N(6)] - g.N(20)
				s.N["who"] |= 1
			}
			return seedQ(g, s)
		},
		Run: func(c *Ctx) {
			s := c.spec
			g := qrng(s, "layout")
			putFiles(c, s.Sess)
			want := newRef(theRoot, s)
			if s.n("who")&1 == 1 {
				want.base = uint32(s.n("base"))
			}
			for i := range s.Sess {
				k := &s.Sess[i]
				ref := s.n("who")>>i&1 == 1
				if ref {
					for n := s.n(fmt.Sprintf("gap%d", i)); n > 0; n-- {
						d := refDoc{fid: want.fid("/w/gap"), start: uint32(n), end: uint32(n)}
						want.docs = append(want.docs, d)
						if i == 0 && s.n("crowd") > 0 {
							sh, sb := want.split(uint32(s.n("crowd") - 1))
							want.posts[sh][sb] = append(want.posts[sh][sb], want.base+uint32(len(want.docs))-1)
						}
					}
				}
				for j := range k.Docs {
					want.add(absOf(dirOf(k, j), k.Docs[j].Path), &k.Docs[j])
				}
				if ref {
					if g.P(1, 4) {
						for i := range want.lead {
							want.lead[i] = bigs[g.N(len(bigs))] - int64(g.N(200))
						}
						c.Probe("far-postings")
					}
					want.put(c, theRoot, g)
					c.w.FS.Put(theRoot+".lock", nil)
				} else {
					var res sessResult
					done := c.In("writer", cwdOf(k), func() { s.session(k, i == 0, &res) })
					if !done || !res.ok() {
						c.Fail("session-error", "session %d without any fault: %s (completed %v)", i, res.String(), done)
					}
					readRef(c, theRoot).same(c, want)
				}
				if i < len(s.Sess)-1 && g.P(1, 2) {
					continue
				}
				m := want.model()
				c.reading(theRoot, func(x *dupi.Index) {
					c.configPaths(want)
					for j := range k.Docs {
						var b []uint32
						for _, v := range want.refBlots(k.Docs[j].Text) {
							b = append(b, want.join(want.split(v)))
						}
						// the same with what there is for others to blot with
						bl, n := x.Blotter(), 0
						var b2 []uint32
						for _, t := range x.TokenFunc()(nil, []byte(k.Docs[j].Text), k.Docs[j].Start) {
							if t.Tag != token.Word {
								continue
							}
							v := bl.Blot(t.Lit)
							if n++; n > s.SeqLen {
								b2 = append(b2, want.join(want.split(v)))
							}
						}
						if fmt.Sprint(b2) != fmt.Sprint(b) {
							c.Fail("blots", "the blots of %q are %x by the index's tokeniser and blotter, not %x", k.Docs[j].Text, b2, b)
						}
						if a := blotsOf(x, k.Docs[j].Text, k.Docs[j].Start); fmt.Sprint(a) != fmt.Sprint(b) {
							c.Fail("blots", "the blots of %q are now %x, not %x", k.Docs[j].Text, a, b)
						}
					}
					c.checkLookup(x, m, []uint32{want.join(want.split(uint32(g.U64()))), 0, 1})
					c.checkExtract(c.extract(x, batchSizes(g)), m)
				})
			}
		}})
}

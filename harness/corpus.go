package main

import (
	"fmt"
	"path"
	"slices"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/zz/rt"
)

// ---- workloads ----

var unicodeWords = []string{"naïve", "straße", "汉", "字符", "Яблоко", "été", "ñandú", "x²", "δοκιμή", "𐐀𐐁", "Ǆ", "क", "٣",
	"cafe\u0301", "İz", "ſa", "\u212a", "Σς", "ªʰ", "Ⅷ", "ⅷ½", "ǅ", "ß", "ﬀ", "q\u0308\u0323w"}

var separators = []string{" ", " ", " ", " ", "  ", "\n", ", ", "-", ". ", "\t", "_", "…", "; ", "/", "\r\n", "'",
	" \u0301", "\u200d", "\u00a0", "\u00ad", "\x00", "\ufeff", "\u2028", "€", "😀", "@", "²", "\ufffd"}

type gen struct {
	g     *rt.RNG
	vocab []string
	ph    [][]string
	T     int
	world bool // many words outside of ASCII
}

func newGen(g *rt.RNG, T int) *gen {
	x := &gen{g: g, T: T, world: g.P(1, 5)}
	switch g.N(5) {
	case 0: // tiny vocabulary: many coincidences
		for i := 0; i < 3; i++ {
			x.vocab = append(x.vocab, string(rune('a'+i)))
		}
	case 1: // single characters
		for i := 0; i < 30; i++ {
			x.vocab = append(x.vocab, string(rune('a'+i%26))+strings.Repeat("z", i/26))
		}
	default:
		for i := 0; i < 40+g.N(200); i++ {
			x.vocab = append(x.vocab, x.word())
		}
	}
	if g.P(1, 8) {
		// long words, some of them alike up to their ends
		for i := g.Range(1, 3); i > 0; i-- {
			w := x.longWord()
			x.vocab[g.N(len(x.vocab))] = w
			if g.P(1, 2) {
				x.vocab[g.N(len(x.vocab))] = w + "x"
			}
		}
	}
	for i := 0; i < 2+g.N(5); i++ {
		x.ph = append(x.ph, x.words(g.Range(T+1, 2*T+4)))
	}
	return x
}

func (x *gen) word() string {
	g := x.g
	if g.P(1, 14) || x.world && g.P(1, 2) {
		return unicodeWords[g.N(len(unicodeWords))]
	}
	n := 1 + g.N(9)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + g.N(26))
		if g.P(1, 12) {
			b[i] = byte('0' + g.N(10))
		}
		if g.P(1, 10) {
			b[i] = byte('A' + g.N(26))
		}
	}
	return string(b)
}

// longWord is a word with a length at which something may overflow.
func (x *gen) longWord() string {
	g := x.g
	n := []int{15, 31, 63, 100, 127, 255, 300, 511, 1023, 4095, 5000}[g.N(11)] + g.N(3)
	one := x.word()
	if g.P(1, 2) {
		one = string(rune('a' + g.N(26)))
	}
	if utf8.RuneCountInString(one) == 1 && len(wordsOf(one)) != 1 {
		one = "k"
	}
	return strings.Repeat(one, max(1, n/len(one)))
}

// longText is a document of many words, or one with much between them.
func (x *gen) longText(big bool) string {
	g := x.g
	n := []int{100, 130, 260, 600}[g.N(4)]
	if big {
		n = []int{600, 600, 1500, 1500, 4100, 4100, 8200, 17000, 33000, 66000}[g.N(10)]
	}
	if g.P(1, 3) {
		ws := x.words(g.Range(x.T+1, 3*x.T+6))
		gap := strings.Repeat([]string{" ", "\n", ".", "\u00a0"}[g.N(4)], n/3)
		for i := range ws {
			if g.P(1, 3) {
				ws[i] += gap
			}
		}
		return x.join(ws, true)
	}
	var ws []string
	for len(ws) < n {
		if g.P(1, 3) {
			ws = append(ws, x.ph[g.N(len(x.ph))]...)
		} else {
			ws = append(ws, x.words(g.Range(1, 50))...)
		}
	}
	t := x.join(ws, g.P(1, 2))
	if len(t) > 10*n+20000 {
		// long words: fewer of them
		t = x.join(ws[:100], g.P(1, 2))
	}
	return t
}

func (x *gen) words(n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		if x.g.P(1, 6) {
			out = append(out, x.word())
		} else {
			out = append(out, x.vocab[x.g.N(len(x.vocab))])
		}
	}
	return out
}

// recase changes the case of letters here and there, wherever a letter has two
// forms that are the same without regard to case.
func (x *gen) recase(w string) string {
	if !x.g.P(1, 4) {
		return w
	}
	rs := []rune(w)
	for i, c := range rs {
		if !x.g.P(1, 2) {
			continue
		}
		o := unicode.ToUpper(c)
		if o == c {
			o = unicode.ToLower(c)
		}
		if unicode.ToLower(o) == unicode.ToLower(c) {
			rs[i] = o
		}
	}
	return string(rs)
}

func (x *gen) join(ws []string, vary bool) string {
	var b strings.Builder
	for i, w := range ws {
		if i > 0 {
			if vary {
				b.WriteString(separators[x.g.N(len(separators))])
			} else {
				b.WriteByte(' ')
			}
		}
		if vary {
			w = x.recase(w)
		}
		b.WriteString(w)
	}
	return b.String()
}

func (x *gen) text() string {
	g := x.g
	switch g.N(24) {
	case 0:
		return ""
	case 1:
		return x.word()
	case 2:
		return strings.Repeat(separators[g.N(len(separators))], g.Range(1, 4))
	}
	var ws []string
	for i := g.Range(0, 4); i >= 0; i-- {
		if g.P(1, 2) {
			ws = append(ws, x.ph[g.N(len(x.ph))]...)
		} else {
			ws = append(ws, x.words(g.Range(0, 2*x.T+3))...)
		}
	}
	t := x.join(ws, g.P(3, 4))
	if g.P(1, 3) {
		t += []string{"\n", ".", " ", "!\n"}[g.N(4)]
	}
	if g.P(1, 6) {
		t = " " + t
	}
	return t
}

var dirs = []string{"", "a/", "a/b/", "a/b/c/d/", "données/", "x y/", "A/", "a.d/", "b/"}

// paths hands out names, several documents to a file at times.
type paths struct {
	g    *rt.RNG
	next map[string]uint32
	all  []string
	n    int
	long bool // long names at times
}

func (p *paths) doc(text string, uniq bool) DocS {
	g := p.g
	if p.next == nil {
		p.next = map[string]uint32{}
	}
	var name string
	if len(p.all) > 0 && g.P(1, 3) {
		name = p.all[g.N(len(p.all))]
	} else {
		p.n++
		name = dirs[g.N(len(dirs))] + fmt.Sprintf("f%d", p.n)
		if g.P(1, 12) {
			name += ".txt"
		}
		if p.long && g.P(1, 3) {
			name = strings.Repeat("n", []int{58, 90, 120, 121, 122, 123, 124, 125, 126, 127, 128, 190, 230}[g.N(13)]) + path.Base(name)
			if g.P(1, 2) {
				name = strings.Repeat("d", []int{63, 64, 126, 127, 128, 129, 200, 250}[g.N(8)]) + "/" + name
			}
			if g.P(1, 4) {
				name = strings.Repeat("e/", g.Range(10, 140)) + name
			}
		}
		if len(p.all) > 0 && g.P(1, 6) {
			if v := twin(g, p.all[g.N(len(p.all))]); v != "" && !slices.Contains(p.all, v) {
				name = v
			}
		}
		p.all = append(p.all, name)
		if g.P(1, 5) {
			p.next[name] = uint32(1 + g.N(300))
		}
	}
	d := DocS{Path: name, Start: p.next[name], Text: text}
	gap := uint32(g.N(3))
	if len(text) == 0 {
		gap++
	}
	p.next[name] = d.end() + gap
	return d
}

// twin is a name that is almost another one, of a different file.
func twin(g *rt.RNG, name string) string {
	dir, base := path.Split(name)
	switch g.N(8) {
	case 0:
		return name + " "
	case 1:
		return name + "."
	case 2:
		return dir + " " + base
	case 3:
		return dir + strings.ToUpper(base)
	case 4:
		if dir != "" {
			return strings.TrimSuffix(dir, "/") + " /" + base
		}
		return name + "~"
	case 5:
		return name + "\u0301"
	case 6:
		return strings.ToUpper(dir) + base
	}
	return dir + base[:1] + "\u00a0" + base[1:]
}

// overlap adds documents which are parts of others: the same file, and one end
// or none in common.
func overlap(g *rt.RNG, s *Spec) *Spec {
	for i := range s.Sess {
		k := &s.Sess[i]
		var out []DocS
		for _, d := range k.Docs {
			out = append(out, d)
			if len(d.Text) < 2 || !utf8.ValidString(d.Text) || !g.P(1, 4) {
				continue
			}
			lo, hi := g.N(len(d.Text)), len(d.Text)
			if g.P(1, 3) {
				lo, hi = 0, 1+g.N(len(d.Text)-1)
			}
			for lo > 0 && !utf8.RuneStart(d.Text[lo]) {
				lo--
			}
			for hi < len(d.Text) && !utf8.RuneStart(d.Text[hi]) {
				hi++
			}
			if g.P(1, 3) && lo+1 < len(d.Text) && hi == len(d.Text) {
				// from the second word on
				if w := wordsOf(d.Text); len(w) > 1 {
					lo = w[1].lo
				}
			}
			if hi-lo == len(d.Text) {
				continue
			}
			d.Start, d.Text = d.Start+uint32(lo), d.Text[lo:hi]
			out = append(out, d)
		}
		k.Docs = out
	}
	return s
}

type corpusOpt struct {
	T        int
	Docs     int
	Sessions int
	Hot      int // documents that share one window (long posting lists)
	Cwds     bool
	Gaps     bool // runs of many documents without words
	Big      bool // documents of many words
}

func genSessions(g *rt.RNG, o corpusOpt) []Sess {
	x := newGen(g, o.T)
	p := &paths{g: g, long: g.P(1, 8)}
	longAt := -1
	if g.P(1, 12) && o.Docs > 0 {
		longAt = g.N(o.Docs)
	}
	ss := make([]Sess, max(1, o.Sessions))
	for i := range ss {
		ss[i].Cwd = "/w"
		if o.Cwds && g.P(1, 3) {
			ss[i].Cwd = []string{"/w/a", "/w/x y", "/other", "/"}[g.N(4)]
		}
	}
	// session boundaries anywhere, empty sessions included
	cut := make([]int, 0, len(ss))
	for i := 1; i < len(ss); i++ {
		cut = append(cut, g.N(o.Docs+o.Hot+1))
	}
	sort.Ints(cut)
	hotAt := map[int]bool{}
	total := o.Docs + o.Hot
	if o.Hot > 0 {
		// spread the hot documents, with runs
		left := o.Hot
		for left > 0 {
			at := g.N(total)
			for run := 1 + g.N(200); run > 0 && left > 0 && at < total; run-- {
				if !hotAt[at] {
					hotAt[at] = true
					left--
				}
				at++
			}
		}
	}
	hot := x.words(o.T + 1)
	again := o.Hot > 0 && g.P(1, 3) // the shared window is at times twice in a document
	gaps := 0
	if o.Gaps || g.P(1, 12) {
		gaps = g.Range(1, 2)
	}
	s := 0
	for i := 0; i < total; i++ {
		for s < len(cut) && cut[s] <= i {
			s++
		}
		var t string
		switch {
		case hotAt[i]:
			ws := append([]string(nil), hot...)
			if again && g.P(1, 2) {
				ws = append(ws, hot...)
			}
			if g.P(1, 20) {
				ws = append(ws, x.words(1+g.N(3))...)
			}
			t = x.join(ws, false)
		case i == longAt:
			t = x.longText(o.Big)
		default:
			t = x.text()
		}
		if gaps > 0 && i > 0 && g.P(1, 1+total/4) {
			// documents without words; the next one's number is a step away
			// that does not fit in a byte
			gaps--
			for n := 126 + g.N(20) + 60*g.N(3); n > 0; n-- {
				ss[s].Docs = append(ss[s].Docs, p.doc(separators[g.N(len(separators))], true))
			}
		}
		ss[s].Docs = append(ss[s].Docs, p.doc(t, true))
	}
	return ss
}

// genSpec draws an index configuration and a workload.
func genSpec(g *rt.RNG, o corpusOpt) *Spec {
	s := &Spec{N: map[string]int{}}
	s.Shards = []int{1, 1, 2, 2, 3, 4}[g.N(6)]
	s.Shatters = []int{1, 2, 2, 3, 4, 7}[g.N(6)]
	s.Flush = []int{1, 2, 3, 7, 64, 4096, 16384}[g.N(7)]
	if o.T == 0 {
		o.T = []int{1, 2, 3, 3, 4, 6, 10}[g.N(7)]
		if g.P(1, 15) {
			o.T = []int{5, 8, 12, 16, 17, 33, 64}[g.N(7)]
		}
	}
	if g.P(1, 15) {
		s.Shards = []int{5, 6, 7, 8, 11}[g.N(5)]
	}
	if g.P(1, 15) {
		s.Shatters = []int{9, 16, 17, 40}[g.N(4)]
	}
	s.SeqLen = o.T
	s.Inter = 1
	if o.T > 1 && g.P(1, 6) {
		// any divisor
		for s.Inter = g.Range(2, o.T); o.T%s.Inter != 0; s.Inter++ {
		}
	}
	if o.T == 10 && g.P(1, 2) {
		s.Via = "default"
		s.Inter = 1
	}
	s.Sess = genSessions(g, o)
	return s
}

// ---- the word model, written from the documentation: words are maximal runs
// of letters and digits, compared without regard to case ----

type span struct {
	w      string
	lo, hi int
}

func wordsOf(text string) []span {
	if !utf8.ValidString(text) {
		return nil
	}
	var out []span
	start := -1
	for i, r := range text {
		if unicode.IsLetter(r) || unicode.IsDigit(r) {
			if start < 0 {
				start = i
			}
			continue
		}
		if start >= 0 {
			out = append(out, span{strings.ToLower(text[start:i]), start, i})
			start = -1
		}
	}
	if start >= 0 {
		out = append(out, span{strings.ToLower(text[start:]), start, len(text)})
	}
	return out
}

// runsOf lists the runs of n consecutive words as keys.
func runsOf(ws []span, n int) []string {
	var out []string
	for i := 0; i+n <= len(ws); i++ {
		var b strings.Builder
		for j := i; j < i+n; j++ {
			b.WriteString(ws[j].w)
			b.WriteByte(0)
		}
		out = append(out, b.String())
	}
	return out
}

// ---- the index model ----

type ident struct {
	Path       string
	Start, End uint32
}

func (i ident) String() string { return fmt.Sprintf("%s@%d:%d", i.Path, i.Start, i.End) }

type model struct {
	ids   []ident
	texts []string
	blots [][]uint32 // distinct blots of each document
	by    map[uint32][]int
}

func absOf(cwd, p string) string {
	if strings.HasPrefix(p, "/") {
		return path.Clean(p)
	}
	return path.Clean(path.Join(cwd, p))
}

func blotsOf(x *dupi.Index, text string, start uint32) []uint32 {
	d := &dupi.Doc{Path: "/q", Start: start, End: start + uint32(len(text)), Dat: []byte(text)}
	bs := x.BlotDoc(nil, d)
	out := make([]uint32, len(bs))
	for i, b := range bs {
		out[i] = x.JoinBlot(x.SplitBlot(b))
	}
	return out
}

func distinct(bs []uint32) []uint32 {
	seen := map[uint32]bool{}
	var out []uint32
	for _, b := range bs {
		if !seen[b] {
			seen[b] = true
			out = append(out, b)
		}
	}
	return out
}

func newModel() *model { return &model{by: map[uint32][]int{}} }

func (m *model) add(x *dupi.Index, cwd string, d *DocS) {
	i := len(m.ids)
	m.ids = append(m.ids, ident{absOf(cwd, d.Path), d.Start, d.end()})
	m.texts = append(m.texts, d.Text)
	bs := distinct(blotsOf(x, d.Text, d.Start))
	m.blots = append(m.blots, bs)
	for _, b := range bs {
		m.by[b] = append(m.by[b], i)
	}
}

func buildModel(x *dupi.Index, ss []Sess) *model {
	m := newModel()
	for i := range ss {
		for j := range ss[i].Docs {
			m.add(x, dirOf(&ss[i], j), &ss[i].Docs[j])
		}
	}
	return m
}

// dirOf is the working directory in which document j of the session is added.
func dirOf(s *Sess, j int) string {
	if s.Docs[j].Cwd != "" {
		return s.Docs[j].Cwd
	}
	return cwdOf(s)
}

func cwdOf(s *Sess) string {
	if s.Cwd == "" {
		return "/w"
	}
	return s.Cwd
}

func (m *model) keys() []uint32 {
	var out []uint32
	for b := range m.by {
		out = append(out, b)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (m *model) posts() int {
	n := 0
	for _, l := range m.by {
		n += len(l)
	}
	return n
}

func (m *model) idsOf(l []int) []ident {
	out := make([]ident, len(l))
	for i, j := range l {
		out[i] = m.ids[j]
	}
	return out
}

func idents(ds []dupi.Doc) []ident {
	out := make([]ident, len(ds))
	for i := range ds {
		out[i] = ident{ds[i].Path, ds[i].Start, ds[i].End}
	}
	return out
}

func sameIdents(a, b []ident) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func showIdents(l []ident) string {
	var b strings.Builder
	for i, x := range l {
		if i > 0 {
			b.WriteByte(' ')
		}
		if i == 12 && len(l) > 14 {
			fmt.Fprintf(&b, "… (%d in all, last %s)", len(l), l[len(l)-1])
			break
		}
		b.WriteString(x.String())
	}
	return "[" + b.String() + "]"
}

func diffIdents(got, want []ident) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("got %d, want %d, first difference at %d; got %s, want %s", len(got), len(want), i, showIdents(got), showIdents(want))
}

// files lays out the documents of the sessions as files.
func files(ss []Sess) map[string][]byte {
	m := map[string][]byte{}
	for i := range ss {
		for j := range ss[i].Docs {
			d := &ss[i].Docs[j]
			p := absOf(dirOf(&ss[i], j), d.Path)
			b := m[p]
			for len(b) < int(d.end()) {
				b = append(b, ' ')
			}
			copy(b[d.Start:], d.Text)
			m[p] = b
		}
	}
	return m
}

func putFiles(c *Ctx, ss []Sess) { putFilesAt(c, ss, 0) }

// putFilesAt has so many zero bytes before what is in each file.
func putFilesAt(c *Ctx, ss []Sess, off int64) {
	c.w.FS.MkAll("/w")
	for i := range ss {
		c.w.FS.MkAll(cwdOf(&ss[i]))
		for j := range ss[i].Docs {
			c.w.FS.MkAll(dirOf(&ss[i], j))
		}
	}
	m := files(ss)
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c.w.FS.PutAt(k, off, m[k])
	}
}

// ---- acting as a user of the library ----

const theRoot = "/w/idx"

func (s *Spec) rootOf(k *Sess) string {
	if k != nil && k.Root != "" {
		return k.Root
	}
	return theRoot
}

func (s *Spec) config(root string) (*dupi.Config, error) {
	if s.Via == "new" {
		cfg, err := dupi.NewConfig(root, s.Shards, s.SeqLen)
		if err != nil {
			return nil, err
		}
		cfg.NumShatters = s.Shatters
		cfg.DocFlushRate = s.Flush
		return cfg, nil
	}
	cfg, err := dupi.DefaultConfig(root)
	if err != nil {
		return nil, err
	}
	cfg.NumShards = s.Shards
	cfg.NumShatters = s.Shatters
	cfg.DocFlushRate = s.Flush
	cfg.SeqLen = s.SeqLen
	cfg.BlotConfig.Interleave = max(1, s.Inter)
	cfg.BlotConfig.SeqLen = s.SeqLen / max(1, s.Inter)
	return cfg, nil
}

func (s *Spec) create(root string) (*dupi.Indexer, error) {
	if s.Via == "create" {
		return dupi.CreateIndexer(root, s.Shards, s.SeqLen)
	}
	cfg, err := s.config(root)
	if err != nil {
		return nil, err
	}
	x, err := dupi.IndexerFromConfig(cfg)
	if s.n("reuse") == 1 {
		// the caller goes on using it, for another index perhaps
		cfg.IndexRoot = "/w/other"
		cfg.NumShards++
		cfg.SeqLen += 2
		cfg.NumShatters = 1
		cfg.DocFlushRate = 5
		cfg.BlotConfig.SeqLen += 3
	}
	return x, err
}

func mkDoc(d *DocS) *dupi.Doc {
	return &dupi.Doc{Path: d.Path, Start: d.Start, End: d.end(), Dat: []byte(d.Text)}
}

// sessResult is what a session's calls reported.
type sessResult struct {
	open   error
	adds   []error
	closed bool
	close  error
}

func (r *sessResult) ok() bool {
	if r.open != nil || !r.closed || r.close != nil {
		return false
	}
	for _, e := range r.adds {
		if e != nil {
			return false
		}
	}
	return true
}

func (r *sessResult) String() string {
	s := fmt.Sprintf("open=%v close=%v(%v)", r.open, r.close, r.closed)
	for i, e := range r.adds {
		if e != nil {
			s += fmt.Sprintf(" add[%d]=%v", i, e)
			break
		}
	}
	return s
}

// session runs one indexing session in the running process.
func (s *Spec) session(k *Sess, create bool, res *sessResult) {
	var x *dupi.Indexer
	if create {
		x, res.open = s.create(s.rootOf(k))
	} else {
		x, res.open = dupi.OpenIndexer(s.rootOf(k))
	}
	if res.open != nil {
		return
	}
	for i := range k.Docs {
		rt.W.Cur().Cwd = dirOf(k, i)
		res.adds = append(res.adds, x.Add(mkDoc(&k.Docs[i])))
	}
	res.close = x.Close()
	res.closed = true
}

// mustSessions runs every session, in a process each, and fails on any error.
func (c *Ctx) mustSessions(role string, ss []Sess, create bool) {
	for i := range ss {
		var res sessResult
		k := &ss[i]
		done := c.In(role, cwdOf(k), func() { c.spec.session(k, create && i == 0, &res) })
		if !done || !res.ok() {
			c.Fail("session-error", "session %d without any fault: %s (completed %v)", i, res.String(), done)
		}
	}
}

// ---- judging an open index ----

// checkLookup compares what looking up every blot gives with the model.
func (c *Ctx) checkLookup(x *dupi.Index, m *model, extra []uint32) {
	q := x.StartQuery(dupi.QueryMaxBlot)
	keys := m.keys()
	keys = append(keys, extra...)
	for _, b := range keys {
		bl := dupi.Blot{Blot: b}
		if err := q.Get(&bl); err != nil {
			c.Fail("lookup-error", "looking up blot %x: %v", b, err)
		}
		if got, want := idents(bl.Docs), m.idsOf(m.by[b]); !sameIdents(got, want) {
			c.Fail("lookup", "blot %x: %s", b, diffIdents(got, want))
		}
	}
}

type dup struct {
	b    uint32
	docs []ident
}

// extract runs a whole extraction with nil result buffers; sizes gives the
// batch sizes in turn.
func (c *Ctx) extract(x *dupi.Index, sizes []int) []dup {
	q := x.StartQuery(dupi.QueryMaxBlot)
	var out []dup
	limit := 4 << 20
	for i := 0; ; i++ {
		n := sizes[i%len(sizes)]
		dst := make([]dupi.Blot, n)
		k, err := q.Next(dst)
		if err == errEOF {
			if k != 0 {
				c.Fail("extract-eof", "end of extraction reported together with %d results", k)
			}
			break
		}
		if err != nil {
			c.Fail("extract-error", "extraction failed: %v", err)
		}
		if k < 0 || k > n {
			c.Fail("extract-count", "%d results for a batch of %d", k, n)
		}
		if k == 0 && n > 0 {
			c.Fail("extract-progress", "no results and no end for a batch of %d", n)
		}
		for j := 0; j < k; j++ {
			out = append(out, dup{dst[j].Blot, idents(dst[j].Docs)})
		}
		if len(out) > limit {
			c.Fail("extract-endless", "extraction does not end")
		}
	}
	for i := 0; i < 3; i++ {
		dst := make([]dupi.Blot, 1+i)
		if k, err := q.Next(dst); k != 0 || err != errEOF {
			c.Fail("extract-sticky", "after the end of extraction, another call gave n=%d err=%v", k, err)
		}
	}
	return out
}

// checkExtract compares a whole extraction with the model.
func (c *Ctx) checkExtract(out []dup, m *model) {
	seen := map[uint32]bool{}
	last := 1 << 30
	for _, d := range out {
		if seen[d.b] {
			c.Fail("extract-twice", "blot %x is reported twice", d.b)
		}
		seen[d.b] = true
		want := m.by[d.b]
		if len(want) < 2 {
			c.Fail("extract-extra", "blot %x is reported with %s but occurs in %d documents", d.b, showIdents(d.docs), len(want))
		}
		if w := m.idsOf(want); !sameIdents(d.docs, w) {
			c.Fail("extract-docs", "blot %x: %s", d.b, diffIdents(d.docs, w))
		}
		if len(d.docs) > last {
			c.Fail("extract-order", "blot %x with %d documents comes after one with %d", d.b, len(d.docs), last)
		}
		last = len(d.docs)
	}
	for _, b := range m.keys() {
		if len(m.by[b]) >= 2 && !seen[b] {
			c.Fail("extract-missing", "blot %x occurs in %d documents and is not reported", b, len(m.by[b]))
		}
	}
}

func (c *Ctx) openIndex(root string) *dupi.Index {
	x, err := dupi.OpenIndex(root)
	if err != nil {
		c.Fail("open-error", "opening the index without any fault: %v", err)
	}
	return x
}

func (c *Ctx) closeIndex(x *dupi.Index) {
	if err := x.Close(); err != nil {
		c.Fail("close-error", "closing the index without any fault: %v", err)
	}
}

// reading runs f with the index open in a fresh process.
func (c *Ctx) reading(root string, f func(x *dupi.Index)) {
	c.In("reader", "/w", func() {
		x := c.openIndex(root)
		f(x)
		c.closeIndex(x)
	})
}

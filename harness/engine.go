// Package main is the simulation harness: it generates workloads, schedules
// and faults from seeds, runs the rewritten system under them, and judges
// what it observes against small reference models.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/go-air/dupi/zz/rt"
)

// DocS is one document of a workload.
type DocS struct {
	Path  string `json:"p"`
	Start uint32 `json:"s,omitempty"`
	Text  string `json:"t"`
	Cwd   string `json:"cwd,omitempty"` // working directory when it is added, if not that of the session
}

func (d *DocS) end() uint32 { return d.Start + uint32(len(d.Text)) }

// Sess is one indexing session: documents added between opening and closing.
type Sess struct {
	Docs []DocS `json:"docs"`
	Cwd  string `json:"cwd,omitempty"`
	Root string `json:"root,omitempty"`
}

// Op is a step of a property's own program.
type Op struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	S string `json:"s,omitempty"`
	R string `json:"r,omitempty"`
}

// Spec is a workload, independent of schedule and faults.
type Spec struct {
	Shards   int            `json:"shards"`
	Shatters int            `json:"shatters"`
	SeqLen   int            `json:"seqlen"`
	Inter    int            `json:"inter,omitempty"`
	Flush    int            `json:"flush"`
	Via      string         `json:"via,omitempty"`
	Sess     []Sess         `json:"sess,omitempty"`
	Extra    []DocS         `json:"extra,omitempty"` // documents used as queries
	Ops      [][]Op         `json:"ops,omitempty"`   // one program per simulated client
	N        map[string]int `json:"n,omitempty"`
	Short    int            `json:"short,omitempty"` // short reads
}

func (s *Spec) clone() *Spec {
	d, _ := json.Marshal(s)
	o := &Spec{}
	json.Unmarshal(d, o)
	return o
}

func (s *Spec) n(k string) int { return s.N[k] }

func (s *Spec) docs() []DocS {
	var out []DocS
	for _, x := range s.Sess {
		out = append(out, x.Docs...)
	}
	return out
}

// Case is one exactly repeatable execution: the content of a replay file.
type Case struct {
	Property string                `json:"property"`
	Seed     uint64                `json:"seed"`
	Tier     string                `json:"tier"`
	Spec     *Spec                 `json:"spec"`
	Strategy rt.Strategy           `json:"strategy"`
	UseTrace bool                  `json:"use_trace"`
	Trace    []rt.Dev              `json:"trace,omitempty"`
	Faults   map[string][]rt.Fault `json:"faults,omitempty"`
	Failure  *rt.Failure           `json:"failure,omitempty"`
	Hash     string                `json:"hash,omitempty"`
	Log      []string              `json:"log,omitempty"`
	Note     string                `json:"note,omitempty"`
}

func (c *Case) clone() *Case {
	o := *c
	o.Spec = c.Spec.clone()
	o.Trace = append([]rt.Dev(nil), c.Trace...)
	o.Faults = map[string][]rt.Fault{}
	for k, v := range c.Faults {
		o.Faults[k] = append([]rt.Fault(nil), v...)
	}
	o.Failure, o.Log = nil, nil
	return &o
}

// Prop is a property and the way it is decided.
type Prop struct {
	ID       string
	Gen      func(g *rt.RNG, deep bool) *Spec
	Prep     func(c *Ctx) // builds the initial disk, once per seed
	Run      func(c *Ctx)
	Faults   func(g *rt.RNG, cen map[string]map[string]int, s *Spec) map[string][]rt.Fault
	K        int // faulted executions per seed
	TrackDur bool
	NoDry    bool // do not count the fault-free execution as evidence
	MaxTicks int64
	NoSched  bool // never preempt
	Strat    func(g *rt.RNG) rt.Strategy
}

// Ctx is what a property's code sees of the execution in progress.
type Ctx struct {
	injected map[string]int
	w        *rt.World
	spec     *Spec
	cs       *Case
	procs    []*rt.Proc
	plans    map[string]*rt.FaultPlan
	probes   map[string]int
	data     map[string]interface{}
	cliBusy  [3]bool
}

type result struct {
	fail     *rt.Failure
	hash     uint64
	shash    uint64
	trace    []rt.Dev
	log      []string
	probes   map[string]int
	census   map[string]map[string]int
	fired    map[string]int
	ticks    int64
	clock    int64
	switches int64
	preempts int64
	fsops    int64
	plans    map[string]*rt.FaultPlan
}

// Proc starts a simulated process. Faults planned for role apply to it once
// its plan is armed.
func (c *Ctx) Proc(role, cwd string) *rt.Proc {
	c.w.FS.MkAll(cwd)
	p := c.w.NewProc(role, cwd)
	pl := &rt.FaultPlan{Faults: c.cs.Faults[role], ShortReads: c.spec.Short, Armed: true}
	if old := c.plans[role]; old != nil {
		pl = old
	}
	c.plans[role] = pl
	p.Plan = pl
	c.procs = append(c.procs, p)
	return p
}

func (c *Ctx) Fail(class, format string, args ...interface{}) {
	m := fmt.Sprintf(format, args...)
	if len(m) > 3000 {
		m = m[:3000] + "…"
	}
	c.w.Fail(class, m)
}

func (c *Ctx) Probe(p string) { c.w.Probe(p) }

// Injected notes a fault the harness itself put in.
func (c *Ctx) Injected(kind string) {
	if c.injected == nil {
		c.injected = map[string]int{}
	}
	c.injected[kind]++
}

// In runs f in a fresh process and waits; it reports whether f completed.
func (c *Ctx) In(role, cwd string, f func()) bool {
	p := c.Proc(role, cwd)
	ok := p.Do("main", f)
	if !p.Dead {
		p.Kill()
	}
	return ok
}

var prepCache struct {
	key  string
	snap *rt.Inode
	fail *rt.Failure
	data map[string]interface{}
}

func execute(p *Prop, cs *Case, logFull bool) *result {
	var snap *rt.Inode
	data := map[string]interface{}{}
	if p.Prep != nil {
		kb, _ := json.Marshal(cs.Spec)
		key := p.ID + string(kb)
		if prepCache.key != key {
			pc := *cs
			pc.Faults = nil
			w := rt.New(rt.Options{Seed: cs.Seed, Strategy: rt.Strategy{Policy: "random"}, UseTrace: true, MaxTicks: maxTicks(p, cs.Spec)})
			c := &Ctx{w: w, spec: cs.Spec, cs: &pc, plans: map[string]*rt.FaultPlan{}, data: data}
			w.FS.MkAll("/w")
			f := w.Run(func() { p.Prep(c) })
			prepCache.key, prepCache.snap, prepCache.fail, prepCache.data = key, w.FS.Snapshot(), f, data
		}
		data = prepCache.data
		if prepCache.fail != nil {
			f := *prepCache.fail
			f.Class = "prep-" + f.Class
			return &result{fail: &f, probes: map[string]int{}, fired: map[string]int{}}
		}
		snap = prepCache.snap
	}
	w := rt.New(rt.Options{Seed: cs.Seed, Strategy: cs.Strategy, UseTrace: cs.UseTrace, Replay: cs.Trace,
		Record: true, MaxTicks: maxTicks(p, cs.Spec), LogFull: logFull, TrackDur: p.TrackDur})
	c := &Ctx{w: w, spec: cs.Spec, cs: cs, plans: map[string]*rt.FaultPlan{}, data: data}
	w.FS.MkAll("/w")
	if snap != nil {
		w.FS.Restore(snap)
	}
	f := w.Run(func() { p.Run(c) })
	r := &result{fail: f, hash: w.Hash(), shash: w.SHash(), trace: w.Trace(), log: w.Log, probes: w.Probes,
		census: map[string]map[string]int{}, fired: map[string]int{}, plans: c.plans}
	r.ticks, r.clock, r.switches, r.preempts = w.EndTicks, w.Clock, w.Switches, w.Preempts
	r.fsops = w.FS.Ops
	for k, n := range c.injected {
		r.fired[k] += n
	}
	for role, pl := range c.plans {
		r.census[role] = pl.Census()
		for _, k := range pl.Fired {
			r.fired[k]++
		}
	}
	return r
}

func maxTicks(p *Prop, s *Spec) int64 {
	n := int64(300_000_000)
	if p.MaxTicks > 0 {
		n = p.MaxTicks
	}
	if s.Shards > 4 && s.Shards <= 64 {
		// each has its tables
		n = n * int64(s.Shards) / 4
	}
	return n
}

func genStrategy(g *rt.RNG) rt.Strategy {
	s := rt.Strategy{Policy: []string{"random", "random", "prio", "rr"}[g.N(4)], PrioSeed: g.U64()}
	if g.P(1, 8) {
		return s
	}
	if g.P(1, 2) {
		s.Stall = []int{2, 10, 100}[g.N(3)]
	}
	s.SyncMean = []int64{0, 1, 2, 4, 16, 100}[g.N(6)]
	s.FSMean = []int64{0, 0, 40, 2000, 50000}[g.N(5)]
	s.StmtMean = []int64{0, 0, 13, 150, 5000, 200000}[g.N(6)]
	if g.P(1, 6) {
		s.Starve = g.Range(2, 3)
	}
	return s
}

// denseStrategy is for workloads with little in them but what matters.
func denseStrategy(g *rt.RNG) rt.Strategy {
	s := rt.Strategy{Policy: []string{"random", "random", "prio", "rr"}[g.N(4)], PrioSeed: g.U64()}
	if g.P(1, 2) {
		s.Stall = []int{2, 10, 100}[g.N(3)]
	}
	s.SyncMean = []int64{0, 1, 2, 8}[g.N(4)]
	s.FSMean = []int64{0, 1, 2, 5, 20, 300}[g.N(6)]
	s.StmtMean = []int64{0, 3, 13, 150, 5000}[g.N(5)]
	if g.P(1, 6) {
		s.Starve = g.Range(2, 3)
	}
	return s
}

// trial is everything run for one seed; each execution is reported to emit.
func trial(p *Prop, seed uint64, tier string, emit func(cs *Case, r *result) bool) {
	gs := rt.Derive(seed, "spec")
	spec := p.Gen(gs, tier == "thorough")
	cs := &Case{Property: p.ID, Seed: seed, Tier: tier, Spec: spec}
	strat := p.Strat
	if strat == nil {
		strat = genStrategy
	}
	if !p.NoSched {
		cs.Strategy = strat(rt.Derive(seed, "strategy"))
	} else {
		cs.Strategy = rt.Strategy{Policy: "random"}
	}
	r := execute(p, cs, false)
	if !emit(cs, r) {
		return
	}
	if p.Faults == nil {
		return
	}
	gf := rt.Derive(seed, "faults")
	k := p.K
	if tier == "thorough" {
		k *= 2
	}
	for i := 0; i < k; i++ {
		fc := cs.clone()
		fc.Faults = p.Faults(gf, r.census, spec)
		if len(fc.Faults) == 0 {
			continue
		}
		if i > 0 && !p.NoSched {
			fc.Strategy = strat(gf)
			fc.Seed = gf.U64()
		}
		fr := execute(p, fc, false)
		if !emit(fc, fr) {
			return
		}
	}
}

// pickFault chooses a fault position from a census: a class first, then an
// occurrence, favouring the first and last ones.
func pickFault(g *rt.RNG, cen map[string]int, kinds []string, want func(class string) bool) (rt.Fault, bool) {
	var all, cl []string
	for k := range cen {
		all = append(all, k)
	}
	sort.Strings(all)
	for _, k := range all {
		if want == nil || want(k) {
			cl = append(cl, k)
		}
	}
	if len(cl) == 0 {
		return rt.Fault{}, false
	}
	c := cl[g.N(len(cl))]
	n := cen[c]
	f := rt.Fault{Class: c, Kind: kinds[g.N(len(kinds))]}
	switch g.N(6) {
	case 0:
		f.N = 1
	case 1:
		f.N = n
	case 2:
		f.N = 1 + g.N(min(n, 8))
	default:
		f.N = 1 + g.N(n)
	}
	switch f.Kind {
	case "enospc", "torn", "power-torn":
		f.Arg = []int{0, 250, 500, 750, 999}[g.N(5)]
		if g.P(1, 3) {
			f.Arg = g.N(1000)
		}
	}
	if f.Kind == "torn" || f.Kind == "power-torn" {
		if !strings.HasPrefix(c, "write") {
			f.Kind = strings.TrimSuffix(f.Kind, "-torn")
			if f.Kind == "torn" {
				f.Kind = "crash"
			}
		}
	}
	return f, true
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// ---- minimisation ----

type minimiser struct {
	p        *Prop
	class    string
	deadline time.Time
	best     *Case
	runs     int
}

func sameClass(a, b string) bool { return a == b }

func (m *minimiser) try(cs *Case) bool {
	if time.Now().After(m.deadline) {
		return false
	}
	m.runs++
	r := execute(m.p, cs, false)
	if r.fail == nil || !sameClass(r.fail.Class, m.class) {
		return false
	}
	nc := cs.clone()
	nc.UseTrace = true
	nc.Trace = r.trace
	nc.Failure = r.fail
	if cs.UseTrace {
		nc.Trace = append([]rt.Dev(nil), cs.Trace...)
	}
	m.best = nc
	return true
}

// variants of the current best in which the schedule is looked for anew.
func (m *minimiser) tryAny(mod func(cs *Case)) bool {
	cs := m.best.clone()
	mod(cs)
	cs.UseTrace, cs.Trace = true, nil
	if m.try(cs) {
		return true
	}
	cs = m.best.clone()
	mod(cs)
	if len(cs.Trace) > 0 && m.try(cs) {
		return true
	}
	if !m.p.NoSched {
		for i := 0; i < 6; i++ {
			cs = m.best.clone()
			mod(cs)
			cs.UseTrace, cs.Trace = false, nil
			cs.Seed = cs.Seed*31 + uint64(i)
			if m.try(cs) {
				return true
			}
		}
	}
	return false
}

func minimise(p *Prop, cs *Case, r *result, budget time.Duration) (*Case, int) {
	m := &minimiser{p: p, class: r.fail.Class, deadline: time.Now().Add(budget)}
	b := cs.clone()
	b.UseTrace, b.Trace, b.Failure = true, r.trace, r.fail
	m.best = b
	// is the recorded trace itself enough?
	if !m.try(b.clone()) {
		// keep the original, seeded form
		o := cs.clone()
		o.Failure = r.fail
		return o, m.runs
	}
	m.tryAny(func(cs *Case) {}) // without any preemption
	for round := 0; round < 3; round++ {
		before := m.runs
		changed := false
		for _, f := range specReductions(m.best.Spec) {
			f := f
			if m.tryAny(func(cs *Case) { f(cs.Spec) }) {
				changed = true
			}
			if time.Now().After(m.deadline) {
				break
			}
		}
		// whole faults
		for role := range m.best.Faults {
			for i := len(m.best.Faults[role]) - 1; i >= 0; i-- {
				i, role := i, role
				if i >= len(m.best.Faults[role]) {
					continue
				}
				if m.tryAny(func(cs *Case) {
					l := cs.Faults[role]
					cs.Faults[role] = append(l[:i:i], l[i+1:]...)
				}) {
					changed = true
				}
			}
		}
		if !changed || m.runs == before {
			break
		}
	}
	// ddmin over the schedule
	n := 2
	for len(m.best.Trace) > 0 && time.Now().Before(m.deadline) {
		tr := m.best.Trace
		if n > len(tr) {
			n = len(tr)
		}
		sz := (len(tr) + n - 1) / n
		ok := false
		for i := 0; i < len(tr); i += sz {
			c := m.best.clone()
			c.Trace = append(append([]rt.Dev(nil), tr[:i]...), tr[min(len(tr), i+sz):]...)
			c.UseTrace = true
			if m.try(c) {
				ok = true
				break
			}
		}
		if ok {
			n = max(2, n-1)
			continue
		}
		if sz == 1 {
			break
		}
		n *= 2
	}
	return m.best, m.runs
}

// specReductions lists ways to make a workload smaller, big steps first. Each
// is written to be harmless when it no longer applies.
func specReductions(s *Spec) []func(*Spec) {
	var out []func(*Spec)
	if len(s.Sess) > 1 {
		for i := range s.Sess {
			i := i
			out = append(out, func(s *Spec) {
				if i < len(s.Sess) {
					s.Sess = append(s.Sess[:i:i], s.Sess[i+1:]...)
				}
			})
		}
	}
	for i := range s.Sess {
		i := i
		for sz := len(s.Sess[i].Docs); sz >= 1; sz /= 2 {
			for at := 0; at+sz <= len(s.Sess[i].Docs); at += sz {
				at, sz, l := at, sz, len(s.Sess[i].Docs)
				out = append(out, func(s *Spec) {
					if i >= len(s.Sess) {
						return
					}
					d := s.Sess[i].Docs
					// positions counted from the end survive earlier removals
					hi := len(d) - (l - at - sz)
					lo := hi - sz
					if lo < 0 || hi > len(d) {
						return
					}
					s.Sess[i].Docs = append(d[:lo:lo], d[hi:]...)
				})
			}
			if len(out) > 400 {
				break
			}
		}
	}
	for i := range s.Ops {
		i := i
		if len(s.Ops) > 1 {
			out = append(out, func(s *Spec) {
				if i < len(s.Ops) {
					s.Ops[i] = nil
				}
			})
		}
		for j := len(s.Ops[i]) - 1; j >= 0; j-- {
			j := j
			out = append(out, func(s *Spec) {
				if i < len(s.Ops) && j < len(s.Ops[i]) {
					l := s.Ops[i]
					s.Ops[i] = append(l[:j:j], l[j+1:]...)
				}
			})
		}
	}
	for _, v := range []int{1, 2} {
		v := v
		if s.Shards > v {
			out = append(out, func(s *Spec) {
				if s.Shards > v {
					s.Shards = v
				}
			})
		}
		if s.Shatters > v {
			out = append(out, func(s *Spec) {
				if s.Shatters > v {
					s.Shatters = v
				}
			})
		}
	}
	if s.Flush < 1000 {
		out = append(out, func(s *Spec) { s.Flush = 4096 })
	}
	if s.Short > 0 {
		out = append(out, func(s *Spec) { s.Short = 0 })
	}
	return out
}

// ---- replay ----

func loadCase(file string) *Case {
	d, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	cs := &Case{}
	if err := json.Unmarshal(d, cs); err != nil {
		die("%s: %v", file, err)
	}
	return cs
}

func die(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "dsim: "+format+"\n", args...)
	os.Exit(2)
}

func init() {
	debug.SetGCPercent(150)
	debug.SetMaxStack(256 << 20)
}

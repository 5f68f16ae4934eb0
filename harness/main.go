package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/go-air/dupi/zz/rt"
)

// record is what a worker reports for one execution.
type record struct {
	I        int            `json:"i"`
	Seed     uint64         `json:"seed"`
	Hash     uint64         `json:"hash"`
	SHash    uint64         `json:"shash"`
	Ticks    int64          `json:"ticks"`
	Clock    int64          `json:"clock"`
	FSOps    int64          `json:"fsops"`
	Switches int64          `json:"sw"`
	Preempts int64          `json:"pre"`
	Fired    map[string]int `json:"fired,omitempty"`
	Probes   map[string]int `json:"probes,omitempty"`
	Planned  int            `json:"planned,omitempty"`
	Fail     *rt.Failure    `json:"fail,omitempty"`
	Case     *Case          `json:"case,omitempty"`
	Done     bool           `json:"done,omitempty"`
	Start    bool           `json:"start,omitempty"`
	Sample   string         `json:"sample,omitempty"`
	MS       int64          `json:"ms,omitempty"`
}

func main() {
	var (
		mode    = flag.String("mode", "check", "check, worker, run, replay, list")
		prop    = flag.String("prop", "", "property id")
		seed    = flag.Uint64("seed", 1, "base seed")
		tier    = flag.String("tier", "quick", "quick or thorough")
		from    = flag.Int("from", 0, "first seed index (worker)")
		step    = flag.Int("step", 1, "stride (worker)")
		count   = flag.Int("count", 0, "seeds (0: by property)")
		budget  = flag.Duration("budget", 0, "wall-clock cap (0: by tier)")
		jobs    = flag.Int("jobs", 0, "workers (0: cores)")
		evid    = flag.String("evidence", "", "evidence file")
		repdir  = flag.String("replays", "", "directory for replay files")
		file    = flag.String("file", "", "replay file")
		verbose = flag.Bool("v", false, "print the event log")
		known   = flag.String("known", "", "known findings file")
	)
	flag.Parse()
	switch *mode {
	case "list":
		var ids []string
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "worker":
		worker(getProp(*prop), *seed, *tier, *from, *step, *count)
	case "replay":
		os.Exit(replay(*file, *verbose))
	case "min":
		minFile(*file, *budget)
	case "hash":
		hashes(getProp(*prop), *seed, *tier, *from, *step, *count)
	case "check":
		os.Exit(check(getProp(*prop), *seed, *tier, *count, *budget, *jobs, *evid, *repdir, *known))
	default:
		die("unknown mode")
	}
}

func getProp(id string) *Prop {
	p := props[id]
	if p == nil {
		die("no property %q", id)
	}
	return p
}

func seedOf(base uint64, prop string, i int) uint64 {
	return rt.Derive(base, fmt.Sprintf("%s/%d", prop, i)).U64()
}

func worker(p *Prop, seed uint64, tier string, from, step, count int) {
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	for i := from; i < count; i += step {
		enc.Encode(&record{I: i, Start: true})
		out.Flush()
		sd := seedOf(seed, p.ID, i)
		failed := false
		first := true
		t0 := time.Now()
		trial(p, sd, tier, func(cs *Case, r *result) bool {
			rec := &record{I: i, Seed: sd, Hash: r.hash, SHash: r.shash, Ticks: r.ticks, Clock: r.clock, FSOps: r.fsops,
				Switches: r.switches, Preempts: r.preempts, Fired: r.fired, Probes: r.probes, Fail: r.fail}
			for _, f := range cs.Faults {
				rec.Planned += len(f)
			}
			if i < 3 && first {
				rec.Sample = sampleOf(cs)
			}
			if i < 3 && !first && len(cs.Faults) > 0 {
				b, _ := json.Marshal(cs.Faults)
				rec.Sample = "faults " + string(b)
			}
			first = false
			if r.fail != nil {
				failed = true
				m := cs.clone()
				m.UseTrace, m.Trace = cs.UseTrace, nil
				rec.Case = m
			}
			enc.Encode(rec)
			return r.fail == nil
		})
		enc.Encode(&record{I: i, Done: true, MS: time.Since(t0).Milliseconds()})
		out.Flush()
		if failed {
			return
		}
	}
}

func hashes(p *Prop, seed uint64, tier string, from, step, count int) {
	for i := from; i < count; i += step {
		sd := seedOf(seed, p.ID, i)
		k := 0
		trial(p, sd, tier, func(cs *Case, r *result) bool {
			f := ""
			if r.fail != nil {
				f = r.fail.Class
			}
			fmt.Printf("%s %d.%d %016x %d %d %d %s\n", p.ID, i, k, r.hash, r.ticks, r.fsops, r.switches, f)
			k++
			return true
		})
	}
}

func sampleOf(cs *Case) string {
	c := cs.clone()
	for i := range c.Spec.Sess {
		if len(c.Spec.Sess[i].Docs) > 4 {
			c.Spec.Sess[i].Docs = c.Spec.Sess[i].Docs[:4]
		}
		for j := range c.Spec.Sess[i].Docs {
			d := &c.Spec.Sess[i].Docs[j]
			if len(d.Text) > 80 {
				d.Text = d.Text[:80] + "…"
			}
		}
	}
	b, _ := json.Marshal(struct {
		Seed     uint64
		Strategy rt.Strategy
		Spec     *Spec
	}{cs.Seed, cs.Strategy, c.Spec})
	if len(b) > 1500 {
		b = b[:1500]
	}
	return string(b)
}

func replay(file string, verbose bool) int {
	cs := loadCase(file)
	p := getProp(cs.Property)
	r := execute(p, cs, verbose)
	if verbose {
		for _, l := range r.log {
			fmt.Println(l)
		}
	}
	fmt.Printf("hash %016x\n", r.hash)
	if r.fail == nil {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("violation of %s: %s: %s\n", cs.Property, r.fail.Class, r.fail.Msg)
	if r.fail.Detail != "" {
		fmt.Println(r.fail.Detail)
	}
	if cs.Hash != "" && cs.Hash != fmt.Sprintf("%016x", r.hash) {
		fmt.Printf("but the execution differs from the recorded one (hash %s)\n", cs.Hash)
		return 3
	}
	return 1
}

// minFile minimises the case in file in place.
func minFile(file string, budget time.Duration) {
	cs := loadCase(file)
	p := getProp(cs.Property)
	r := execute(p, cs, false)
	if r.fail == nil {
		fmt.Println("not reproduced")
		os.Exit(4)
	}
	m, runs := minimise(p, cs, r, budget)
	m.Note = fmt.Sprintf("minimised in %d executions from seed %d", runs, cs.Seed)
	writeCase(p, m, file)
}

// writeCase runs the case once more to attach its log and hash.
func writeCase(p *Prop, cs *Case, file string) *result {
	r := execute(p, cs, true)
	cs.Failure = r.fail
	cs.Hash = fmt.Sprintf("%016x", r.hash)
	cs.Log = r.log
	if n := len(cs.Log); n > 300 {
		cs.Log = cs.Log[n-300:]
	}
	d, _ := json.MarshalIndent(cs, "", " ")
	if err := os.WriteFile(file, d, 0644); err != nil {
		die("%v", err)
	}
	return r
}

type totals struct {
	seeds, execs     int
	fired            map[string]int
	probes           map[string]int
	hashes, shashes  map[uint64]bool
	nontrivial       map[uint64]bool
	ticks, clock, fs int64
	sw, pre          int64
	planned          int
	firedTotal       int
	samples          []string
}

func (t *totals) add(r *record) {
	if r.Done {
		t.seeds++
		return
	}
	t.execs++
	t.hashes[r.Hash] = true
	t.shashes[r.SHash] = true
	if r.Preempts > 0 || len(r.Fired) > 0 {
		t.nontrivial[r.Hash] = true
	}
	for k, v := range r.Fired {
		t.fired[k] += v
		t.firedTotal += v
	}
	for k, v := range r.Probes {
		t.probes[k] += v
	}
	t.ticks += r.Ticks
	t.clock += r.Clock
	t.fs += r.FSOps
	t.sw += r.Switches
	t.pre += r.Preempts
	t.planned += r.Planned
	if r.Sample != "" && len(t.samples) < 6 {
		t.samples = append(t.samples, r.Sample)
	}
}

func check(p *Prop, seed uint64, tier string, count int, budget time.Duration, jobs int, evid, repdir, known string) int {
	t0 := time.Now()
	if jobs <= 0 {
		jobs = runtime.NumCPU()
	}
	pl := planOf(p.ID, tier)
	if count <= 0 {
		count = pl.seeds
	}
	if budget <= 0 {
		budget = pl.budget
	}
	tot := &totals{fired: map[string]int{}, probes: map[string]int{}, hashes: map[uint64]bool{}, shashes: map[uint64]bool{}, nontrivial: map[uint64]bool{}}
	self, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var cmds []*exec.Cmd
	var failRec *record
	var crash string
	crashI := -1
	stop := false
	stopAll := func() {
		stop = true
		for _, c := range cmds {
			c.Process.Kill()
		}
	}
	errs := []string{}
	for k := 0; k < jobs; k++ {
		cmd := exec.Command(self, "-mode", "worker", "-prop", p.ID, "-seed", strconv.FormatUint(seed, 10), "-tier", tier,
			"-from", strconv.Itoa(k), "-step", strconv.Itoa(jobs), "-count", strconv.Itoa(count))
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
		o, err := cmd.StdoutPipe()
		if err != nil {
			die("%v", err)
		}
		var eb strings.Builder
		cmd.Stderr = &limited{b: &eb, n: 1 << 16}
		if err := cmd.Start(); err != nil {
			die("%v", err)
		}
		mu.Lock()
		cmds = append(cmds, cmd)
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			sc := bufio.NewScanner(o)
			sc.Buffer(make([]byte, 1<<20), 1<<30)
			last := -1
			open := false
			for sc.Scan() {
				r := &record{}
				if err := json.Unmarshal(sc.Bytes(), r); err != nil {
					continue
				}
				if r.Start {
					last, open = r.I, true
					continue
				}
				mu.Lock()
				if r.Done {
					open = false
				}
				if !stop {
					tot.add(r)
				}
				if r.Fail != nil && failRec == nil && !stop {
					failRec = r
					stopAll()
				}
				mu.Unlock()
			}
			err := cmd.Wait()
			mu.Lock()
			if err != nil && !stop {
				crash, crashI = eb.String(), last
				if !open {
					crashI = -1
				}
				errs = append(errs, fmt.Sprintf("worker died at seed index %d: %v\n%s", last, err, tail(eb.String(), 4000)))
				stopAll()
			}
			mu.Unlock()
		}()
	}
	timedOut := false
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(budget):
		mu.Lock()
		if !stop {
			timedOut = true
			stopAll()
		}
		mu.Unlock()
		<-done
	}
	_ = crash
	code := 0
	violations := 0
	var lines []string
	if failRec != nil {
		code = 1
		violations = 1
		file := reportFailure(self, p, failRec, repdir, tier)
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", p.ID, file))
	} else if len(errs) > 0 {
		// does the seed bring the program down every time?
		code = 3
		if crashI >= 0 {
			n := 0
			for k := 0; k < 2; k++ {
				cmd := exec.Command(self, "-mode", "worker", "-prop", p.ID, "-seed", strconv.FormatUint(seed, 10), "-tier", tier,
					"-from", strconv.Itoa(crashI), "-step", "1", "-count", strconv.Itoa(crashI+1))
				var eb strings.Builder
				cmd.Stderr = &limited{b: &eb, n: 1 << 16}
				if err := cmd.Run(); err != nil && fatalText(eb.String()) != "" && fatalText(eb.String()) == fatalText(errs[0]) {
					n++
				}
			}
			if n == 2 {
				code, violations = 1, 1
				spec := p.Gen(rt.Derive(seedOf(seed, p.ID, crashI), "spec"), tier == "thorough")
				cs := &Case{Property: p.ID, Seed: seedOf(seed, p.ID, crashI), Tier: tier, Spec: spec,
					Failure: &rt.Failure{Class: "fatal", Msg: fatalText(errs[0]), Detail: errs[0]},
					Note:    "the run-time system ended the process; rerun with -mode worker -from " + strconv.Itoa(crashI)}
				file := replayName(repdir, p.ID, cs.Seed)
				d, _ := json.MarshalIndent(cs, "", " ")
				os.WriteFile(file, d, 0644)
				fmt.Printf("%s: fatal: %s\n", p.ID, fatalText(errs[0]))
				lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", p.ID, file))
			}
		}
		if code != 1 {
			for _, e := range errs {
				fmt.Fprintln(os.Stderr, "dsim: "+e)
			}
		}
	}
	wall := time.Since(t0)
	if evid != "" {
		writeEvidence(p, evid, tier, seed, count, tot, wall, violations, timedOut)
	}
	fmt.Printf("%s %s: %d seeds, %d executions, %d distinct schedules, %d faults injected, %.1fs%s\n", p.ID, tier, tot.seeds, tot.execs,
		len(tot.shashes), tot.firedTotal, wall.Seconds(), map[bool]string{true: " (time cap)", false: ""}[timedOut])
	for _, l := range lines {
		fmt.Println(l)
	}
	if code == 0 && tot.seeds == 0 {
		fmt.Fprintln(os.Stderr, "dsim: nothing was explored")
		return 3
	}
	_ = known
	return code
}

func fatalText(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") || strings.HasPrefix(l, "panic:") {
			return l
		}
	}
	return ""
}

type limited struct {
	b *strings.Builder
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func replayName(dir, id string, seed uint64) string {
	os.MkdirAll(dir, 0755)
	h := fnv.New32a()
	fmt.Fprintf(h, "%d", seed)
	return filepath.Join(dir, fmt.Sprintf("%s-%08x.json", id, h.Sum32()))
}

// reportFailure writes, minimises and re-runs the failing case.
func reportFailure(self string, p *Prop, r *record, dir, tier string) string {
	file := replayName(dir, p.ID, r.Case.Seed)
	cs := r.Case
	cs.Failure = r.Fail
	d, _ := json.MarshalIndent(cs, "", " ")
	if err := os.WriteFile(file, d, 0644); err != nil {
		die("%v", err)
	}
	budget := 60 * time.Second
	if os.Getenv("DSIM_MIN") != "" {
		budget, _ = time.ParseDuration(os.Getenv("DSIM_MIN"))
	}
	cmd := exec.Command(self, "-mode", "min", "-file", file, "-budget", budget.String())
	var eb strings.Builder
	cmd.Stderr = &limited{b: &eb, n: 1 << 16}
	min := make(chan error, 1)
	if err := cmd.Start(); err == nil {
		go func() { min <- cmd.Wait() }()
		select {
		case err := <-min:
			if err != nil {
				fmt.Fprintf(os.Stderr, "dsim: minimisation: %v %s\n", err, tail(eb.String(), 1000))
			}
		case <-time.After(budget + 120*time.Second):
			cmd.Process.Kill()
			<-min
		}
	}
	m := loadCase(file)
	f := m.Failure
	if f == nil {
		f = r.Fail
	}
	fmt.Printf("%s seed=%d: %s: %s\n", p.ID, r.Seed, f.Class, f.Msg)
	if f.Detail != "" {
		fmt.Println(tail(f.Detail, 3000))
	}
	out, err := exec.Command(self, "-mode", "replay", "-file", file).CombinedOutput()
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 {
		fmt.Println("the replay file reproduces it exactly")
	} else {
		fmt.Printf("warning: replaying gave %v: %s\n", err, tail(string(out), 500))
	}
	return file
}

func writeEvidence(p *Prop, file, tier string, seed uint64, count int, t *totals, wall time.Duration, violations int, timedOut bool) {
	info := infoOf(p.ID)
	kinds := map[string]int{}
	for k, v := range t.fired {
		kk := k
		if i := strings.Index(k, "@"); i > 0 {
			kk = k[:i]
		}
		kinds[kk] += v
	}
	sites := map[string]int{}
	for k, v := range t.fired {
		sites[k] = v
	}
	ev := map[string]interface{}{
		"property":   p.ID,
		"tier":       tier,
		"seed":       int64(seed),
		"level":      info.level,
		"wall_s":     wall.Seconds(),
		"violations": violations,
		"assumptions": append([]string{
			"the simulated file system, scheduler and flock behave as Linux ones do (see DESIGN.md, trusted base)",
			"effects of unsynchronised memory accesses are explored at statement granularity under sequential consistency",
		}, info.assume...),
		"coverage": map[string]interface{}{
			"evaluations":            t.execs,
			"distinct_nontrivial":    len(t.nontrivial),
			"rule":                   "a seed gives a workload, a schedule and faults; an execution counts as non-trivial when its event-history hash is new and it had at least one preemption or one injected fault that took effect. " + info.rule,
			"samples":                t.samples,
			"seeds":                  t.seeds,
			"seeds_planned":          count,
			"time_cap_reached":       timedOut,
			"seeds_per_hour":         int(float64(t.seeds) / wall.Hours()),
			"executions_per_hour":    int(float64(t.execs) / wall.Hours()),
			"statements_executed":    t.ticks,
			"fs_calls":               t.fs,
			"context_switches":       t.sw,
			"preemptions":            t.pre,
			"simulated_seconds":      float64(t.clock) / 1e9,
			"distinct_histories":     len(t.hashes),
			"distinct_interleavings": len(t.shashes),
			"interleaving_measure":   "hash of the sequence of (task switched to, number of synchronisation operations so far)",
			"faults_planned":         t.planned,
			"faults_injected":        kinds,
			"fault_sites":            sites,
			"probes":                 t.probes,
			"real_components":        []string{"dupi (index, indexer, query, config, fnames, remove, stats)", "internal/shard", "dmd", "lock", "post", "token", "blotter", "cmd/dupi where the property uses the command line"},
			"stub_components":        []string{"goroutine scheduler, channels, sync, sync/atomic", "os, io/ioutil, path/filepath on an in-memory file system", "flock", "time, math/rand", "process exit, arguments, standard streams", "gops agent (no network)"},
		},
	}
	d, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(file), 0755)
	if err := os.WriteFile(file, d, 0644); err != nil {
		die("%v", err)
	}
}

package rt

import (
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// W is the world of the run in progress; nil outside a run.
var W *World

// left counts instrumented statements down to the next event of interest
// (preemption or the end of the step budget).
var left int64 = math.MaxInt64

// T is called before every statement of the instrumented code.
func T() {
	left--
	if left < 0 {
		tslow()
	}
}

// Strategy says how the scheduler behaves in one run.
type Strategy struct {
	SyncMean int64  `json:"sync_mean"` // mean distance of preemptions, in synchronisation operations (0: never)
	FSMean   int64  `json:"fs_mean"`   // same, in file system operations
	StmtMean int64  `json:"stmt_mean"` // same, in statements
	Policy   string `json:"policy"`    // "random", "prio", "rr"
	PrioSeed uint64 `json:"prio_seed"`
	Starve   int    `json:"starve,omitempty"` // one task in Starve is stalled most of the time (0: none)
	Stall    int    `json:"stall,omitempty"`  // at one decision in Stall time passes until the next timer fires, whoever could run (0: never)
}

// Dev is one recorded scheduling decision that departs from the default
// (never preempt; when the running task blocks, run the first runnable task).
type Dev struct {
	K byte  `json:"k"` // 's' sync preemption, 'f' fs preemption, 't' statement preemption, 'b' choice when blocked
	N int64 `json:"n"` // counter value of that kind
	T int   `json:"t"` // task chosen, or timerDue
}

// timerDue in place of a task: everyone is so slow that the next timer fires.
const timerDue = -1

// Failure is a violation noticed by the runtime or reported by the harness.
type Failure struct {
	Class  string `json:"class"`
	Msg    string `json:"msg"`
	Detail string `json:"detail,omitempty"`
}

func (f *Failure) String() string { return f.Class + ": " + f.Msg }

type Options struct {
	Seed     uint64
	Strategy Strategy
	Replay   []Dev // when UseTrace
	UseTrace bool
	Record   bool // record the trace
	MaxTicks int64
	LogFull  bool
	TrackDur bool // track what is durable (needed for power loss)
}

type Task struct {
	id     int
	proc   *Proc
	name   string
	wake   chan struct{}
	ready  func() bool
	why    string
	done   bool
	killed bool
	prio   uint64
	slow   bool
}

// Proc is a simulated process: a set of tasks, a file table, a working directory.
type Proc struct {
	id       int
	Name     string
	Cwd      string
	Args     []string
	Env      map[string]string
	Stdout   []byte
	Stderr   []byte
	OutLimit bool
	Dead     bool
	Exited   bool
	ExitCode int
	handles  map[*Handle]bool
	nextFd   int
	Plan     *FaultPlan
	w        *World
}

type World struct {
	opt     Options
	rng     *RNG
	frng    *RNG
	tasks   []*Task
	cur     *Task
	procs   []*Proc
	FS      *FS
	nextTid int

	leadRead int // bytes read of the emptiness in sparse files

	nsync, nfs, nblk   int64
	nextSync, nextFS   int64
	tickMark           int64 // ticks at which left reaches 0
	nextStmt           int64
	Clock              int64 // simulated nanoseconds
	timers             []*timer
	tseq               int64
	chans              map[uintptr]*chanState
	trace              []Dev
	rep                map[Dev]int
	repS, repF, repT   []Dev
	hash               uint64
	shash              uint64 // hash of synchronisation-level interleaving
	Switches, Preempts int64
	failure            *Failure
	aborting           bool
	finished           chan struct{}
	harness            *Proc
	seqno              int64
	Log                []string
	nlog               int
	runnableBuf        []*Task
	prioChange         int64
	PowerLosses, Kills int
	fdTab              map[int]*Handle
	fdNext             int
	mapSeed            uint64
	RandSrc            *RNG
	Probes             map[string]int
	EndTicks           int64
	nextMem            int64
}

const (
	memEvery = 5_000_000
	memLimit = 3 << 30
)

type timer struct {
	at  int64
	seq int64
	f   func()
	off bool
}

var resetters []func()

// RegisterReset registers a function that restores a package's variables.
func RegisterReset(f func()) { resetters = append(resetters, f) }

// ResetGlobals restores the package variables of all instrumented packages.
func ResetGlobals() {
	for _, f := range resetters {
		f()
	}
}

func New(opt Options) *World {
	w := &World{opt: opt}
	w.rng = Derive(opt.Seed, "sched")
	w.frng = Derive(opt.Seed, "fault")
	w.RandSrc = Derive(opt.Seed, "rand")
	w.mapSeed = Derive(opt.Seed, "map").U64()
	w.FS = newFS(w)
	w.chans = make(map[uintptr]*chanState)
	w.finished = make(chan struct{})
	w.fdTab = make(map[int]*Handle)
	w.fdNext = 3
	w.hash = 14695981039346656037
	w.shash = w.hash
	w.Probes = make(map[string]int)
	if w.opt.MaxTicks == 0 {
		w.opt.MaxTicks = 400_000_000
	}
	w.harness = w.NewProc("harness", "/")
	for _, d := range opt.Replay {
		switch d.K {
		case 's':
			w.repS = append(w.repS, d)
		case 'f':
			w.repF = append(w.repF, d)
		case 't':
			w.repT = append(w.repT, d)
		case 'b':
			if w.rep == nil {
				w.rep = make(map[Dev]int)
			}
			w.rep[Dev{K: 'b', N: d.N}] = d.T
		}
	}
	for _, r := range [][]Dev{w.repS, w.repF, w.repT} {
		r := r
		sort.SliceStable(r, func(i, j int) bool { return r[i].N < r[j].N })
	}
	return w
}

func (w *World) NewProc(name, cwd string) *Proc {
	p := &Proc{id: len(w.procs), Name: name, Cwd: cwd, w: w, handles: make(map[*Handle]bool), Env: map[string]string{}}
	w.procs = append(w.procs, p)
	return p
}

// Run runs main as the harness task until it returns or a failure occurs.
func (w *World) Run(main func()) *Failure {
	ResetGlobals()
	W = w
	w.nextSync, w.nextFS, w.nextStmt = math.MaxInt64, math.MaxInt64, math.MaxInt64
	w.scheduleNext('s')
	w.scheduleNext('f')
	w.scheduleNext('t')
	w.nextMem = memEvery
	w.setLeft(0)
	t := w.newTask(w.harness, "main", func() {
		main()
		w.aborting = true
		for _, p := range w.procs {
			w.markDead(p)
		}
	})
	w.cur = t
	t.wake <- struct{}{}
	<-w.finished
	w.EndTicks = w.Ticks()
	W = nil
	left = math.MaxInt64
	return w.failure
}

func (w *World) Ticks() int64 { return w.tickMark - left }

func (w *World) setLeft(ticks int64) {
	next := w.opt.MaxTicks
	if w.nextStmt < next {
		next = w.nextStmt
	}
	if w.nextMem < next && !w.aborting {
		next = w.nextMem
	}
	left = next - ticks
	w.tickMark = next
}

func (w *World) scheduleNext(k byte) {
	if w.opt.UseTrace {
		switch k {
		case 's':
			w.nextSync = nextDev(&w.repS, w.nsync)
		case 'f':
			w.nextFS = nextDev(&w.repF, w.nfs)
		case 't':
			w.nextStmt = nextDev(&w.repT, -1)
		}
		return
	}
	st := &w.opt.Strategy
	switch k {
	case 's':
		if st.SyncMean > 0 {
			w.nextSync = w.nsync + w.rng.Geo(st.SyncMean)
		}
	case 'f':
		if st.FSMean > 0 {
			w.nextFS = w.nfs + w.rng.Geo(st.FSMean)
		}
	case 't':
		if st.StmtMean > 0 {
			t := w.nextStmt
			if t == math.MaxInt64 {
				t = 0
			}
			w.nextStmt = t + w.rng.Geo(st.StmtMean)
		}
	}
}

func nextDev(p *[]Dev, _ int64) int64 {
	if len(*p) == 0 {
		return math.MaxInt64
	}
	return (*p)[0].N
}

func tslow() {
	w := W
	if w == nil {
		left = math.MaxInt64
		return
	}
	n := w.tickMark
	if n >= w.nextMem && !w.aborting {
		w.nextMem = n + memEvery
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > memLimit {
			runtime.GC()
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > memLimit {
				w.Fail("runaway", fmt.Sprintf("memory grew without bound (task %s/%s running)", w.cur.proc.Name, w.cur.name))
				return
			}
		}
		if n < w.opt.MaxTicks && n < w.nextStmt {
			w.setLeft(w.Ticks())
			return
		}
	}
	if n >= w.opt.MaxTicks {
		w.opt.MaxTicks = math.MaxInt64
		w.setLeft(w.Ticks())
		if !w.aborting {
			w.Fail("livelock", fmt.Sprintf("the step budget was used up (task %s/%s running); blocked: %s", w.cur.proc.Name, w.cur.name, w.blockedList()))
		}
		return
	}
	to := w.target('t', n)
	w.scheduleNext('t')
	if now := w.Ticks(); w.nextStmt <= now && w.nextStmt != math.MaxInt64 && !w.opt.UseTrace {
		w.nextStmt = now + 1
	}
	w.setLeft(w.Ticks())
	if to != nil {
		w.preempt('t', n, to)
		w.checkKilled()
	}
}

// SyncOp marks a synchronisation operation: a possible preemption point.
func (w *World) SyncOp() {
	w.checkKilled()
	w.nsync++
	if w.nsync >= w.nextSync {
		n := w.nsync
		to := w.target('s', n)
		w.scheduleNext('s')
		if to != nil {
			w.preempt('s', n, to)
			w.checkKilled()
		}
	}
}

func (w *World) fsYield() {
	w.nfs++
	w.Clock += 1000
	if w.nfs >= w.nextFS {
		n := w.nfs
		to := w.target('f', n)
		w.scheduleNext('f')
		if to != nil {
			w.preempt('f', n, to)
			w.checkKilled()
		}
	}
}

func (w *World) checkKilled() {
	if w.cur.killed {
		runtime.Goexit()
	}
}

// target chooses the task that replaces the running one at a preemption
// point; nil keeps the running task.
func (w *World) target(k byte, n int64) *Task {
	self := w.cur
	if w.aborting || self.killed {
		return nil
	}
	var to *Task
	if w.opt.UseTrace {
		var q *[]Dev
		switch k {
		case 's':
			q = &w.repS
		case 'f':
			q = &w.repF
		default:
			q = &w.repT
		}
		for len(*q) > 0 && (*q)[0].N <= n {
			d := (*q)[0]
			*q = (*q)[1:]
			if d.N != n {
				continue
			}
			if d.T == timerDue {
				w.fireTimer()
				w.record(d)
				continue
			}
			to = w.findRunnable(d.T)
		}
	} else {
		if w.stalled() {
			w.fireTimer()
			w.record(Dev{k, n, timerDue})
		}
		to = w.pick(w.runnable(), self)
	}
	if to == self {
		return nil
	}
	return to
}

// stalled draws whether time passes before anyone goes on.
func (w *World) stalled() bool {
	return len(w.timers) > 0 && w.opt.Strategy.Stall > 0 && w.rng.P(1, w.opt.Strategy.Stall)
}

func (w *World) record(d Dev) {
	if w.opt.Record {
		w.trace = append(w.trace, d)
	}
}

func (w *World) preempt(k byte, n int64, to *Task) {
	w.record(Dev{k, n, to.id})
	w.Preempts++
	w.switchTo(to)
}

func (w *World) findRunnable(id int) *Task {
	for _, t := range w.runnable() {
		if t.id == id {
			return t
		}
	}
	return nil
}

func (w *World) runnable() []*Task {
	rs := w.runnableBuf[:0]
	for _, t := range w.tasks {
		if t.killed || t.ready == nil || t.ready() {
			rs = append(rs, t)
		}
	}
	w.runnableBuf = rs
	return rs
}

func (w *World) pick(rs []*Task, self *Task) *Task {
	if len(rs) == 0 {
		return nil
	}
	st := &w.opt.Strategy
	if st.Starve > 0 && len(rs) > 1 && !w.rng.P(1, 50) {
		// some tasks are stalled: they seldom run while others can
		j := 0
		for _, t := range rs {
			if !t.slow {
				rs[j] = t
				j++
			}
		}
		if j > 0 {
			rs = rs[:j]
		}
	}
	switch st.Policy {
	case "prio":
		// priorities change at random moments
		if w.rng.P(1, 20) {
			rs[w.rng.N(len(rs))].prio = w.rng.U64()
		}
		best := rs[0]
		for _, t := range rs[1:] {
			if t.prio > best.prio {
				best = t
			}
		}
		return best
	case "rr":
		for i, t := range rs {
			if t == self {
				return rs[(i+1)%len(rs)]
			}
		}
		return rs[0]
	default:
		return rs[w.rng.N(len(rs))]
	}
}

func (w *World) mix(a, b, c uint64) {
	h := w.hash
	h = (h ^ a) * 1099511628211
	h = (h ^ b) * 1099511628211
	h = (h ^ c) * 1099511628211
	h ^= h >> 31
	w.hash = h
}

func (w *World) logf(format string, args ...interface{}) {
	w.nlog++
	if w.opt.LogFull && len(w.Log) < 2_000_000 {
		w.Log = append(w.Log, fmt.Sprintf(format, args...))
	}
}

func (w *World) switchTo(to *Task) {
	self := w.cur
	w.Switches++
	w.mix(1, uint64(to.id), uint64(w.nsync))
	w.shash = (w.shash ^ (uint64(to.id)<<32 | uint64(w.nsync&0xffffffff))) * 1099511628211
	if w.opt.LogFull {
		w.logf("switch %d->%d sync=%d fs=%d t=%d", self.id, to.id, w.nsync, w.nfs, w.Ticks())
	}
	w.cur = to
	to.wake <- struct{}{}
	<-self.wake
}

// Block parks the running task until ready returns true.
func (w *World) Block(why string, ready func() bool) {
	self := w.cur
	w.checkKilled()
	if ready() {
		return
	}
	self.ready = ready
	self.why = why
	to := w.next()
	if to != self {
		w.switchTo(to)
	}
	self.ready = nil
	w.checkKilled()
}

// next chooses the task to run when the running one cannot go on. It never
// returns nil: on a deadlock the world is aborted and the tasks are unwound.
func (w *World) next() *Task {
	for {
		for _, t := range w.tasks {
			if t.killed {
				return t
			}
		}
		rs := w.runnable()
		if len(rs) > 0 {
			w.nblk++
			var to *Task
			if w.opt.UseTrace {
				if id, ok := w.rep[Dev{K: 'b', N: w.nblk}]; ok && id == timerDue {
					w.fireTimer()
					w.record(Dev{'b', w.nblk, timerDue})
					continue
				}
				to = rs[0]
				if id, ok := w.rep[Dev{K: 'b', N: w.nblk}]; ok {
					for _, t := range rs {
						if t.id == id {
							to = t
						}
					}
				}
			} else if w.stalled() {
				w.fireTimer()
				w.record(Dev{'b', w.nblk, timerDue})
				continue
			} else if w.opt.Strategy.Policy == "rr" {
				to = rs[int(w.nblk)%len(rs)]
			} else {
				to = w.pick(rs, nil)
			}
			if to != rs[0] {
				w.record(Dev{'b', w.nblk, to.id})
			}
			return to
		}
		if w.fireTimer() {
			continue
		}
		if w.aborting {
			panic("rt: nothing runnable while aborting")
		}
		w.failNoExit("deadlock", "no task can proceed; blocked: "+w.blockedList())
	}
}

func (w *World) blockedList() string {
	var b strings.Builder
	for _, t := range w.tasks {
		if t.ready == nil {
			continue
		}
		if b.Len() > 0 {
			b.WriteString("; ")
		}
		fmt.Fprintf(&b, "%s/%s on %s", t.proc.Name, t.name, t.why)
	}
	return b.String()
}

// Fail records a failure and ends the run. It does not return.
func (w *World) Fail(class, msg string) {
	w.failNoExit(class, msg)
	w.checkKilled()
	runtime.Goexit()
}

// Failed reports whether a failure was recorded.
func (w *World) Failed() bool { return w.failure != nil }

func (w *World) failNoExit(class, msg string) {
	if w.failure == nil {
		w.failure = &Failure{Class: class, Msg: msg}
	}
	w.aborting = true
	w.opt.MaxTicks = math.MaxInt64
	w.setLeft(w.Ticks())
	for _, p := range w.procs {
		w.markDead(p)
	}
}

func (w *World) newTask(p *Proc, name string, f func()) *Task {
	w.nextTid++
	t := &Task{id: w.nextTid, proc: p, name: name, wake: make(chan struct{}, 1)}
	if w.opt.Strategy.Policy == "prio" {
		t.prio = Derive(w.opt.Strategy.PrioSeed+uint64(t.id), "prio").U64()
	}
	if n := w.opt.Strategy.Starve; n > 0 {
		t.slow = Derive(w.opt.Strategy.PrioSeed+uint64(t.id), "slow").N(n) == 0
	}
	w.tasks = append(w.tasks, t)
	if p.Dead {
		t.killed = true
	}
	go func() {
		<-t.wake
		normal := false
		defer func() {
			r := recover()
			if r != nil && !t.killed {
				st := string(debug.Stack())
				if w.failure == nil {
					w.failure = &Failure{Class: "panic", Msg: fmt.Sprintf("%v (in %s/%s)", r, p.Name, t.name), Detail: st}
				}
				w.failNoExit("panic", "")
			}
			_ = normal
			w.exitTask(t)
		}()
		if !t.killed {
			f()
		}
		normal = true
	}()
	return t
}

func (w *World) exitTask(t *Task) {
	t.done = true
	for i, x := range w.tasks {
		if x == t {
			w.tasks = append(w.tasks[:i], w.tasks[i+1:]...)
			break
		}
	}
	w.mix(2, uint64(t.id), 0)
	if len(w.tasks) == 0 {
		close(w.finished)
		return
	}
	to := w.next()
	w.Switches++
	w.mix(1, uint64(to.id), uint64(w.nsync))
	w.shash = (w.shash ^ (uint64(to.id)<<32 | uint64(w.nsync&0xffffffff))) * 1099511628211
	if w.opt.LogFull {
		w.logf("exit %d->%d sync=%d fs=%d t=%d", t.id, to.id, w.nsync, w.nfs, w.Ticks())
	}
	w.cur = to
	to.wake <- struct{}{}
}

// maxTasks is more than any workload needs.
const maxTasks = 20000

// Go starts a task in the running task's process (a go statement).
func Go(f func()) {
	w := W
	if w == nil {
		panic("rt: go statement outside a simulation")
	}
	w.SyncOp()
	if len(w.tasks) >= maxTasks && w.failure == nil {
		w.Fail("goroutines", fmt.Sprintf("%d goroutines are running at once", len(w.tasks)))
	}
	w.newTask(w.cur.proc, fmt.Sprintf("g%d", w.nextTid+1), f)
}

// Go starts a task in process p.
func (p *Proc) Go(name string, f func()) *Task {
	w := p.w
	w.SyncOp()
	return w.newTask(p, name, f)
}

// Do runs f as a task of p and waits for it; it reports whether f completed
// (false: the process died first).
func (p *Proc) Do(name string, f func()) bool {
	ok := false
	t := p.Go(name, func() { f(); ok = true })
	t.Wait()
	return ok
}

func (t *Task) Wait() { t.proc.w.Block("join "+t.proc.Name+"/"+t.name, func() bool { return t.done }) }

func (t *Task) Done() bool { return t.done }

func (w *World) markDead(p *Proc) {
	if p.Dead {
		for _, t := range w.tasks {
			if t.proc == p {
				t.killed = true
			}
		}
		return
	}
	p.Dead = true
	for _, t := range w.tasks {
		if t.proc == p {
			t.killed = true
		}
	}
	for h := range p.handles {
		h.closed = true
		w.FS.unlock(h)
		delete(w.fdTab, h.fd)
	}
	p.handles = map[*Handle]bool{}
}

// Kill kills process p: its tasks stop where they are, its files are closed.
// If the caller belongs to p, Kill does not return.
func (p *Proc) Kill() {
	w := p.w
	w.Kills++
	w.logf("kill %s", p.Name)
	w.mix(3, uint64(p.id), 0)
	w.markDead(p)
	w.checkKilled()
	// let the dead unwind before the caller goes on
	w.Block("unwinding "+p.Name, func() bool {
		for _, t := range w.tasks {
			if t.proc == p {
				return false
			}
		}
		return true
	})
}

// Exit ends the running process with a code (os.Exit).
func (w *World) Exit(code int) {
	p := w.cur.proc
	p.Exited = true
	p.ExitCode = code
	w.markDead(p)
	w.checkKilled()
	runtime.Goexit()
}

// Cur returns the running process.
func (w *World) Cur() *Proc { return w.cur.proc }

// Hash identifies the execution.
func (w *World) Hash() uint64  { return w.hash }
func (w *World) SHash() uint64 { return w.shash }
func (w *World) Trace() []Dev  { return w.trace }

// Counts reports synchronisation operations, file system operations and statements.
func (w *World) Counts() (int64, int64, int64) { return w.nsync, w.nfs, w.Ticks() }

// Seq is a global event sequence number for histories.
func (w *World) Seq() int64 { w.seqno++; return w.seqno }

func (w *World) Probe(name string) { w.Probes[name]++ }

// After schedules f at simulated time now+d.
func (w *World) After(d int64, f func()) *timer {
	if d < 0 {
		d = 0
	}
	w.tseq++
	t := &timer{at: w.Clock + d, seq: w.tseq, f: f}
	w.timers = append(w.timers, t)
	return t
}

func (t *timer) Stop() bool { was := !t.off; t.off = true; return was }

func (w *World) fireTimer() bool {
	var best *timer
	for _, t := range w.timers {
		if t.off {
			continue
		}
		if best == nil || t.at < best.at || t.at == best.at && t.seq < best.seq {
			best = t
		}
	}
	if best == nil {
		return false
	}
	if best.at > w.Clock {
		w.Clock = best.at
	}
	best.off = true
	live := w.timers[:0]
	for _, t := range w.timers {
		if !t.off {
			live = append(live, t)
		}
	}
	w.timers = live
	best.f()
	return true
}

// Sleep parks the task for d simulated nanoseconds.
func Sleep(d int64) {
	w := W
	fired := false
	w.SyncOp()
	w.After(d, func() { fired = true })
	w.Block("sleep", func() bool { return fired })
}

// Yield is an explicit scheduling point (runtime.Gosched).
func Yield() {
	if W != nil {
		W.SyncOp()
	}
}

// OpenFiles lists the files a process has open (harness).
func (p *Proc) OpenFiles() []string {
	var out []string
	for h := range p.handles {
		out = append(out, h.Path)
	}
	sort.Strings(out)
	return out
}

// Tasks lists the live tasks of a process and what they wait for (harness).
func (p *Proc) Tasks() []string {
	var out []string
	for _, t := range p.w.tasks {
		if t.proc == p {
			out = append(out, t.name+" on "+t.why)
		}
	}
	return out
}

// Settle lets the other tasks of p run until none can go on (harness).
func (p *Proc) Settle() {
	w := p.w
	w.Block("settling "+p.Name, func() bool {
		for _, t := range w.tasks {
			if t.proc == p && (t.killed || t.ready == nil || t.ready()) {
				return false
			}
		}
		return true
	})
}

//go:build go1.22

// Package simrt is the simulated runtime the instrumented code runs on: a cooperative scheduler that owns every
// interleaving, a virtual clock, channels, locks, and a network. One run is a pure function of (plan, decisions).
package simrt

import (
	"container/heap"
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// Decision is one non-default scheduler or fault decision: at step Step, alternative Val was taken.
type Decision struct {
	Step uint64 `json:"s"`
	Val  int    `json:"v"`
}

// Task is a simulated goroutine.
type Task struct {
	id    int
	name  string
	wake  chan struct{}
	ready func() bool // nil: runnable
	why   string
	quiet bool // waiting for quiescence
	prio  int
	site  uint32
	ran   uint64 // consecutive steps
	dead  bool
	group string
}

// Outcome kinds.
const (
	OutDone  = "done"
	OutPanic = "panic"
	OutStuck = "deadlock"
	OutSteps = "livelock"
	OutFail  = "fail"
)

// Result of a run.
type Result struct {
	Kind      string
	Msg       string
	Stack     string
	Steps     uint64
	Switches  uint64
	Decisions []Decision
	SchedHash uint64
	Now       int64
	Tasks     int
	Blocked   []string
	Stats     map[string]int64
}

// Config of a run.
type Config struct {
	Seed     uint64
	Policy   int     // 0 walk, 1 pct, 2 hot sites, 3 run to block
	P        float64 // switch probability for walk / hot
	Depth    int     // pct change points
	Len      int     // pct estimated length
	HotFrac  float64
	MaxSteps uint64
	Replay   []Decision
	IsReplay bool
	Trace    func(string)
}

type timer struct {
	at   int64
	seq  uint64
	fn   func()
	idx  int
	back bool
}
type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || (h[i].at == h[j].at && h[i].seq < h[j].seq)
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x any)   { t := x.(*timer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any {
	o := *h
	t := o[len(o)-1]
	o[len(o)-1] = nil
	*h = o[:len(o)-1]
	t.idx = -1
	return t
}

// Sim is one run.
type Sim struct {
	step     uint64
	next     uint64
	hot      []bool
	cur      *Task
	tasks    []*Task
	timers   timerHeap
	tseq     uint64
	now      int64
	skew     int64 // of the wall clock
	cfg      Config
	rng      Rand
	active   bool
	aborting bool
	fair     bool
	fairAt   uint64
	hardMax  uint64
	nextID   int
	recs     []Decision
	rpos     int
	hash     uint64
	switches uint64
	res      *Result
	done     chan struct{}
	exited   chan struct{}
	changes  []uint64
	lowPrio  int
	timPrio  int
	chans    map[uintptr]any
	closed   map[uintptr]struct{}
	keySeq   map[any]int
	keyN     int
	log      []string
	stats    map[string]int64
	inTimer  bool
	vfs      map[string][]byte
	vfsErr   map[string]error
	Net      *Network
	poolMiss bool
	bgLive   int
	kept     []any
	mapw     map[uintptr]*Task
}

var S = &Sim{next: math.MaxUint64, stats: map[string]int64{}}

var idle = S

// Rand is splitmix64.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }
func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) F() float64          { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rand) Bool(p float64) bool { return r.F() < p }
func (r *Rand) Pick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.Intn(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

// Mix derives a seed.
func Mix(a, b uint64) uint64 { r := Rand{a ^ (b * 0x9e3779b97f4a7c15)}; r.U64(); return r.U64() }

var sites []string

// RegisterSites is called by generated code.
func RegisterSites(base int, s []string) {
	for len(sites) < base+len(s) {
		sites = append(sites, "")
	}
	copy(sites[base:], s)
}

// SiteName returns file:line of a scheduling point.
func SiteName(i uint32) string {
	if int(i) < len(sites) && sites[i] != "" {
		return sites[i]
	}
	return fmt.Sprintf("#%d", i)
}

var resets []func()

// OnReset registers a package's global re-initialiser.
func OnReset(f func()) { resets = append(resets, f) }

// PairSeen is the set of (from site, to site) context switches over the process life.
var PairSeen = map[uint64]struct{}{}

// Run executes main as the root task of a fresh simulation.
func Run(cfg Config, main func()) *Result {
	for _, f := range resets {
		f()
	}
	s := &Sim{cfg: cfg, rng: Rand{cfg.Seed}, active: true, done: make(chan struct{}, 1), exited: make(chan struct{}, 1),
		chans: map[uintptr]any{}, closed: map[uintptr]struct{}{}, keySeq: map[any]int{}, stats: map[string]int64{},
		res: &Result{}, vfs: map[string][]byte{}, vfsErr: map[string]error{}, hash: 1469598103934665603}
	if s.cfg.MaxSteps == 0 {
		s.cfg.MaxSteps = 400000
	}
	s.fairAt = s.cfg.MaxSteps / 2
	s.hardMax = 5 * s.cfg.MaxSteps // what the network carries gives time
	s.Net = newNetwork()
	s.hot = make([]bool, len(sites)+1024)
	s.timPrio = 500
	if !cfg.IsReplay {
		switch cfg.Policy {
		case 1:
			n := cfg.Len
			if n < 1 {
				n = 1
			}
			for i := 0; i < cfg.Depth; i++ {
				s.changes = append(s.changes, uint64(1+s.rng.Intn(n)))
			}
			sort.Slice(s.changes, func(i, j int) bool { return s.changes[i] < s.changes[j] })
			s.timPrio = 1 + s.rng.Intn(1000)
		case 2:
			for i := range s.hot {
				s.hot[i] = s.rng.Bool(cfg.HotFrac)
			}
		}
	}
	S = s
	s.arm()
	s.spawn("main", main)
	t := s.tasks[0]
	s.cur = t
	t.wake <- struct{}{}
	<-s.done
	// tear down every task that is still parked
	s.aborting = true
	s.next = 0
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if t.dead {
			continue
		}
		s.cur = t
		t.wake <- struct{}{}
		<-s.exited
	}
	S = idle
	r := s.res
	r.Steps, r.Switches, r.Decisions, r.SchedHash, r.Now, r.Tasks = s.step, s.switches, s.recs, s.hash, s.now, s.nextID
	r.Stats = s.stats
	return r
}

func (s *Sim) live() int {
	n := 0
	for _, t := range s.tasks {
		if !t.dead {
			n++
		}
	}
	return n
}

func (s *Sim) finish(kind, msg, stack string) {
	if s.res.Kind != "" {
		return
	}
	s.res.Kind, s.res.Msg, s.res.Stack = kind, msg, stack
	for _, t := range s.tasks {
		if !t.dead && t.ready != nil {
			s.res.Blocked = append(s.res.Blocked, fmt.Sprintf("%s at %s: %s", t.name, SiteName(t.site), t.why))
		}
	}
}

// end terminates the run from the current task and never returns.
func (s *Sim) end() {
	s.done <- struct{}{}
	<-s.cur2().wake
	runtime.Goexit()
}

func (s *Sim) cur2() *Task { return s.cur }

// HarnessError marks a defect of the harness itself, never a violation.
type HarnessError struct{ Msg string }

func (e HarnessError) Error() string { return "harness: " + e.Msg }

func (s *Sim) spawn(name string, fn func()) *Task {
	t := &Task{id: s.nextID, name: name, wake: make(chan struct{}, 1)}
	s.nextID++
	if s.cfg.Policy == 1 {
		t.prio = 1 + s.rng.Intn(1000)
	}
	if s.cur != nil {
		t.group = s.cur.group
	}
	s.tasks = append(s.tasks, t)
	go func() {
		<-t.wake
		defer func() {
			r := recover()
			t.dead = true
			if s.aborting {
				s.exited <- struct{}{}
				return
			}
			if r != nil {
				if _, ok := r.(HarnessError); ok {
					s.finish("harness", fmt.Sprint(r), "")
				} else {
					s.finish(OutPanic, fmt.Sprintf("panic in task %s: %v", t.name, r), trimStack(string(debug.Stack())))
				}
			}
			if t.id == 0 {
				s.finish(OutDone, "", "") // the run ends with its main task; whatever else is parked is torn down
			}
			if s.res.Kind != "" {
				s.done <- struct{}{}
				return
			}
			// hand the baton on
			n := s.pick(nil)
			if n == nil {
				s.done <- struct{}{}
				return
			}
			s.cur = n
			n.wake <- struct{}{}
		}()
		if s.aborting {
			runtime.Goexit()
		}
		fn()
	}()
	return t
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	skip := true
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "panic(") {
			skip = false
			out = nil
			i++
			continue
		}
		if skip && i > 0 {
			continue
		}
		if i == 0 {
			continue
		}
		if strings.HasPrefix(l, "\t") {
			continue
		}
		loc := strings.TrimSpace(lines[i+1])
		if k := strings.IndexByte(loc, ' '); k > 0 {
			loc = loc[:k]
		}
		if k := strings.LastIndexByte(loc, '/'); k >= 0 {
			loc = loc[k+1:]
		}
		fn := l
		if k := strings.LastIndexByte(fn, '('); k > 0 {
			fn = fn[:k]
		}
		fn = trimFn(fn)
		if strings.HasPrefix(fn, "runtime.") {
			continue
		}
		out = append(out, fn)
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, " < ")
}

func trimFn(fn string) string {
	fn = strings.TrimPrefix(fn, "github.com/nanobus/iota/go/")
	if strings.HasPrefix(fn, "internal/verifsim/g") {
		if i := strings.IndexByte(fn[len("internal/verifsim/"):], '/'); i > 0 {
			fn = "wasm:" + fn[len("internal/verifsim/")+i+1:]
		}
	}
	return fn
}

// Go starts a simulated goroutine.
func Go(site uint32, fn func()) {
	s := S
	if !s.active {
		go fn()
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
	name := SiteName(site)
	t := s.spawn(fmt.Sprintf("%s#%d", name, s.nextID), fn)
	if s.cfg.Policy == 1 && !s.cfg.IsReplay && t.prio > s.cur.prio {
		s.next = s.step
	}
	s.stats["goroutines"]++
}

// GoNamed starts a harness task.
func GoNamed(name string, fn func()) {
	s := S
	if s.aborting {
		runtime.Goexit()
	}
	t := s.spawn(name, fn)
	if s.cfg.Policy == 1 && !s.cfg.IsReplay && t.prio > s.cur.prio {
		s.next = s.step
	}
}

// Y is a scheduling point.
func Y(site uint32) {
	s := S
	s.step++
	if s.step >= s.next || (s.hot != nil && s.hot[site]) {
		s.slow(site)
	}
}

// YI is a scheduling point between the operands of a condition.
func YI(site uint32) int { Y(site); return 0 }

// YV is a scheduling point after an operand was read and before the next is.
func YV[T any](site uint32, v T) T { Y(site); return v }

// Still runs f without letting another task run. f may not block.
func Still(f func()) {
	s := S
	step, in := s.step, s.inTimer
	s.inTimer = true
	defer func() { s.step, s.inTimer = step, in }()
	f()
}

// Yield is a scheduling point in harness code.
func Yield() { Y(0) }

func (s *Sim) slow(site uint32) {
	if !s.active {
		s.next = math.MaxUint64
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
	if s.inTimer {
		return
	}
	t := s.cur
	t.site = site
	s.checkSteps()
	if s.cfg.IsReplay {
		if s.rpos < len(s.cfg.Replay) && s.cfg.Replay[s.rpos].Step == s.step {
			v := s.cfg.Replay[s.rpos].Val
			s.rpos++
			s.rec(v)
			s.arm()
			s.switchTo(t, s.candAt(t, v))
			return
		}
		s.arm()
		return
	}
	switch {
	case s.fair:
		s.arm()
	case s.cfg.Policy == 1:
		for len(s.changes) > 0 && s.changes[0] <= s.step {
			s.changes = s.changes[1:]
			s.lowPrio--
			t.prio = s.lowPrio
		}
		s.arm()
		c, tm := s.cands(t)
		v := s.pctBest(c, tm)
		if v > 0 {
			s.rec(v)
			s.switchTo(t, s.candOf(c, tm, v))
		}
		return
	case s.cfg.Policy == 2:
		at := s.step >= s.next
		s.arm()
		if !at && !s.rng.Bool(s.cfg.P) {
			return
		}
	default:
		s.arm()
	}
	c, tm := s.cands(t)
	n := len(c)
	if tm {
		n++
	}
	if n <= 1 {
		return
	}
	v := 1 + s.rng.Intn(n-1)
	s.rec(v)
	s.switchTo(t, s.candOf(c, tm, v))
}

func (s *Sim) rec(v int) {
	if v != 0 {
		s.recs = append(s.recs, Decision{s.step, v})
	}
}

func (s *Sim) checkSteps() {
	if s.step > s.cfg.MaxSteps {
		s.finish(OutSteps, fmt.Sprintf("no quiescence after %d steps", s.step), "")
		s.res.Blocked = append(s.res.Blocked, fmt.Sprintf("running: %s at %s", s.cur.name, SiteName(s.cur.site)))
		s.end()
	}
	if !s.fair && s.step > s.fairAt {
		s.fair = true
	}
}

// arm sets the step at which the next scheduling decision is due.
func (s *Sim) arm() {
	lim := s.cfg.MaxSteps + 1
	if s.cfg.IsReplay {
		s.next = lim
		if s.rpos < len(s.cfg.Replay) && s.cfg.Replay[s.rpos].Step < lim {
			s.next = s.cfg.Replay[s.rpos].Step
			if s.next <= s.step { // stale entry (trace edited): skip it
				for s.rpos < len(s.cfg.Replay) && s.cfg.Replay[s.rpos].Step <= s.step {
					s.rpos++
				}
				s.next = lim
				if s.rpos < len(s.cfg.Replay) {
					s.next = s.cfg.Replay[s.rpos].Step
				}
			}
		}
		return
	}
	if s.fair {
		s.next = s.step + 50 + uint64(s.rng.Intn(50))
		return
	}
	switch s.cfg.Policy {
	case 1:
		s.next = s.step + 20000
		if len(s.changes) > 0 {
			s.next = s.changes[0]
			if s.next <= s.step {
				s.next = s.step + 1
			}
		}
	case 3:
		s.next = s.step + 5000
	default:
		p := s.cfg.P
		if s.cfg.Policy == 2 {
			p = 0.0005
		}
		if p <= 0 {
			p = 0.0001
		}
		g := math.Log(1-s.rng.F()) / math.Log(1-p)
		if g > 20000 || math.IsNaN(g) {
			g = 20000
		}
		s.next = s.step + 1 + uint64(g)
	}
	if s.next > s.fairAt {
		s.next = s.fairAt + 1
	}
}

// cands lists the runnable tasks, t first when given; tm tells whether firing the next timer is an alternative.
func (s *Sim) cands(t *Task) (c []*Task, tm bool) {
	if t != nil {
		c = append(c, t)
	}
	k := 0
	for _, x := range s.tasks {
		if x.dead {
			continue
		}
		s.tasks[k] = x
		k++
		if x == t || x.quiet {
			continue
		}
		if x.ready == nil || x.ready() {
			c = append(c, x)
		}
	}
	s.tasks = s.tasks[:k]
	return c, len(s.timers) > 0 && !s.timers[0].back
}

func (s *Sim) candOf(c []*Task, tm bool, v int) *Task {
	n := len(c)
	if tm {
		n++
	}
	v %= n
	if v < len(c) {
		return c[v]
	}
	return nil // timer
}

func (s *Sim) candAt(t *Task, v int) *Task {
	c, tm := s.cands(t)
	return s.candOf(c, tm, v)
}

func (s *Sim) pctBest(c []*Task, tm bool) int {
	best, bp := 0, math.MinInt
	for i, x := range c {
		if x.prio > bp {
			best, bp = i, x.prio
		}
	}
	if tm && s.timPrio > bp {
		s.timPrio = 1 + s.rng.Intn(1000)
		return len(c)
	}
	return best
}

func (s *Sim) fireTimer() {
	tm := heap.Pop(&s.timers).(*timer)
	if tm.at > s.now {
		s.now = tm.at
	}
	s.inTimer = true
	tm.fn()
	s.inTimer = false
}

// pick chooses the next task when the current one cannot continue (t is blocked, or nil when it ended).
// It fires timers as needed and returns nil at the end of the run (s.res set).
func (s *Sim) pick(t *Task) *Task {
	for {
		s.step++
		s.checkStepsPick()
		if s.res.Kind != "" {
			return nil
		}
		c, tm := s.cands(nil)
		n := len(c)
		if n == 0 {
			if len(s.timers) > 0 && !s.timers[0].back {
				s.fireTimer()
				continue
			}
			var q *Task
			for _, x := range s.tasks {
				if x.quiet && !x.dead {
					q = x
					break
				}
			}
			if q != nil {
				return q
			}
			if len(s.timers) > 0 { // only background timers: let them run while somebody is blocked
				if s.bgLive < 64 && s.live() > 0 {
					s.bgLive++
					s.fireTimer()
					continue
				}
			}
			if s.live() == 0 {
				s.finish(OutDone, "", "")
			} else {
				s.finish(OutStuck, "every task is blocked", "")
			}
			return nil
		}
		if tm {
			n++
		}
		v := 0
		if s.cfg.IsReplay {
			if s.rpos < len(s.cfg.Replay) && s.cfg.Replay[s.rpos].Step == s.step {
				v = s.cfg.Replay[s.rpos].Val % n
				s.rpos++
			}
		} else if n > 1 {
			switch {
			case s.cfg.Policy == 1 && !s.fair:
				v = s.pctBest(c, tm)
			default:
				v = s.rng.Intn(n)
			}
		}
		s.rec(v)
		s.arm()
		x := s.candOf(c, tm, v)
		if x == nil {
			s.fireTimer()
			continue
		}
		return x
	}
}

func (s *Sim) checkStepsPick() {
	if s.step > s.cfg.MaxSteps {
		s.finish(OutSteps, fmt.Sprintf("no quiescence after %d steps", s.step), "")
	}
	if !s.fair && s.step > s.fairAt {
		s.fair = true
	}
}

// switchTo hands the baton from the running, runnable task t to n (nil: fire a timer, t goes on).
func (s *Sim) switchTo(t, n *Task) {
	if n == nil {
		s.fireTimer()
		return
	}
	if n == t {
		return
	}
	s.note(t, n)
	s.cur = n
	n.wake <- struct{}{}
	<-t.wake
	if s.aborting {
		runtime.Goexit()
	}
	t.ready = nil
}

func (s *Sim) note(t, n *Task) {
	s.switches++
	h := s.hash
	h = (h ^ uint64(t.id)) * 1099511628211
	h = (h ^ uint64(t.site)) * 1099511628211
	h = (h ^ uint64(n.id)) * 1099511628211
	s.hash = h
	PairSeen[uint64(t.site)<<32|uint64(n.site)] = struct{}{}
	if s.cfg.Trace != nil {
		st := "preempted"
		if t.ready != nil {
			st = "blocks: " + t.why
		}
		s.cfg.Trace(fmt.Sprintf("[%d t=%dms] %s at %s %s -> %s", s.step, s.now/1e6, t.name, SiteName(t.site), st, n.name))
	}
}

// Block parks the current task until ready() holds. ready must not change state.
func Block(why string, ready func() bool) {
	s := S
	if s.aborting {
		runtime.Goexit()
	}
	if !s.active {
		if ready() {
			return
		}
		panic("simrt: blocking outside a simulation: " + why)
	}
	if s.inTimer {
		panic(HarnessError{"blocking in a timer callback: " + why})
	}
	t := s.cur
	t.ready, t.why = ready, why
	s.stats["blocks"]++
	n := s.pick(t)
	if n == nil {
		s.end()
	}
	if n != t {
		s.note(t, n)
		s.cur = n
		n.wake <- struct{}{}
		<-t.wake
		if s.aborting {
			runtime.Goexit()
		}
	}
	t.ready = nil
	t.quiet = false
}

// WaitQuiescent parks the caller until no other task can run and no foreground timer is pending.
func WaitQuiescent() {
	S.cur.quiet = true
	Block("quiescence", func() bool { return false })
}

// Choose returns a recorded choice in [0,n); 0 is the default that minimisation moves towards.
func Choose(n int) int {
	s := S
	if s.aborting {
		runtime.Goexit()
	}
	if n <= 1 || !s.active {
		return 0
	}
	s.step++
	v := 0
	if s.cfg.IsReplay {
		if s.rpos < len(s.cfg.Replay) && s.cfg.Replay[s.rpos].Step == s.step {
			v = s.cfg.Replay[s.rpos].Val % n
			s.rpos++
		}
		s.rec(v)
		s.arm()
		return v
	}
	v = s.rng.Intn(n)
	s.rec(v)
	return v
}

// ChooseP returns true with probability p (recorded; default false).
func ChooseP(p float64) bool {
	if p <= 0 {
		return false
	}
	s := S
	if s.aborting {
		runtime.Goexit()
	}
	if !s.active {
		return false
	}
	s.step++
	v := 0
	if s.cfg.IsReplay {
		if s.rpos < len(s.cfg.Replay) && s.cfg.Replay[s.rpos].Step == s.step {
			v = s.cfg.Replay[s.rpos].Val % 2
			s.rpos++
		}
		s.rec(v)
		s.arm()
		return v == 1
	}
	if s.rng.Bool(p) {
		v = 1
	}
	s.rec(v)
	return v == 1
}

// Gosched gives every other runnable task a chance.
func Gosched() {
	s := S
	if s.aborting {
		runtime.Goexit()
	}
	if !s.active || s.inTimer {
		return
	}
	s.step++
	s.checkSteps()
	t := s.cur
	c, tm := s.cands(t)
	n := len(c)
	if tm {
		n++
	}
	if n <= 1 {
		return
	}
	v := 0
	if s.cfg.IsReplay {
		if s.rpos < len(s.cfg.Replay) && s.cfg.Replay[s.rpos].Step == s.step {
			v = s.cfg.Replay[s.rpos].Val % n
			s.rpos++
		}
	} else {
		v = s.rng.Intn(n)
	}
	s.rec(v)
	s.arm()
	s.switchTo(t, s.candOf(c, tm, v))
}

// Event returns a fresh global event sequence number.
func Event() uint64 { S.step++; return S.step }

// Step returns the current step.
func Step() uint64 { return S.step }

// Stat counts something that happened in this run.
func Stat(k string) { S.stats[k]++ }

// StatN adds n.
func StatN(k string, n int64) { S.stats[k] += n }

// Aborting tells deferred harness code that the run is being torn down.
func Aborting() bool { return S.aborting }

// Active tells whether a simulation is running.
func Active() bool { return S.active }

// Tasks returns the names of live tasks other than the caller.
func Tasks() []string {
	var out []string
	for _, t := range S.tasks {
		if !t.dead && t != S.cur {
			out = append(out, t.name+" ("+t.why+")")
		}
	}
	return out
}

// TaskName of the current task.
func TaskName() string { return S.cur.name }

// TaskID of the current task.
func TaskID() int { return S.cur.id }

// Fail ends the run with a violation found by an oracle.
func Fail(msg string) {
	s := S
	if s.aborting {
		runtime.Goexit()
	}
	if s.inTimer {
		s.finish(OutFail, msg, "")
		return
	}
	s.finish(OutFail, msg, "")
	s.end()
}

// Logf adds to the trace (never draws a decision).
func Logf(f string, a ...any) {
	s := S
	if s.cfg.Trace != nil && s.active && !s.aborting {
		s.cfg.Trace(fmt.Sprintf("[%d t=%dms] %s: ", s.step, s.now/1e6, s.cur.name) + fmt.Sprintf(f, a...))
	}
}

//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"time"

	"github.com/nanobus/iota/go/internal/verifsim/simrt"
	"github.com/nanobus/iota/go/internal/verifsim/uuid"
)

// ---------------------------------------------------------------- UUIDs and the clock behind them

const (
	uaNew    = iota // New, which panics when there is no randomness
	uaRandom        // NewRandom
	uaString        // NewString
	uaTime          // GetTime
	uaSeq           // ClockSequence
	uaJump          // the wall clock is set
)

type UUOp struct {
	Act  int
	N    int // times
	Jump int // in units of 50 ns, or ms if Ms
	Ms   bool
	Wait int // ms before
}

type UUPhase struct {
	Pool  bool
	Reset bool // the pool is switched off and on, or on and off
	Tasks [][]UUOp
}

type UUPlan struct {
	Phases []UUPhase
	Short  float64 // how often the reader reads short
	Fail   float64 // how often it fails, after some of the bytes
	Slow   float64 // how often it blocks first
}

func genUU(r *simrt.Rand, prof string, thorough bool) any {
	p := &UUPlan{Short: []float64{0, 0.2, 0.7}[r.Intn(3)], Fail: []float64{0, 0, 0.1, 0.4}[r.Intn(4)], Slow: []float64{0, 0.2, 0.6}[r.Intn(3)]}
	clock := pick(r, 0, 1, 5)
	for n := 1 + r.Intn(3); n > 0; n-- {
		ph := UUPhase{Pool: r.Bool(0.7), Reset: r.Bool(0.2)}
		for t := 1 + r.Intn(5); t > 0; t-- {
			var ops []UUOp
			for k := 1 + r.Intn(5); k > 0; k-- {
				op := UUOp{Act: r.Pick(3, 4, 1, clock, clock, clock), N: pick(r, 1, 1+r.Intn(4), 1+r.Intn(12), 1+r.Intn(24)), Wait: pick(r, 0, 0, 0, r.Intn(3))}
				if op.Act == uaJump {
					op.N = 1
					op.Ms = r.Bool(0.5)
					op.Jump = pick(r, -1, 1, -2, 2, -r.Intn(40), r.Intn(40), -r.Intn(100000), r.Intn(100000))
				}
				ops = append(ops, op)
			}
			ph.Tasks = append(ph.Tasks, ops)
		}
		p.Phases = append(p.Phases, ph)
	}
	tidyUU(p)
	return p
}

func tidyUU(x any) {
	p := x.(*UUPlan)
	for i := range p.Phases {
		for _, t := range p.Phases[i].Tasks {
			for k := range t {
				clamp(&t[k].Act, 0, uaJump)
				clamp(&t[k].N, 1, 40)
				clamp(&t[k].Jump, -1000000, 1000000)
				clamp(&t[k].Wait, 0, 10)
			}
		}
	}
}

type uuPos struct{ task, at int }

// uuRig is the source of randomness: each task that reads has its own endless stream, of which no two places are alike.
type uuRig struct {
	p       *UUPlan
	streams map[int][]byte
	rnd     *simrt.Rand
	failed  map[int]int // failures that a task has had
	got     []uuid.UUID
	times   map[uuTime]bool
	last    uuTime
	walls   []uuWall
	made    int
}

type uuTime struct {
	t   uuid.Time
	seq uint16
}

// uuWall: from event At on the wall clock is Skew from the timers' clock.
type uuWall struct {
	at   uint64
	now  int64
	skew int64
}

var errUUID = errors.New("no randomness today")

func (g *uuRig) Read(b []byte) (int, error) {
	id := simrt.TaskID()
	if simrt.ChooseP(g.p.Slow) {
		simrt.Stat("fault_slow_random")
		sleepJitter(simrt.Choose(3))
	}
	n := len(b)
	var err error
	switch {
	case n > 0 && simrt.ChooseP(g.p.Fail):
		n = simrt.Choose(n)
		err = errUUID
		g.failed[id]++
		simrt.Stat("fault_random_error")
	case n > 1 && simrt.ChooseP(g.p.Short):
		n = 1 + simrt.Choose(n-1)
		simrt.Stat("fault_random_short")
	}
	for i := range b[:n] {
		b[i] = byte(g.rnd.U64())
		g.streams[id] = append(g.streams[id], b[i])
		if i&15 == 15 {
			simrt.Y(0)
		}
	}
	// What is past the bytes read is the caller's and may hold anything.
	return n, err
}

func (g *uuRig) setWall(skew int64) {
	simrt.Skew(skew)
	g.walls = append(g.walls, uuWall{simrt.Event(), simrt.Now(), skew})
}

const uuEpoch = (2440587 - 2299160) * 86400 * 10000000 // 1970 in the Gregorian count

func uuCount(now, skew int64) uuid.Time {
	at := simrt.TimeNow().UnixNano() - simrt.Now() - simrt.SkewNow() + now + skew
	return uuid.Time(at/100 + uuEpoch)
}

func (g *uuRig) one(act int) {
	id := simrt.TaskID()
	failed := g.failed[id]
	switch act {
	case uaNew, uaRandom, uaString:
		var u uuid.UUID
		var err error
		func() {
			defer func() {
				if r := recover(); r != nil {
					e, ok := r.(error)
					if !ok || !errors.Is(e, errUUID) {
						panic(r)
					}
					err = e
				}
			}()
			switch act {
			case uaNew:
				u = uuid.New()
			case uaRandom:
				u, err = uuid.NewRandom()
			case uaString:
				s := uuid.NewString()
				var perr error
				u, perr = uuid.Parse(s)
				if perr != nil || u.String() != s {
					fail("uuid.text", "NewString gave a text that is no UUID | %q: %v", s, perr)
				}
			}
		}()
		if (err != nil) != (g.failed[id] > failed) {
			fail("uuid.err", "an error without a failure of the reader in that call, or a failure without an error | %v, failures %d", err, g.failed[id]-failed)
		}
		if err != nil {
			if u != (uuid.UUID{}) {
				fail("uuid.err", "a UUID came together with an error | %v", u)
			}
			if !errors.Is(err, errUUID) {
				fail("uuid.err", "another error than the reader's | %v", err)
			}
			return
		}
		if u.Version() != 4 || u.Variant() != uuid.RFC4122 {
			fail("uuid.form", "a random UUID has another version or variant | %v", u)
		}
		g.got = append(g.got, u)
	case uaTime:
		begin, skew, ev := simrt.Now(), simrt.SkewNow(), simrt.Event()
		var t uuid.Time
		var seq uint16
		if !g.timed(id, failed, func() {
			var err error
			if t, seq, err = uuid.GetTime(); err != nil {
				fail("uuid.err", "GetTime failed | %v", err)
			}
		}) {
			return
		}
		k := uuTime{t, seq}
		if g.times[k] {
			fail("uuid.clock", "GetTime gave the same time and clock sequence twice | %d %#x", t, seq)
		}
		g.times[k] = true
		g.last = k
		in := false
		for _, w := range g.walls {
			if w.at > ev {
				in = in || uuCount(begin, skew) <= t && t <= uuCount(w.now, skew)
				begin, skew = w.now, w.skew
			}
		}
		if !in && (t < uuCount(begin, skew) || t > uuCount(simrt.Now(), skew)) {
			fail("uuid.clock", "GetTime gave a time that the clock did not have during the call | %d", t)
		}
	case uaSeq:
		g.timed(id, failed, func() {
			if s := uuid.ClockSequence(); s < 0 || s > 0x3fff {
				fail("uuid.clock", "a clock sequence is out of range | %d", s)
			}
		})
	}
}

// timed runs f, which panics when the clock sequence cannot be drawn; it reports whether f returned.
func (g *uuRig) timed(id, failed int, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, is := r.(string); !is || s != errUUID.Error() || g.failed[id] == failed {
				panic(r)
			}
		}
	}()
	f()
	return true
}

func (g *uuRig) check() {
	index := map[uuid.UUID]uuPos{}
	for task, s := range g.streams {
		for i := 0; i+16 <= len(s); i++ {
			var u uuid.UUID
			copy(u[:], s[i:])
			u[6] = u[6]&0x0f | 0x40
			u[8] = u[8]&0x3f | 0x80
			index[u] = uuPos{task, i}
		}
	}
	used := map[uuPos]bool{}
	for _, u := range g.got {
		at, ok := index[u]
		if !ok {
			fail("uuid.mixed", "a UUID is not made of sixteen bytes that the reader gave in a row | %v", u)
		}
		for k := 0; k < 16; k++ {
			b := uuPos{at.task, at.at + k}
			if used[b] {
				fail("uuid.reuse", "two UUIDs share random bytes | %v", u)
			}
			used[b] = true
		}
	}
}

func runUU(x any) {
	p := x.(*UUPlan)
	q := *p
	g := &uuRig{p: &q, streams: map[int][]byte{}, failed: map[int]int{}, times: map[uuTime]bool{}, rnd: simrt.NewRand(uint64(len(p.Phases)) + 12345)}
	uuid.SetRand(g)
	ops := 0
	for i, ph := range p.Phases {
		if ph.Reset {
			if ph.Pool {
				uuid.DisableRandPool()
			} else {
				uuid.EnableRandPool()
			}
		}
		if ph.Pool {
			uuid.EnableRandPool()
		} else {
			uuid.DisableRandPool()
		}
		for t, list := range ph.Tasks {
			simrt.GoNamed(fmt.Sprintf("maker %d.%d", i, t), func() {
				for _, op := range list {
					if op.Wait > 0 {
						sleepJitter(op.Wait)
					}
					if op.Act == uaJump {
						d := int64(op.Jump) * 50
						if op.Ms {
							d = int64(op.Jump) * int64(time.Millisecond)
						}
						simrt.Stat("fault_clock_jump")
						g.setWall(simrt.SkewNow() + d)
						continue
					}
					for k := 0; k < op.N; k++ {
						simrt.Stat([]string{"new", "new_random", "new_string", "get_time", "clock_sequence"}[op.Act])
						g.one(op.Act)
						ops++
					}
				}
				g.made++
			})
		}
		simrt.WaitQuiescent()
		want := 0
		for _, ph := range p.Phases[:i+1] {
			want += len(ph.Tasks)
		}
		if g.made != want {
			fail("uuid.stuck", "a task that makes UUIDs never comes back | %d of %d done", g.made, want)
		}
	}
	g.check()
	if len(g.times) > 0 {
		// At rest: one that goes back in time gets another sequence, one that goes on keeps it.
		q.Fail = 0
		seq := uuid.ClockSequence()
		g.setWall(simrt.SkewNow() + int64(time.Hour)*24*365)
		_, s1, _ := uuid.GetTime()
		g.setWall(simrt.SkewNow() + 1000)
		_, s2, _ := uuid.GetTime()
		g.setWall(simrt.SkewNow() - 2000)
		_, s3, _ := uuid.GetTime()
		if int(s1&0x3fff) != seq || s2 != s1 {
			fail("uuid.clock", "the clock sequence changed though the time went on | %#x, %#x, %#x", seq, s1, s2)
		}
		if s3 == s2 {
			fail("uuid.clock", "the clock sequence stayed though the time went back | %#x", s3)
		}
		if s1>>14 != 2 || s3>>14 != 2 {
			fail("uuid.clock", "a clock sequence is without its variant bits | %#x %#x", s1, s3)
		}
	}
	if len(g.got) > 1 || len(g.times) > 1 {
		nontrivial()
	}
}

var famUU = &Family{Name: "uuid", Gen: genUU, New: func() any { return &UUPlan{} }, Run: runUU, Tidy: tidyUU}

func init() {
	register(&Check{ID: "C27", Variants: []Variant{{F: famUU, Prof: "mix", Weight: 1, Steps: 200000}}, Accept: []string{"uuid."},
		Real:  "real iota code: types/uuid (New, NewRandom, NewString, the randomness pool, GetTime, ClockSequence, Parse, String)",
		Stubs: "simulated: goroutine scheduling, sync, wall clock; harness: the reader of randomness, the tasks that make UUIDs",
		Rule:  "A run has up to three phases, with and without the pool, of up to five tasks that make UUIDs and read the clock, over a reader of randomness that is slow, reads short and fails at arbitrary bytes and a wall clock that is set back and forth. At rest each UUID must be sixteen bytes that the reader gave in a row and that no other UUID has any of, errors must be exactly the reader's failures, and no time and clock sequence may have been given twice."})
}

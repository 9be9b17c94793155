//go:build go1.22

package main

import (
	"errors"
	"fmt"

	"github.com/nanobus/iota/go/internal/verifsim/simrt"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/mono"
)

// ---------------------------------------------------------------- mono programs

const (
	msJust = iota
	msError
	msSync // Create, settled while it is being subscribed to
	msTask // Create, settled by a task
	msProcessor
	msKinds
)

// MonoPlan is one mono, its source and its observers.
type MonoPlan struct {
	Src    int
	Err    bool
	Twice  bool // a second, different outcome follows
	Same   bool // it is of the same kind
	Zero   bool // the value is the zero value
	Both   bool // two tasks settle it at the same time, differently
	At     int  // ms
	Start  int
	Map    []bool // per stage: fails
	Block  bool
	Bare   bool // no callbacks
	Notify []int
	Again  bool
	Async  bool
	Peek   []int // ms after which a task calls Get
	Inline bool
}

func genMono(r *simrt.Rand, prof string, thorough bool) any {
	p := &MonoPlan{Src: r.Pick(8, 8, 16, 28, 40), Err: r.Bool(0.4), Twice: r.Bool(0.3), Both: r.Bool(0.15), At: pick(r, 0, 0, 1, r.Intn(6)), Start: pick(r, 0, 0, 1, r.Intn(6))}
	for k := r.Pick(50, 35, 15); k > 0; k-- {
		p.Map = append(p.Map, r.Bool(0.3))
	}
	p.Block = r.Bool(0.4)
	p.Bare = r.Bool(0.2)
	for k := r.Intn(pick(r, 5, 5, 5, 5, 5, 5, 5, 5, 5, 20)); k > 0; k-- {
		p.Notify = append(p.Notify, pick(r, -1, -2, r.Intn(8), 0))
	}
	p.Again = r.Bool(0.2)
	p.Async = r.Bool(0.3)
	p.Same = r.Bool(0.4)
	p.Zero = r.Bool(0.2)
	for k := r.Pick(50, 30, 20); k > 0; k-- {
		p.Peek = append(p.Peek, pick(r, 0, 0, r.Intn(8)))
	}
	p.Inline = prof == "guest"
	tidyMono(p)
	return p
}

func tidyMono(x any) {
	p := x.(*MonoPlan)
	clamp(&p.Src, 0, msKinds-1)
	clamp(&p.At, 0, 50)
	clamp(&p.Start, 0, 50)
	if len(p.Map) > 3 {
		p.Map = p.Map[:3]
	}
	for i := range p.Notify {
		clamp(&p.Notify[i], -2, 50)
	}
	for i := range p.Peek {
		clamp(&p.Peek[i], 0, 50)
	}
	if p.Inline {
		p.Peek = nil
	}
	if p.Inline {
		if p.Src == msTask {
			p.Src = msSync
		}
		p.At, p.Start, p.Block, p.Both = 0, 0, false, false
		for i := range p.Notify {
			p.Notify[i] = min(p.Notify[i], -1)
		}
	}
	if p.Src < msTask {
		p.Both = false
	}
	if p.Src < msSync {
		p.Twice = false
		p.Err = p.Src == msError
	}
	if p.Src == msProcessor || p.Block {
		p.Again = false
	}
}

var errMono = errors.New("the mono failed")
var errMonoOther = errors.New("the mono failed otherwise")

func mapErrM(stage int) error { return fmt.Errorf("stage %d failed", stage) }

type monoRig struct {
	p       *MonoPlan
	raw     mono.Mono[int]
	top     mono.Mono[int]
	settled bool // an outcome was signalled by the source
	outs    []string
	finals  []rx.SignalType
	blocked string
	calls   []int
	twice   bool // the second outcome met the subscription
	subAt   uint64
}

func (g *monoRig) spawn(name string, fn func()) {
	if g.p.Inline {
		fn()
		return
	}
	simrt.GoNamed(name, fn)
}

func (p *MonoPlan) value() int {
	if p.Zero {
		return 0
	}
	return 7
}

// settle is the source's work.
func (g *monoRig) settle(s mono.Sink[int]) {
	p := g.p
	simrt.Yield()
	g.settled = true
	simrt.Logf("the source settles, error %v", p.Err)
	if p.Both {
		simrt.GoNamed("succeeder", func() { s.Success(p.value()) })
		simrt.GoNamed("failer", func() { s.Error(errMono) })
		return
	}
	g.twice = p.Twice
	if p.Err {
		s.Error(errMono)
	} else {
		s.Success(p.value())
	}
	if p.Twice {
		if p.Err != p.Same {
			s.Success(8)
		} else {
			s.Error(errMonoOther)
		}
		if p.Src != msProcessor || g.subAt == 0 {
			g.twice = false
		}
	}
}

func (g *monoRig) build() {
	p := g.p
	switch p.Src {
	case msJust:
		g.raw, g.settled = mono.Just(p.value()), true
	case msError:
		g.raw, g.settled = mono.Error[int](errMono), true
	case msSync:
		g.raw = mono.Create(g.settle)
	case msTask:
		g.raw = mono.Create(func(s mono.Sink[int]) {
			simrt.GoNamed("source", func() {
				sleepJitter(p.At)
				g.settle(s)
			})
		})
	default:
		pr := mono.NewProcessor[int]()
		g.raw = pr
		g.spawn("source", func() {
			if p.Inline {
				g.settle(pr)
				return
			}
			sleepJitter(p.At)
			g.settle(pr)
		})
	}
	g.top = g.raw
	for i := range p.Map {
		i := i
		g.top = mono.Map(g.top, func(v int) (int, error) {
			simrt.Yield()
			if p.Map[i] {
				return 0, mapErrM(i)
			}
			return v*3 + i + 1, nil
		})
	}
}

// outcome checks one report of the outcome against what was signalled and against the other reports.
func (g *monoRig) outcome(who string, v int, err error) string {
	p := g.p
	if !g.settled {
		fail("mono.early", "an outcome was reported before there was one | %s: %d %v", who, v, err)
	}
	want, wantErr := p.value(), error(nil)
	for i := range p.Map {
		if p.Map[i] {
			wantErr = mapErrM(i)
			break
		}
		want = want*3 + i + 1
	}
	ok := false
	isVal := wantErr == nil && err == nil && v == want || wantErr != nil && err != nil && err.Error() == wantErr.Error()
	switch {
	case p.Both:
		ok = isVal || err == errMono
	case p.Err:
		ok = err == errMono
	default:
		ok = isVal
	}
	if !ok && !(g.twice && p.Twice) {
		fail("mono.outcome", "an outcome was reported that is not the mono's | %s: %d %v", who, v, err)
	}
	s := fmt.Sprintf("success %d", v)
	if err != nil {
		s = "error " + err.Error()
	}
	if len(g.outs) > 0 && g.outs[0] != s {
		fail("mono.outcome", "two reports of a mono's outcome differ | %s: %s, before %s", who, s, g.outs[0])
	}
	return s
}

func (g *monoRig) notify(i int) {
	for len(g.calls) <= i {
		g.calls = append(g.calls, 0)
	}
	g.top.Notify(func(s rx.SignalType) {
		simrt.Yield()
		simrt.Logf("Notify callback %d: %v", i, s)
		g.calls[i]++
		if g.calls[i] > 1 {
			fail("mono.notify", "a Notify callback ran more than once | callback %d", i)
		}
		if !g.settled {
			fail("mono.notify", "a Notify callback ran before the outcome | callback %d", i)
		}
		v, err := g.top.Get()
		g.outcome("Get in a Notify callback", v, err)
		if len(g.p.Map) == 0 {
			want := rx.SignalComplete
			if err != nil {
				want = rx.SignalError
			}
			if s != want {
				fail("mono.notify", "a Notify callback got another signal than the outcome's | callback %d: %v, want %v", i, s, want)
			}
		}
	})
}

func (g *monoRig) subscribe(name string) {
	p := g.p
	g.finals = nil
	n := 0
	out := func(who string, v int, err error) {
		simrt.Yield()
		simrt.Logf("%s: %d %v", who, v, err)
		if n++; n > 1 {
			fail("mono.twice", "a subscriber got more than one outcome | %s: %d %v", who, v, err)
		}
		if len(g.finals) > 0 {
			fail("mono.finally", "Finally ran before the outcome | %s", who)
		}
		s := g.outcome(who, v, err)
		g.outs = append(g.outs, s)
	}
	sub := mono.Subscribe[int]{}
	if !p.Bare {
		sub = mono.Subscribe[int]{
			OnSuccess: func(v int) { out(name+" OnSuccess", v, nil) },
			OnError:   func(err error) { out(name+" OnError", 0, err) },
			Finally: func(s rx.SignalType) {
				simrt.Yield()
				g.finals = append(g.finals, s)
				if len(g.finals) > 1 {
					fail("mono.finally", "Finally ran more than once | %v", g.finals)
				}
				if n != 1 {
					fail("mono.finally", "Finally ran before the outcome | %v", s)
				}
				want := rx.SignalComplete
				if g.outs[len(g.outs)-1][0] == 'e' {
					want = rx.SignalError
				}
				if s != want {
					fail("mono.finally", "Finally got another signal than the outcome's | %v, want %v", s, want)
				}
			},
		}
	}
	g.top.Subscribe(sub)
}

type blocker interface{ Block() (int, error) }

func (g *monoRig) block(who string) {
	b, ok := any(g.top).(blocker)
	if !ok {
		return
	}
	done := false
	simrt.GoNamed(who, func() {
		v, err := b.Block()
		g.outs = append(g.outs, g.outcome(who, v, err))
		simrt.Logf("%s returned %d %v", who, v, err)
		done = true
	})
	simrt.WaitQuiescent()
	if !done {
		fail("mono.block", "Block does not return although there is an outcome | %s", who)
	}
}

func (g *monoRig) over(subscribed bool) {
	if !g.p.Bare && subscribed && (len(g.finals) != 1 || len(g.outs) == 0) {
		fail("mono.lost", "a subscriber got no outcome | %v, Finally %d times", g.outs, len(g.finals))
	}
}

// peek asks for the outcome at any moment: it is the outcome, or a panic says that there is none yet.
func (g *monoRig) peek() {
	simrt.Yield()
	v, err, ok := g.tryGet()
	if !ok {
		note("get_before_the_outcome")
		return
	}
	simrt.Logf("Get: %d %v", v, err)
	g.outcome("Get at any moment", v, err)
}

func (g *monoRig) tryGet() (v int, err error, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, text := r.(string); !text {
				panic(r)
			}
		}
	}()
	v, err = g.top.Get()
	return v, err, true
}

func runMono(x any) {
	p := x.(*MonoPlan)
	g := &monoRig{p: p}
	nontrivial()
	g.build()
	for i, at := range p.Notify {
		i, at := i, at
		if at == -1 {
			g.notify(i)
		} else if at >= 0 {
			simrt.GoNamed("notifier", func() {
				sleepJitter(at)
				g.notify(i)
			})
		}
	}
	for _, at := range p.Peek {
		at := at
		simrt.GoNamed("peeker", func() {
			sleepJitter(at)
			g.peek()
		})
	}
	returned := false
	g.spawn("subscriber", func() {
		if p.Start > 0 {
			simrt.TimeSleep(ms(p.Start))
		}
		if p.Async {
			g.top.Async()
		}
		g.subAt = simrt.Event()
		if b, ok := any(g.top).(blocker); ok && p.Block {
			v, err := b.Block()
			g.outs = append(g.outs, g.outcome("Block", v, err))
			simrt.Logf("Block returned %d %v", v, err)
		} else {
			g.subscribe("the first subscription")
		}
		returned = true
	})
	simrt.WaitQuiescent()
	if !returned {
		fail("mono.block", "Block does not return although there is an outcome")
	}
	g.over(!p.Block)
	for i, at := range p.Notify {
		if at == -2 {
			g.notify(i)
			simrt.WaitQuiescent()
		}
	}
	for i := range p.Notify {
		if g.calls[i] != 1 {
			fail("mono.notify", "a Notify callback did not run although there is an outcome | callback %d, registered at %d", i, p.Notify[i])
		}
	}
	v, err := g.top.Get()
	g.outcome("Get", v, err)
	if p.Again {
		g.settled = p.Src < msSync
		if p.Both {
			g.outs = nil // the source's race is run again
		}
		g.subscribe("the second subscription")
		simrt.WaitQuiescent()
		g.over(true)
		note("second_subscriptions")
		return
	}
	if !p.Inline {
		g.block("Block after the end")
	}
	note("outcomes")
}

var famMono = &Family{Name: "mono", Gen: genMono, New: func() any { return &MonoPlan{} }, Run: runMono, Tidy: tidyMono}

//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"time"

	"github.com/nanobus/iota/go/internal/verifsim/simrt"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
)

// ---------------------------------------------------------------- flux programs

const (
	fsPush  = iota // a task emits as demand comes in
	fsReply        // emits inside the Request callback
	fsSlice
	fsSliceResponse
	fsError
	fsProcessor
	fsEager // emits while it is being subscribed to, without demand
	fsLate  // announces itself later
	fsKinds
)

const (
	ftComplete = iota
	ftError
	ftNone
	ftBoth // two tasks end it at the same time, differently
	ftKinds
)

const (
	foMax    = iota
	foPaged  // OnRequest asks for a page
	foExtern // other tasks ask
	foKinds
)

// FluxPlan is one flux, its source and its observers.
type FluxPlan struct {
	Src, N, Term int
	Deaf         bool // the source carries on after the end
	PD           []int
	Early        bool  // processor: the source works before the subscription
	Map          []int // per stage: the item it fails at, -1 none
	Block        bool
	Start        int
	Mode, Page   int
	Reqs         [][]int // per task
	RD           []int
	Cancel       int // k+1: after k items
	CIn          bool
	CTwice       bool
	CD           int
	Notify       []int // -1 before the subscription, -2 after the end, else when, ms
	Again        bool
	Async        bool
	Inline       bool // one task does everything, as in a WebAssembly guest
}

func genFlux(r *simrt.Rand, prof string, thorough bool) any {
	p := &FluxPlan{Src: r.Pick(22, 12, 12, 10, 4, 22, 8, 10), N: pick(r, 0, 1, 2, r.Intn(8), r.Intn(8), 0, 1, 2, 5+r.Intn(20), pick(r, 20, 60, 300)), Term: r.Pick(50, 28, 12, 10), Deaf: r.Bool(0.3)}
	delays := func(n int) []int {
		var d []int
		for k := r.Intn(n); k > 0; k-- {
			d = append(d, pick(r, 0, 0, r.Intn(4)))
		}
		return d
	}
	p.PD = delays(4)
	p.Early = r.Bool(0.4)
	for k := r.Pick(50, 35, 15); k > 0; k-- {
		m := -1
		if r.Bool(0.35) {
			m = r.Intn(max(p.N, 1))
		}
		p.Map = append(p.Map, m)
	}
	p.Block = r.Bool(0.35)
	p.Start = pick(r, 0, 0, r.Intn(6))
	p.Mode = r.Pick(30, 35, 35)
	p.Page = pick(r, 1, 1, 2, 1+r.Intn(10), rx.RequestMax)
	if p.Mode == foExtern || r.Bool(0.2) {
		for k := 1 + r.Intn(4); k > 0; k-- {
			var rs []int
			for j := 1 + r.Intn(4); j > 0; j-- {
				rs = append(rs, pick(r, 1, 1, 1+r.Intn(5), p.N+1))
			}
			p.Reqs = append(p.Reqs, rs)
		}
		p.RD = delays(4)
	}
	if r.Bool(0.4) {
		p.Cancel = 1 + pick(r, 0, 0, r.Intn(p.N+2))
		p.CIn = r.Bool(0.4)
		p.CTwice = r.Bool(0.3)
		p.CD = pick(r, 0, 0, r.Intn(8))
	}
	for k := r.Intn(pick(r, 4, 4, 4, 4, 4, 4, 4, 4, 4, 20)); k > 0; k-- {
		p.Notify = append(p.Notify, pick(r, -1, -2, r.Intn(10), 0))
	}
	p.Again = r.Bool(0.2)
	p.Async = r.Bool(0.2)
	p.Inline = prof == "guest"
	tidyFlux(p)
	return p
}

func tidyFlux(x any) {
	p := x.(*FluxPlan)
	clamp(&p.Src, 0, fsKinds-1)
	clamp(&p.N, 0, 400)
	clamp(&p.Term, 0, ftKinds-1)
	clamp(&p.Mode, 0, foKinds-1)
	clamp(&p.Page, 1, rx.RequestMax)
	clamp(&p.Start, 0, 50)
	clamp(&p.Cancel, 0, 100)
	if len(p.Map) > 3 {
		p.Map = p.Map[:3]
	}
	for i := range p.Map {
		clamp(&p.Map[i], -1, 100)
	}
	for i := range p.Reqs {
		for j := range p.Reqs[i] {
			clamp(&p.Reqs[i][j], 1, 1000)
		}
	}
	for i := range p.Notify {
		clamp(&p.Notify[i], -2, 100)
	}
	if p.Inline {
		switch p.Src {
		case fsPush, fsLate:
			p.Src = fsReply
		case fsProcessor:
			p.Early, p.N = true, 0
		}
		p.Block, p.PD, p.RD, p.Start = false, nil, nil, 0
		if p.Term == ftBoth {
			p.Term = ftError
		}
		if p.Cancel > 0 {
			p.CIn = true
		}
		for i := range p.Notify {
			p.Notify[i] = min(p.Notify[i], -1)
		}
	}
	// Sources that are only asked cannot end in other ways.
	switch p.Src {
	case fsSlice, fsSliceResponse:
		p.Term, p.Deaf = ftComplete, false
	case fsError:
		p.Term, p.N = ftError, 0
	}
	if p.Src == fsError && p.Block {
		p.Cancel = 0
	}
	if p.Again && (p.Src != fsReply && p.Src != fsEager && p.Src != fsPush) {
		p.Again = false
	}
	if p.Again { // Block after the end gives the first outcome
		p.Block = false
	}
}

// fluxSrc is the source's side of one subscription.
type fluxSrc struct {
	x        *fluxObs
	sink     flux.Sink[int]
	req      int64
	reqCalls int
	emitted  int
	ended    bool
	cancels  int
	inReq    int
}

// fluxObs is one subscription to it.
type fluxObs struct {
	p      *FluxPlan
	name   string
	src    *fluxSrc
	hooked bool // demand and cancel can be seen at the source

	granted   int64
	max       bool
	items     int
	inCb      int
	terms     []string
	errGot    error
	finals    []rx.SignalType
	failed    bool // a Map stage failed
	sub       rx.Subscription
	subbed    bool // Subscribe returned
	cancelAt  uint64
	cancelOk  uint64
	after     int
	raced     bool
	done      bool
	blockRet  bool
	blockErr  error
	twice     bool // two terminal signals met the subscription
	startedAt uint64
	calls     []int // Notify
}

type fluxRig struct {
	p   *FluxPlan
	raw flux.Flux[int]
	top flux.Flux[int]
	cur *fluxObs
	sig []rx.SignalType
}

var errSource = errors.New("the source failed")
var errOther = errors.New("the source failed otherwise")

func mapErr(stage int) error { return fmt.Errorf("stage %d failed", stage) }

func (p *FluxPlan) mapped(v int) (want int, failStage int) {
	for i, k := range p.Map {
		if k == v {
			// later stages see what the earlier ones made of it
			return 0, i
		}
		_ = i
	}
	want = v
	for i := range p.Map {
		want = want*3 + i + 1
	}
	return want, -1
}

func (p *FluxPlan) unmap(stage, v int) int {
	for i := stage - 1; i >= 0; i-- {
		v = (v - i - 1) / 3
	}
	return v
}

func (x *fluxObs) pause() {
	if len(x.p.PD) > 0 {
		if d := x.p.PD[x.src.emitted%len(x.p.PD)]; d > 0 {
			simrt.TimeSleep(ms(d))
		}
	}
	simrt.Yield()
}

func (s *fluxSrc) hooks() flux.OnSubscribe {
	return flux.OnSubscribe{
		Request: func(n int) {
			x := s.x
			s.inReq++
			simrt.Yield()
			s.req += int64(n)
			s.reqCalls++
			simrt.Logf("the source is asked for %d (total %d, granted %d)", n, s.req, x.granted)
			if n <= 0 {
				fail("flux.demand", "the source was asked for nothing | %s: %d", x.name, n)
			}
			if !x.max && s.req > x.granted {
				fail("flux.demand", "the source was asked for more than the subscriber requested | %s: %d of %d", x.name, s.req, x.granted)
			}
			if x.p.Src == fsReply {
				s.emitSync(n)
			}
			s.inReq--
		},
		Cancel: func() {
			s.cancels++
			simrt.Logf("the source is cancelled")
			if s.cancels > 1 {
				fail("flux.cancel", "the source's cancel callback ran more than once | %s", s.x.name)
			}
			if s.x.cancelAt == 0 && !s.x.failed {
				fail("flux.cancel", "the source's cancel callback ran although nobody cancelled | %s", s.x.name)
			}
		},
	}
}

func (s *fluxSrc) emit() {
	v := s.emitted
	s.emitted++
	simrt.Logf("the source emits %d", v)
	s.sink.Next(v)
}

func (s *fluxSrc) emitSync(n int) {
	for ; n > 0 && s.emitted < s.x.p.N && !(s.cancels > 0 && !s.x.p.Deaf); n-- {
		s.emit()
	}
	if s.emitted >= s.x.p.N && !s.ended {
		s.end(false)
	}
}

// run emits as demand comes in.
func (s *fluxSrc) run() {
	x := s.x
	for s.emitted < x.p.N {
		x.pause()
		simrt.Block("demand", func() bool { return s.req > int64(s.emitted) || s.cancels > 0 || x.done })
		if s.req <= int64(s.emitted) || (s.cancels > 0 && !x.p.Deaf) {
			return
		}
		s.emit()
	}
	x.pause()
	s.end(true)
}

func (s *fluxSrc) end(task bool) {
	p := s.x.p
	if p.Term == ftNone {
		return
	}
	s.ended = true
	simrt.Logf("the source ends: %d", p.Term)
	// The first terminal signal is the one that counts, also if no one was there yet.
	twice := p.Deaf && p.Src == fsProcessor && p.Early && p.N == 0
	if twice {
		s.x.twice = true
		defer func() {
			if s.x.startedAt == 0 {
				s.x.twice = false
			}
		}()
	}
	switch p.Term {
	case ftComplete:
		s.sink.Complete()
		if twice {
			s.sink.Error(errOther)
		}
	case ftError:
		s.sink.Error(errSource)
		if twice {
			s.sink.Complete()
		}
	default:
		if !task {
			s.sink.Error(errSource)
			break
		}
		sink := s.sink
		n := 2
		simrt.GoNamed("completer", func() { sink.Complete(); n-- })
		simrt.GoNamed("failer", func() { sink.Error(errSource); n-- })
		simrt.Block("both ends", func() bool { return n == 0 })
	}
	if p.Deaf && !(p.Src == fsProcessor && (p.Early || p.Block)) {
		s.sink.Next(-1)
		s.sink.Error(errOther)
		s.sink.Complete()
		s.sink.Next(-2)
	}
}

func (g *fluxRig) build() {
	p := g.p
	switch p.Src {
	case fsSlice:
		var vs []int
		for i := 0; i < p.N; i++ {
			vs = append(vs, i)
		}
		g.raw = flux.FromSlice(vs)
	case fsError:
		g.raw = flux.Error[int](errSource)
	case fsProcessor:
		pr := flux.NewProcessor[int]()
		g.raw = pr
		x := g.cur
		s := &fluxSrc{x: x, sink: pr}
		x.src, x.hooked = s, true
		p.spawn("source", func() {
			if !p.Early {
				simrt.Block("subscription", func() bool { return x.subbed })
			}
			x.pause()
			pr.OnSubscribe(s.hooks())
			s.run()
		})
	default:
		g.raw = flux.Create(func(sink flux.Sink[int]) {
			x := g.cur
			s := &fluxSrc{x: x, sink: sink}
			x.src = s
			if x.sub == nil {
				x.sub = g.raw.Subscription()
			}
			switch p.Src {
			case fsPush:
				x.hooked = true
				sink.OnSubscribe(s.hooks())
				simrt.GoNamed("source", s.run)
			case fsLate:
				x.hooked = true
				simrt.GoNamed("source", func() {
					x.pause()
					sink.OnSubscribe(s.hooks())
					s.run()
				})
			case fsReply:
				x.hooked = true
				sink.OnSubscribe(s.hooks())
			case fsSliceResponse:
				var vs []int
				for i := 0; i < p.N; i++ {
					vs = append(vs, i)
				}
				sink.OnSubscribe(flux.OnSubscribe{Request: flux.SliceResponse(sink, vs)})
			case fsEager:
				for i := 0; i < p.N; i++ {
					s.emit()
				}
				s.end(false)
			}
		})
	}
	g.top = g.raw
	for i := range p.Map {
		i := i
		g.top = flux.Map(g.top, func(v int) (int, error) {
			simrt.Yield()
			if v >= 0 && p.unmap(i, v) == p.Map[i] {
				g.cur.failed = true
				note("fault_map_failure")
				return 0, mapErr(i)
			}
			return v*3 + i + 1, nil
		})
	}
}

// crossed tells whether a cancel may have overlapped the failure of a Map stage.
func (x *fluxObs) crossed() bool { return x.failed && x.raced && x.cancelAt != 0 }

func (x *fluxObs) request(n int) {
	x.granted += int64(n)
	simrt.Logf("the subscriber requests %d (total %d)", n, x.granted)
	x.sub.Request(n)
}

func (x *fluxObs) cancel() {
	if x.cancelAt == 0 {
		x.cancelAt = simrt.Event()
	}
	note("cancels")
	simrt.Logf("the subscriber cancels")
	x.sub.Cancel()
	if x.p.CTwice {
		x.sub.Cancel()
	}
	x.cancelOk = simrt.Event()
	simrt.Logf("cancel returned")
}

func (x *fluxObs) subscriber() flux.Subscribe[int] {
	p := x.p
	enter := func(what string) {
		if x.inCb > 0 {
			fail("flux.overlap", "a subscriber's callbacks ran at the same time | %s: %s", x.name, what)
		}
		x.inCb++
		simrt.Yield()
	}
	sub := flux.Subscribe[int]{
		OnNext: func(v int) {
			if len(x.terms) > 0 {
				fail("flux.after", "an item came after the terminal signal | %s: item %d after %s", x.name, x.items, x.terms[0])
			}
			if x.cancelOk != 0 {
				x.after++
				if !x.raced || x.after > 1 {
					fail("flux.cancelled", "an item came after the subscriber had cancelled | %s: item %d", x.name, x.items)
				}
			}
			if !(x.raced && x.cancelAt != 0) && len(x.finals) > 0 {
				fail("flux.after", "an item came after Finally | %s: item %d", x.name, x.items)
			}
			enter("item")
			want, bad := p.mapped(x.items)
			if bad >= 0 || v != want {
				fail("flux.item", "a subscriber got another item than was emitted | %s: item %d is %d, want %d", x.name, x.items, v, want)
			}
			if x.items >= p.N {
				fail("flux.item", "a subscriber got more items than were emitted | %s: %d", x.name, x.items+1)
			}
			x.items++
			simrt.Logf("the subscriber got item %d", x.items-1)
			if p.Cancel > 0 && p.CIn && x.items == p.Cancel-1 && x.sub != nil {
				x.cancel()
			}
			x.inCb--
		},
		OnComplete: func() {
			enter("complete")
			x.term("complete", nil)
			x.inCb--
		},
		OnError: func(err error) {
			if !x.failed {
				enter("error")
			}
			x.term("error", err)
			if !x.failed {
				x.inCb--
			}
		},
		Finally: func(s rx.SignalType) {
			simrt.Yield()
			x.finals = append(x.finals, s)
			simrt.Logf("Finally %v", s)
			if len(x.finals) > 1 {
				fail("flux.finally", "Finally ran more than once | %s: %v", x.name, x.finals)
			}
			want := rx.SignalCancel
			switch {
			case len(x.terms) == 0:
				if x.cancelAt == 0 {
					fail("flux.finally", "Finally ran before the flux ended | %s: %v", x.name, s)
				}
			case x.terms[0] == "complete":
				want = rx.SignalComplete
			default:
				want = rx.SignalError
			}
			if s != want && !x.crossed() {
				fail("flux.finally", "Finally got another signal than the flux ended with | %s: %v, want %v", x.name, s, want)
			}
			x.done = true
		},
	}
	switch p.Mode {
	case foMax:
		x.max = true
	case foPaged:
		sub.OnRequest = func(s rx.Subscription) {
			x.sub = s
			x.request(p.Page)
		}
	case foExtern:
		sub.NoRequest = true
	}
	return sub
}

func (x *fluxObs) term(kind string, err error) {
	simrt.Logf("the subscriber got %s %v", kind, err)
	x.terms = append(x.terms, kind)
	x.errGot = err
	if len(x.terms) > 1 {
		fail("flux.twice", "a subscriber got more than one terminal signal | %s: %v", x.name, x.terms)
	}
	if len(x.finals) > 0 && !x.crossed() {
		fail("flux.after", "a terminal signal came after Finally | %s: %s", x.name, kind)
	}
	p := x.p
	if x.failed {
		stage := -1
		if _, st := p.mapped(x.items); st >= 0 {
			stage = st
		}
		if kind != "error" || stage < 0 || err == nil || err.Error() != mapErr(stage).Error() {
			fail("flux.map", "a failing Map ended the flux with another signal than its error | %s: %s %v after %d items", x.name, kind, err, x.items)
		}
		return
	}
	ok := x.twice
	switch p.Term {
	case ftComplete:
		ok = ok || kind == "complete"
	case ftError:
		ok = ok || kind == "error" && err == errSource
	case ftBoth:
		ok = kind == "complete" || err == errSource
	}
	if !ok {
		fail("flux.term", "a subscriber got another terminal signal than the flux ended with | %s: %s %v, flux %d", x.name, kind, err, p.Term)
	}
	if x.items != p.N {
		fail("flux.item", "items are missing at the end of the flux | %s: %d of %d", x.name, x.items, p.N)
	}
}

func (p *FluxPlan) spawn(name string, fn func()) {
	if p.Inline {
		fn()
		return
	}
	simrt.GoNamed(name, fn)
}

// follow subscribes and watches until nothing moves any more.
func (g *fluxRig) follow(x *fluxObs, first bool) {
	p := g.p
	sub := x.subscriber()
	if first {
		for i, at := range p.Notify {
			i, at := i, at
			if at == -1 {
				g.notify(x, i)
			} else if at >= 0 {
				simrt.GoNamed("notifier", func() {
					sleepJitter(at)
					g.notify(x, i)
				})
			}
		}
	}
	started := false
	p.spawn("subscriber", func() {
		if p.Start > 0 {
			simrt.TimeSleep(ms(p.Start))
		}
		if p.Async {
			g.top.Async()
		}
		started = true
		x.startedAt = simrt.Event()
		if p.Block {
			x.blockErr = g.top.(interface {
				Block(flux.Subscribe[int]) error
			}).Block(sub)
			x.blockRet = true
			simrt.Logf("Block returned %v", x.blockErr)
			x.subbed = true
			return
		}
		f := g.top.Subscribe(sub)
		x.subbed = true
		if x.sub == nil && p.Src != fsError {
			x.sub = f.Subscription()
		}
	})
	p.spawn("subscription", func() {
		// a Block does not return, so its subscription is looked for
		if !p.Block || p.Src == fsError {
			return
		}
		simrt.Block("Block", func() bool { return started })
		for k := 0; k < 200 && x.sub == nil; k++ {
			if s := g.raw.Subscription(); !nilSub(s) {
				x.sub = s
				break
			}
			simrt.TimeSleep(time.Millisecond)
		}
		x.subbed = true
	})
	for i, rs := range p.Reqs {
		i, rs := i, rs
		p.spawn(fmt.Sprintf("requester %d", i), func() {
			simrt.Block("the subscription", func() bool { return x.sub != nil || x.subbed && p.Src == fsError })
			for j, n := range rs {
				if len(p.RD) > 0 {
					if d := p.RD[(i+j)%len(p.RD)]; d > 0 {
						simrt.TimeSleep(ms(d))
					}
				}
				if x.sub == nil {
					return
				}
				x.request(n)
			}
		})
	}
	if p.Cancel > 0 && !p.CIn && p.Src != fsError {
		simrt.GoNamed("canceller", func() {
			simrt.Block("items before the cancel", func() bool { return x.sub != nil && (x.items >= p.Cancel-1 || x.done) })
			sleepJitter(p.CD)
			x.raced = true
			x.cancel()
		})
	}
	simrt.WaitQuiescent()
	x.judge(g, first)
}

func (g *fluxRig) notify(x *fluxObs, i int) {
	for len(x.calls) <= i {
		x.calls = append(x.calls, 0)
	}
	g.top.Notify(func(s rx.SignalType) {
		simrt.Yield()
		simrt.Logf("Notify callback %d: %v", i, s)
		x.calls[i]++
		if x.calls[i] > 1 {
			fail("flux.notify", "a Notify callback ran more than once | %s: callback %d", x.name, i)
		}
		if g.p.Src == fsError {
			if s != rx.SignalError {
				fail("flux.notify", "a Notify callback got another signal than the flux ended with | %s: %v", x.name, s)
			}
			return
		}
		if len(x.terms) == 0 && x.cancelAt == 0 && !x.failed {
			fail("flux.notify", "a Notify callback ran before the flux ended | %s: callback %d", x.name, i)
		}
		if !x.failed {
			want := rx.SignalCancel
			if len(x.terms) > 0 {
				want = rx.SignalComplete
				if x.terms[0] == "error" {
					want = rx.SignalError
				}
			}
			if s != want {
				fail("flux.notify", "a Notify callback got another signal than the flux ended with | %s: %v, want %v", x.name, s, want)
			}
		}
	})
}

func (x *fluxObs) judge(g *fluxRig, first bool) {
	p := x.p
	if p.Src == fsError {
		if p.Block {
			if !x.blockRet || x.blockErr != errSource {
				fail("flux.block", "Block did not return the flux's error | %s: returned %v, %v", x.name, x.blockRet, x.blockErr)
			}
		} else if len(x.terms) != 1 || len(x.finals) != 1 {
			fail("flux.term", "a flux that has failed did not end | %s", x.name)
		}
		x.notified(g, first, true)
		return
	}
	if x.inCb > 0 {
		fail("stuck", "a call into the flux from a callback never comes back")
	}
	// how it must have ended
	ended := x.failed || x.cancelOk != 0 || len(x.terms) > 0
	need := int64(p.N)
	_, failAt := -1, p.N
	for i := 0; i < p.N; i++ {
		if _, st := p.mapped(i); st >= 0 {
			failAt = i
			break
		}
	}
	all := x.max || x.granted >= need || p.Src == fsEager || p.Mode == foPaged
	if p.Src == fsSlice || p.Src == fsSliceResponse || p.Src == fsReply {
		all = x.max || x.granted >= max(need, 1) || p.Mode == foPaged
	}
	finish := all && p.Term != ftNone || all && failAt < p.N
	if x.cancelAt == 0 {
		if finish && len(x.terms) == 0 {
			fail("flux.stuck", "a flux does not end although all its items were requested | %s: %d of %d items, %d requested", x.name, x.items, p.N, x.granted)
		}
		want := p.N
		if !all {
			want = int(min(int64(p.N), x.granted))
		}
		want = min(want, failAt)
		if x.items != want {
			fail("flux.item", "items that were requested did not come | %s: %d, want %d of %d, %d requested", x.name, x.items, want, p.N, x.granted)
		}
	}
	if x.hooked && !ended && x.src != nil {
		if !x.max && x.src.req != x.granted {
			fail("flux.demand", "demand did not reach the source exactly | %s: %d of %d", x.name, x.src.req, x.granted)
		}
		if x.max && x.src.req < rx.RequestMax {
			fail("flux.demand", "demand did not reach the source exactly | %s: %d of all", x.name, x.src.req)
		}
	}
	if x.hooked && x.src != nil && len(x.terms) == 0 && x.cancelOk != 0 && x.src.cancels != 1 {
		fail("flux.cancel", "a cancelled flux did not tell its source | %s", x.name)
	}
	if ended && len(x.finals) != 1 {
		fail("flux.finally", "Finally did not run although the flux has ended | %s: %v, cancelled %v", x.name, x.terms, x.cancelOk != 0)
	}
	if p.Block && ended != x.blockRet {
		fail("flux.block", "Block must return exactly when the flux has ended | %s: ended %v, returned %v", x.name, ended, x.blockRet)
	}
	if x.blockRet {
		var want error
		if len(x.terms) > 0 {
			want = x.errGot
		}
		if x.blockErr != want && !x.crossed() {
			fail("flux.block", "Block returned another error than the flux ended with | %s: %v, want %v", x.name, x.blockErr, want)
		}
	}
	x.notified(g, first, ended)
	if ended && first && len(p.Map) == 0 && !p.Again && !p.Inline {
		var want error
		if len(x.terms) > 0 {
			want = x.errGot
		}
		ret := false
		simrt.GoNamed("late Block", func() {
			err := g.raw.(interface {
				Block(flux.Subscribe[int]) error
			}).Block(flux.Subscribe[int]{})
			ret = true
			if err != want {
				fail("flux.block", "Block returned another error than the flux ended with | after the end of %s: %v, want %v", x.name, err, want)
			}
		})
		simrt.WaitQuiescent()
		if !ret {
			fail("flux.block", "Block must return exactly when the flux has ended | after the end of %s", x.name)
		}
	}
	if ended {
		note("ended")
	} else {
		note("left_open")
	}
}

func (x *fluxObs) notified(g *fluxRig, first, ended bool) {
	if !first {
		return
	}
	p := g.p
	for i, at := range p.Notify {
		if at == -2 {
			g.notify(x, i)
			simrt.WaitQuiescent()
		}
	}
	for i := range p.Notify {
		if n := x.calls[i]; ended && n != 1 {
			fail("flux.notify", "a Notify callback did not run although the flux has ended | %s: callback %d, registered at %d", x.name, i, p.Notify[i])
		} else if !ended && n != 0 {
			fail("flux.notify", "a Notify callback ran before the flux ended | %s: callback %d", x.name, i)
		}
	}
}

func runFlux(x any) {
	p := x.(*FluxPlan)
	g := &fluxRig{p: p}
	g.cur = &fluxObs{p: p, name: "the first subscription"}
	nontrivial()
	g.build()
	g.follow(g.cur, true)
	if p.Again && (g.cur.done) {
		g.cur = &fluxObs{p: p, name: "the second subscription"}
		g.follow(g.cur, false)
		note("second_subscriptions")
	}
	simrt.StatN("items", int64(g.cur.items))
}

var famFlux = &Family{Name: "flux", Gen: genFlux, New: func() any { return &FluxPlan{} }, Run: runFlux, Tidy: tidyFlux}

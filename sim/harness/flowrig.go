//go:build go1.22

package main

import (
	"errors"
	"fmt"

	"github.com/nanobus/iota/go/internal/verifsim/simrt"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/await"
	"github.com/nanobus/iota/go/rx/flow"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// ---------------------------------------------------------------- flow programs

const (
	awJust = iota
	awError
	awProcBefore // a processor that has its outcome when the step returns
	awProcTask   // a processor that a task settles
	awProcLate   // a processor subscribed to only by a task, after which it has its outcome
	awInAsync    // complete once Async was called on it
	awInNotify   // calls back inside Notify
	awTask       // a task, started by the step, completes it
	awAsyncTask  // Async starts the task that completes it
	awFlux       // a flux of some items, subscribed to in the step
	awMapped     // a mapped mono over a processor that a task settles
	awKinds
)

const (
	retOn = iota
	retErr
	retEnd
	retDone // Success or Complete
	retFErr // Flow.Error
	retKinds
)

// AwPlan is one thing a step waits for.
type AwPlan struct {
	Kind int
	At   int  // ms
	Fail bool // completes with an error or cancel signal
}

// FlowStepPlan is one step of a flow.
type FlowStepPlan struct {
	Await []AwPlan
	Ret   int
	Items int
	// Async: the first awaitable that a task completes first ends the flow: 1 with its result, 2 with an error, 3 with End.
	Async int
}

// FlowPlan is a flow and its observer.
type FlowPlan struct {
	Flux   bool
	Steps  []FlowStepPlan
	Split  bool // the steps are given in two calls
	Block  bool
	Bare   bool
	Inline bool
}

func genFlow(r *simrt.Rand, prof string, thorough bool) any {
	p := &FlowPlan{Flux: r.Bool(0.4), Block: r.Bool(0.3), Bare: r.Bool(0.1), Split: r.Bool(0.3), Inline: prof == "guest"}
	most := pick(r, 2, 4, 6)
	few := pick(r, 1, 3, 5)
	if r.Bool(0.04) {
		most, few = pick(r, 2, 20), pick(r, 2, 20)
	}
	kinds := make([]int, awKinds)
	for i := range kinds {
		kinds[i] = pick(r, 0, 1, 1, 8)
	}
	kinds[r.Intn(awKinds)] += 4
	for k := 1 + r.Intn(most); k > 0; k-- {
		s := FlowStepPlan{Ret: r.Pick(85, 4, 4, 4, 3), Items: pick(r, 0, 0, 1, r.Intn(4))}
		for n := r.Intn(few + 1); n > 0; n-- {
			s.Await = append(s.Await, AwPlan{Kind: r.Pick(kinds...), At: pick(r, 0, 0, 0, r.Intn(4)), Fail: r.Bool(0.3)})
		}
		if r.Bool(0.1) {
			s.Async = 1 + r.Intn(3)
		}
		p.Steps = append(p.Steps, s)
	}
	if r.Bool(0.7) {
		p.Steps[len(p.Steps)-1].Ret = retDone
	}
	tidyFlow(p)
	return p
}

func tidyFlow(x any) {
	p := x.(*FlowPlan)
	if len(p.Steps) > 24 {
		p.Steps = p.Steps[:24]
	}
	for i := range p.Steps {
		s := &p.Steps[i]
		clamp(&s.Ret, 0, retKinds-1)
		clamp(&s.Items, 0, 5)
		clamp(&s.Async, 0, 3)
		if !p.Flux {
			s.Items = 0
		}
		if len(s.Await) > 24 {
			s.Await = s.Await[:24]
		}
		tasked := false
		for j := range s.Await {
			clamp(&s.Await[j].Kind, 0, awKinds-1)
			clamp(&s.Await[j].At, 0, 20)
			switch s.Await[j].Kind {
			case awJust:
				s.Await[j].Fail = false
			case awError:
				s.Await[j].Fail = true
			case awTask, awAsyncTask, awProcTask, awMapped:
				tasked = true
			}
		}
		if !tasked || s.Ret != retOn {
			s.Async = 0
		}
	}
	if p.Inline {
		p.Block = false
	}
}

var errAwait = errors.New("the awaitable failed")

func errFlow(i int) error { return fmt.Errorf("step %d failed", i) }

type flowRig struct {
	p    *FlowPlan
	f    *flow.Flow[int]
	next int // the step that is to run

	inStep  bool
	waiting int // of the awaitables of the step before
	ended   bool
	result  string // what the program signalled first
	settled bool
	sent    []int

	got      []int
	ends     []string
	finals   []rx.SignalType
	deferred []func() // Inline: what else the guest's host would call
}

func (g *flowRig) spawn(name string, at int, fn func()) {
	if g.p.Inline {
		g.deferred = append(g.deferred, fn)
		return
	}
	simrt.GoNamed(name, func() {
		sleepJitter(at)
		fn()
	})
}

func (g *flowRig) say(result string) {
	if !g.settled {
		g.settled, g.result = true, result
	}
}

// asyncEnd ends the flow outside its steps.
func (g *flowRig) asyncEnd(i, how int) {
	simrt.Logf("the flow is ended outside step %d: %d", i, how)
	switch {
	case how == 1 && g.p.Flux:
		g.say("complete")
		g.f.Complete()
	case how == 1:
		g.say(fmt.Sprintf("success %d", 100+i))
		g.f.Success(100 + i)
	case how == 2:
		g.say("error " + errFlow(i).Error())
		g.f.Error(errFlow(i))
	default:
		g.f.End()
	}
	g.ended = true
	simrt.Yield()
}

// awaitable is one that completes without a mono.
type awaitable struct {
	g     *flowRig
	p     AwPlan
	done  bool
	fns   []rx.FnFinally
	start func()
	async int
}

func (a *awaitable) signal() rx.SignalType {
	if a.p.Fail {
		return rx.SignalError
	}
	return rx.SignalComplete
}

func (a *awaitable) complete() {
	a.done = true
	a.g.waiting--
	fns := a.fns
	a.fns = nil
	for _, fn := range fns {
		fn(a.signal())
	}
}

func (a *awaitable) Async() {
	simrt.Yield()
	a.async++
	if a.async > 1 {
		return
	}
	if a.start != nil {
		a.start()
	}
}

func (a *awaitable) Notify(fn rx.FnFinally) {
	simrt.Yield()
	if a.p.Kind == awInNotify && !a.done {
		a.done = true
		a.g.waiting--
	}
	if a.done {
		fn(a.signal())
		return
	}
	a.fns = append(a.fns, fn)
}

func (g *flowRig) makeAwait(i, async int, p AwPlan) await.Awaitable {
	g.waiting++
	end := func() {
		if async != 0 && !g.ended {
			g.asyncEnd(i, async)
		}
	}
	settle := func(s mono.Sink[int], counted bool) {
		end()
		if counted {
			g.waiting--
		}
		if p.Fail {
			s.Error(errAwait)
		} else {
			s.Success(1)
		}
	}
	switch p.Kind {
	case awJust:
		g.waiting--
		return mono.Just(1)
	case awError:
		g.waiting--
		return mono.Error[int](errAwait)
	case awProcBefore:
		pr := mono.NewProcessor[int]()
		settle(pr, true)
		pr.Subscribe(mono.Subscribe[int]{})
		return pr
	case awProcTask, awMapped:
		pr := mono.NewProcessor[int]()
		var m mono.Mono[int] = pr
		if p.Kind == awMapped {
			m = mono.Map[int, int](pr, func(v int) (int, error) {
				simrt.Yield()
				if v > 0 && p.At%2 == 1 {
					return 0, errAwait
				}
				return v, nil
			})
		}
		m.Subscribe(mono.Subscribe[int]{})
		g.spawn("settler", p.At, func() { settle(pr, true) })
		return m
	case awProcLate:
		pr := mono.NewProcessor[int]()
		settle(pr, false)
		g.spawn("subscriber of an awaitable", p.At, func() {
			g.waiting--
			pr.Subscribe(mono.Subscribe[int]{})
		})
		return pr
	case awFlux:
		fx := flux.FromSlice([]int{1, 2, 3})
		g.waiting--
		fx.Subscribe(flux.Subscribe[int]{OnNext: func(int) { simrt.Yield() }})
		return fx
	}
	a := &awaitable{g: g, p: p}
	switch p.Kind {
	case awInAsync:
		a.start = a.complete
	case awTask:
		g.spawn("completer", p.At, func() { end(); a.complete() })
	case awAsyncTask:
		a.start = func() { g.spawn("completer", p.At, func() { end(); a.complete() }) }
	}
	return a
}

func (g *flowRig) step(i int) (await.Group, error) {
	simrt.Logf("step %d", i)
	switch {
	case g.inStep:
		fail("flow.overlap", "a step started while another one was running | step %d", i)
	case i != g.next:
		fail("flow.order", "a step ran out of order or again | step %d, want %d", i, g.next)
	case g.ended:
		fail("flow.after_end", "a step ran after the end of the flow | step %d", i)
	case g.waiting > 0:
		fail("flow.early", "a step started before all that the step before awaits was complete | step %d, %d open", i, g.waiting)
	}
	g.inStep = true
	g.next++
	simrt.Yield()
	s := g.p.Steps[i]
	for k := 0; k < s.Items; k++ {
		v := i*10 + k
		g.sent = append(g.sent, v)
		g.f.Next(v)
	}
	var group []await.Awaitable
	async := s.Async
	for _, a := range s.Await {
		k := 0
		switch a.Kind {
		case awTask, awAsyncTask, awProcTask, awMapped:
			k, async = async, 0
		}
		group = append(group, g.makeAwait(i, k, a))
		simrt.Yield()
	}
	g.inStep = false
	if g.ended {
		return await.All(group...)
	}
	switch s.Ret {
	case retErr:
		g.say("error " + errFlow(i).Error())
		g.ended = true
		return nil, errFlow(i)
	case retEnd:
		g.ended = true
		return g.f.End()
	case retDone:
		g.ended = true
		if g.p.Flux {
			g.say("complete")
			return g.f.Complete()
		}
		g.say(fmt.Sprintf("success %d", 100+i))
		return g.f.Success(100 + i)
	case retFErr:
		g.say("error " + errFlow(i).Error())
		g.ended = true
		return g.f.Error(errFlow(i))
	}
	return await.All(group...)
}

// end is one outcome of the flow seen by its observer.
func (g *flowRig) end(s string) {
	simrt.Yield()
	simrt.Logf("the observer got: %s", s)
	g.ends = append(g.ends, s)
	if len(g.ends) > 1 {
		fail("flow.twice", "a flow's result was signalled more than once | %v", g.ends)
	}
	if !g.settled {
		fail("flow.result", "a flow's result was signalled before there was one | %s", s)
	}
	if g.result != s {
		fail("flow.result", "the result that a flow signalled is not the one its steps gave | %s, want %s", s, g.result)
	}
	if g.p.Flux && fmt.Sprint(g.got) != fmt.Sprint(g.sent) {
		fail("flow.items", "the items that a flow signalled are not those its steps gave | %v, want %v", g.got, g.sent)
	}
}

func (g *flowRig) finally(s rx.SignalType) {
	simrt.Yield()
	g.finals = append(g.finals, s)
	if len(g.finals) > 1 || len(g.ends) != 1 {
		fail("flow.twice", "Finally ran more than once or before the result | %v", g.finals)
	}
	want := rx.SignalComplete
	if g.ends[0][0] == 'e' {
		want = rx.SignalError
	}
	if s != want {
		fail("flow.result", "Finally got another signal than the result's | %v, want %v", s, want)
	}
}

type (
	monoBlocker interface{ Block() (int, error) }
	fluxBlocker interface {
		Block(flux.Subscribe[int]) error
	}
)

func runFlow(x any) {
	p := x.(*FlowPlan)
	g := &flowRig{p: p}
	nontrivial()
	var steps []flow.StepFn
	for i := range p.Steps {
		i := i
		steps = append(steps, func() (await.Group, error) { return g.step(i) })
	}
	g.f = flow.New[int]()
	if cut := len(steps) / 2; p.Split {
		g.f.Steps(steps[:cut]...).Steps(steps[cut:]...)
	} else {
		g.f.Steps(steps...)
	}
	returned := !p.Block
	var start func()
	if p.Flux {
		fx := g.f.Flux()
		sub := flux.Subscribe[int]{OnNext: func(v int) {
			simrt.Yield()
			g.got = append(g.got, v)
			if len(g.ends) > 0 || len(g.got) > len(g.sent) || g.sent[len(g.got)-1] != v {
				fail("flow.items", "the items that a flow signalled are not those its steps gave | %v, want %v, ended %v", g.got, g.sent, g.ends)
			}
		}}
		if !p.Bare {
			sub.OnComplete = func() { g.end("complete") }
			sub.OnError = func(err error) { g.end("error " + err.Error()) }
			sub.Finally = g.finally
		}
		start = func() { fx.Subscribe(sub) }
		if b, ok := any(fx).(fluxBlocker); ok && p.Block {
			start = func() {
				if err := b.Block(sub); err != nil && "error "+err.Error() != g.result || err == nil && g.result != "complete" {
					fail("flow.result", "Block returned another result than the one the steps gave | %v, want %s", err, g.result)
				}
				returned = true
			}
		}
	} else {
		mn := g.f.Mono()
		sub := mono.Subscribe[int]{}
		if !p.Bare {
			sub.OnSuccess = func(v int) { g.end(fmt.Sprintf("success %d", v)) }
			sub.OnError = func(err error) { g.end("error " + err.Error()) }
			sub.Finally = g.finally
		}
		start = func() { mn.Subscribe(sub) }
		if b, ok := any(mn).(monoBlocker); ok && p.Block {
			start = func() {
				v, err := b.Block()
				if err != nil {
					g.end("error " + err.Error())
				} else {
					g.end(fmt.Sprintf("success %d", v))
				}
				returned = true
			}
		}
	}
	if p.Inline {
		start()
		for len(g.deferred) > 0 {
			k := simrt.Choose(len(g.deferred))
			fn := g.deferred[k]
			g.deferred = append(g.deferred[:k:k], g.deferred[k+1:]...)
			fn()
		}
	} else {
		simrt.GoNamed("subscriber", start)
	}
	simrt.WaitQuiescent()
	if !g.ended && g.next != len(p.Steps) {
		fail("flow.stuck", "a flow stopped although all it awaits is complete | %d of %d steps ran, %d awaitables open", g.next, len(p.Steps), g.waiting)
	}
	if g.settled && !returned {
		fail("flow.lost", "Block on a flow does not return although the flow has its result | %s", g.result)
	}
	if g.settled && !p.Bare && (len(g.ends) != 1 || (!p.Block || p.Flux) && len(g.finals) != 1) {
		fail("flow.lost", "a flow's result was not signalled | %s: %v %v", g.result, g.ends, g.finals)
	}
	if !g.settled && (len(g.ends) > 0 || p.Block && returned) {
		fail("flow.result", "a flow's result was signalled that no step gave | %v", g.ends)
	}
	simrt.StatN("flow_steps", int64(g.next))
	if g.settled {
		note("flow_results")
	}
}

var famFlow = &Family{Name: "flow", Gen: genFlow, New: func() any { return &FlowPlan{} }, Run: runFlow, Tidy: tidyFlow}

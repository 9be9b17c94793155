//go:build go1.22

package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math"

	"github.com/nanobus/iota/go/internal/verifsim/simrt"
	"github.com/nanobus/iota/go/internal/verifsim/simwz"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

// A guest built with something else than iota's guest code: it keeps to the protocol but spells it its own way, packs
// its frames as it likes, and its memory grows while it runs.

// ForOp is one request to or from the foreign guest.
type ForOp struct {
	Up    bool
	K     int
	Via   int
	Delay int // ms; up: the delivery it is made in
	Req   int
	Sz    int // of each element
	N     int // elements of the answer
	Err   bool
	InN   int // elements of a channel's input
	InErr bool
	Init  int // the consumer's first demand
	Step  int // what it asks for when it has got that; 0: everything at first
	Join  bool
	Async bool
	Md    bool // the empty metadata flag, other error codes
}

// ForPlan is a run with a foreign guest.
type ForPlan struct {
	Ops   []ForOp
	Alone bool // a __send for each frame
	Chunk int  // elements a stream sends in one delivery
	Grow  int  // every so many deliveries; 0: never
	Move  bool // growing moves the buffers
	Early bool // its requests begin before its operations are known
}

func genFor(r *simrt.Rand, prof string, thorough bool) any {
	p := &ForPlan{Alone: r.Bool(0.4), Chunk: pick(r, 1, 2, 5, 100), Early: r.Bool(0.3)}
	if r.Bool(0.6) {
		p.Grow, p.Move = 1+r.Intn(4), r.Bool(0.5)
	}
	n := 1 + r.Intn(8)
	if r.Bool(0.1) {
		n += 20
	}
	for ; n > 0; n-- {
		o := ForOp{Up: r.Bool(0.5), K: r.Pick(4, 2, 4, 4), Via: r.Intn(4), Req: r.Intn(200), Sz: pick(r, 0, 3, 40, 200), N: pick(r, 0, 1, 2, 5, 12), InN: pick(r, 0, 1, 2, 5, 12), Err: r.Bool(0.25), InErr: r.Bool(0.15), Join: r.Bool(0.5), Async: r.Bool(0.5), Md: r.Bool(0.3)}
		if r.Bool(0.5) {
			o.Delay = r.Intn(10)
		}
		if r.Bool(0.1) {
			o.Sz = 1000 + r.Intn(6000)
		}
		if r.Bool(0.1) {
			o.Req = 4000 + r.Intn(11000)
		}
		o.Init, o.Step = 1+r.Intn(4), pick(r, 0, 1, 1, 2, 5)
		p.Ops = append(p.Ops, o)
	}
	return p
}

func tidyFor(x any) {
	p := x.(*ForPlan)
	clamp(&p.Chunk, 1, 100)
	clamp(&p.Grow, 0, 1000)
	if len(p.Ops) > 100 {
		p.Ops = p.Ops[:100]
	}
	for i := range p.Ops {
		o := &p.Ops[i]
		clamp(&o.K, 0, 3)
		clamp(&o.Req, 0, 15000)
		clamp(&o.Sz, 0, 12000)
		clamp(&o.N, 0, 40)
		clamp(&o.InN, 0, 40)
		clamp(&o.Init, 1, 1000)
		clamp(&o.Step, 0, 1000)
		clamp(&o.Delay, 0, 1000)
	}
}

// flowEnd is one direction of a request as its consumer sees it.
type flowEnd struct {
	got, asked int
	term       string
}

type forOp struct {
	o  *ForOp
	i  int
	id uint32

	issued, called bool
	out, in        flowEnd // what arrived of the answer and of the input

	// the guest's own side of it
	credit, sent int
	ended        bool
	failed       [2]bool // the producer of the answer, of the input has failed
}

// broken: the other direction of the channel failed, which may cut this one short.
func (x *forOp) broken(dir byte) bool {
	return x.o.K == 3 && (dir == 'o' && x.failed[1] || dir == 'i' && x.failed[0])
}

type forRig struct {
	p          *ForPlan
	ops        []*forOp
	byID       map[uint32]*forOp
	inst       *host.Instance
	mod        *simwz.Wild
	send, recv uint32
	count      int
	out        [][]byte
	moved      int
}

func (o *ForOp) n(dir byte) (int, bool) {
	if dir == 'o' {
		return o.N, o.Err
	}
	return o.InN, o.InErr
}

func (x *forOp) cls() string { return kindCls[x.o.K] }

func (x *forOp) name() string {
	if x.o.Up {
		return fmt.Sprintf("%s %d of the foreign guest", kindName[x.o.K], x.i)
	}
	return fmt.Sprintf("%s %d to the foreign guest", kindName[x.o.K], x.i)
}

// element is an element arriving at its consumer.
func (x *forOp) element(e *flowEnd, dir byte, data []byte) {
	n, _ := x.o.n(dir)
	if e.term != "" {
		fail(x.cls()+".after", "an element arrived after the end of its stream | %s, direction %c", x.name(), dir)
	}
	if e.got >= n || !bytes.Equal(data, body(x.i, dir, e.got, x.o.Sz)) {
		fail(x.cls()+".elements", "an element that was not the next one sent arrived | %s, direction %c: element %d of %d is %s", x.name(), dir, e.got, n, show(data))
	}
	e.got++
	if e.got > e.asked {
		fail("dem.more", "more elements arrived than were asked for | %s, direction %c: %d of %d", x.name(), dir, e.got, e.asked)
	}
}

func (x *forOp) end(e *flowEnd, dir byte, what string) {
	simrt.Logf("%s: direction %c ends: %s", x.name(), dir, what)
	n, bad := x.o.n(dir)
	if e.term != "" {
		fail(x.cls()+".terms", "a stream ended more than once | %s, direction %c: %q, %q", x.name(), dir, e.term, what)
	}
	e.term = what
	want := "complete"
	if bad {
		want = "error " + errText(x.i, dir)
	}
	if x.broken(dir) && what != "complete" {
		return
	}
	if e.got != n || !sameTerm(what, want) {
		fail(x.cls()+".end", "a stream did not end as its producer ended it | %s, direction %c: %q after %d elements, want %q after %d", x.name(), dir, what, e.got, want, n)
	}
}

// ask is what the consumer asks for next, 0 for nothing.
func (x *forOp) ask(e *flowEnd) int {
	n := 0
	switch {
	case x.o.Step == 0 && e.asked == 0:
		n = math.MaxInt32
	case e.asked == 0:
		n = x.o.Init
	case e.got == e.asked && e.term == "":
		n = x.o.Step
	}
	e.asked += n
	return n
}

// ---- the guest ----

func (g *forRig) hostCall(name string, args ...any) { simwz.HostCall(wildK, name, args...) }

func (g *forRig) post(x *forOp, f wf) {
	f.ID = x.id
	if x.o.Md && f.Md == nil && (f.T == wPayload) {
		f.HasMd = true
	}
	if f.T == wError {
		f.N = 0x201
		if x.o.Md {
			f.N = 0x301
		}
	}
	g.out = append(g.out, f.wire())
}

func (g *forRig) flush() {
	for len(g.out) > 0 {
		var b []byte
		for len(g.out) > 0 && len(b)+len(g.out[0]) <= 16*1024 {
			b = append(b, g.out[0]...)
			g.out = g.out[1:]
			if g.p.Alone {
				break
			}
		}
		copy(g.mod.Mem[g.recv:], b)
		g.hostCall("__send", uint32(len(b)))
		for i := range b { // the buffer is the guest's
			g.mod.Mem[int(g.recv)+i] = 0xA5
		}
	}
}

func (g *forRig) request(x *forOp) {
	o := x.o
	x.id = uint32(2*x.i + 1)
	x.issued = true
	g.byID[x.id] = x
	f := wf{T: wRR + o.K, HasMd: true, Md: reqMeta(uint32(o.K), 0, meta(x.i, 'q', 0, 5)), Data: body(x.i, 'q', 0, o.Req)}
	if o.K >= 2 {
		f.N = uint32(x.ask(&x.out))
	}
	if o.K == 3 && o.InN == 0 && !o.InErr && o.Join {
		f.Flags |= wComplete
		x.ended = true
	}
	simrt.Logf("%s is made", x.name())
	g.post(x, f)
}

// due makes the requests whose time has come.
func (g *forRig) due(all bool) {
	for _, x := range g.ops {
		if x.o.Up && !x.issued && (all || x.o.Delay <= g.count) {
			g.request(x)
		}
	}
}

// pump sends what the guest's side of x may send now.
func (g *forRig) pump(x *forOp) {
	o := x.o
	dir := byte('o')
	if o.Up {
		dir = 'i'
	}
	n, bad := o.n(dir)
	if x.ended || (!o.Up && o.K < 2) || (o.Up && o.K != 3) {
		return
	}
	k := 0
	for x.sent < n && x.credit > 0 && k < g.p.Chunk {
		f := wf{T: wPayload, Flags: wNext, Data: body(x.i, dir, x.sent, o.Sz)}
		x.sent++
		x.credit--
		k++
		if x.sent == n && !bad && o.Join {
			f.Flags |= wComplete
			x.ended = true
		}
		g.post(x, f)
	}
	if x.sent == n && !x.ended {
		x.ended = true
		if bad {
			x.failed[b2i(dir == 'i')] = true
			g.post(x, wf{T: wError, Data: []byte(errText(x.i, dir))})
		} else {
			g.post(x, wf{T: wPayload, Flags: wComplete})
		}
	}
}

// arrived lets the guest ask for more of what it consumes.
func (g *forRig) arrived(x *forOp, e *flowEnd, dir byte, f wf) {
	switch f.T {
	case wError:
		x.end(e, dir, "error "+string(f.Data))
	default:
		if f.Flags&wNext != 0 {
			x.element(e, dir, f.Data)
		}
		if f.Flags&wComplete != 0 {
			x.end(e, dir, "complete")
		} else if n := x.ask(e); n > 0 {
			g.post(x, wf{T: wReqN, N: uint32(n)})
		}
	}
}

func (g *forRig) frame(f wf) {
	if f.T <= wRC {
		if len(f.Md) >= 4 && f.Md[3] == 99 { // a prod
			return
		}
		if len(f.Data) < 8 || int(f.Data[2]) >= len(g.ops) || g.byID[f.ID] != nil || f.ID&1 == 1 {
			fail("wire.request", "the guest was given a request nobody made | %v", f)
		}
		x := g.ops[f.Data[2]]
		if x.o.Up || x.called || f.T != wRR+x.o.K || !bytes.Equal(f.Data, body(x.i, 'q', 0, x.o.Req)) || !bytes.Equal(f.Md, reqMeta(uint32(x.o.K), 0, meta(x.i, 'q', 0, 5))) {
			fail(x.cls()+".request", "the guest was given a request nobody made | %s: %v", x.name(), f)
		}
		x.called = true
		x.id = f.ID
		g.byID[f.ID] = x
		switch x.o.K {
		case 0:
			if x.o.Err {
				g.post(x, wf{T: wError, Data: []byte(errText(x.i, 'o'))})
			} else {
				g.post(x, wf{T: wPayload, Flags: wNext | wComplete, Data: body(x.i, 'r', 0, x.o.Sz)})
			}
		case 3:
			if f.Flags&wComplete != 0 {
				x.end(&x.in, 'i', "complete")
			} else if n := x.ask(&x.in); n > 0 {
				g.post(x, wf{T: wReqN, N: uint32(n)})
			}
		}
		x.credit = int(f.N)
		return
	}
	x := g.byID[f.ID]
	if x == nil {
		fail("wire.stream", "the guest was given a frame of a stream there is not | %v", f)
	}
	switch f.T {
	case wReqN:
		x.credit += int(f.N)
	case wCancel:
		if x.broken('i') || x.broken('o') {
			return
		}
		fail("can.cancel", "the guest was told of a cancellation nobody made | %s", x.name())
	case wPayload, wError:
		switch {
		case x.o.Up && x.o.K == 0:
			switch {
			case f.T == wError && x.o.Err && string(f.Data) == errText(x.i, 'o'):
			case f.T == wPayload && !x.o.Err && bytes.Equal(f.Data, body(x.i, 'r', 0, x.o.Sz)):
			default:
				fail("rr.wrong", "a request/response call got an answer its handler did not give | %s: %v", x.name(), f)
			}
			if x.out.term != "" {
				fail("rr.twice", "a request/response call ended more than once | %s", x.name())
			}
			x.out.term = "answered"
		case x.o.Up && x.o.K >= 2:
			g.arrived(x, &x.out, 'o', f)
		case !x.o.Up && x.o.K == 3:
			g.arrived(x, &x.in, 'i', f)
		default:
			fail("wire.stream", "the guest was given a frame that does not belong to the request | %s: %v", x.name(), f)
		}
	}
}

func (g *forRig) deliver(pos uint32) {
	g.count++
	note("foreign_deliveries")
	if pos > 16*1024 {
		fail("wasm.oob", "the host announces more than fits the buffer | %d bytes", pos)
	}
	var ps frameParser
	ps.feed(append([]byte(nil), g.mod.Mem[g.send:g.send+pos]...))
	if ps.bad != nil || len(ps.buf) > 0 {
		fail("wire.delivery", "the guest was given what is not a sequence of frames | %v, %d bytes left over", ps.bad, len(ps.buf))
	}
	for i := range g.mod.Mem[g.send : g.send+pos] { // the guest may use it
		g.mod.Mem[int(g.send)+i] = 0x5A
	}
	if g.p.Grow > 0 && g.count%g.p.Grow == 0 && len(g.mod.Mem) < 1<<21 {
		note("foreign_memory_grows")
		old := g.mod.Mem
		g.mod.Mem = append(append([]byte(nil), old...), make([]byte, 0x10000)...)
		for i := range old { // nothing of the old memory is the guest's any more
			old[i] = 0xEE
		}
		if g.p.Move {
			g.buffers()
		}
	}
	for _, f := range ps.frames {
		simrt.Logf("the foreign guest gets %s of stream %d", wName[f.T], f.ID)
		g.frame(f)
	}
	g.due(false)
	for _, x := range g.ops {
		if x.id != 0 {
			g.pump(x)
		}
	}
	g.flush()
}

func (g *forRig) buffers() {
	g.moved++
	g.send = 0x1000 + uint32(g.moved%3)*0x9000
	g.recv = g.send + 0x4800
	g.hostCall("__init_buffers", g.send, g.recv)
}

func (g *forRig) oplist() {
	var t operations.Table
	for k := 0; k < 4; k++ {
		t = append(t, operations.Operation{Type: operations.RequestType(k + 1), Direction: operations.Import, Namespace: "host", Operation: "f", Index: uint32(k)})
		t = append(t, operations.Operation{Type: operations.RequestType(k + 1), Direction: operations.Export, Namespace: "foreign", Operation: "f", Index: uint32(k)})
	}
	b := listBytes(t)
	copy(g.mod.Mem[0x1E000:], b)
	g.hostCall("__op_list", uint32(0x1E000), uint32(len(b)))
}

// ---- the host ----

func (g *forRig) handled(p pl, kind int) *forOp {
	d := p.Data()
	if len(d) < 8 || int(d[2]) >= len(g.ops) {
		fail(kindCls[kind]+".request", "a handler was invoked with bytes nobody sent | %s", show(d))
	}
	x := g.ops[d[2]]
	if !x.o.Up || x.o.K != kind || !x.issued || !bytes.Equal(d, body(x.i, 'q', 0, x.o.Req)) || !bytes.HasSuffix(p.Metadata(), meta(x.i, 'q', 0, 5)) {
		fail(kindCls[kind]+".request", "a handler was invoked with bytes nobody sent | %s handler: %s", kindName[kind], show(d))
	}
	if x.called {
		fail(kindCls[kind]+".calls", "a handler ran more than once for one request | %s", x.name())
	}
	x.called = true
	keep(x.name(), d)
	return x
}

// source is the stream the host produces in direction dir of x.
func (g *forRig) source(x *forOp, dir byte) flux.Flux[pl] {
	n, bad := x.o.n(dir)
	return flux.Create(func(sink flux.Sink[pl]) {
		sent, demand, busy, over := 0, 0, false, false
		run := func() {
			if busy {
				return
			}
			busy = true
			for sent < n && demand > 0 && !over {
				demand--
				sent++
				sink.Next(payload.New(body(x.i, dir, sent-1, x.o.Sz)))
				simrt.Yield()
			}
			busy = false
			if sent == n && !over {
				over = true
				if bad {
					x.failed[b2i(dir == 'i')] = true
					sink.Error(errors.New(errText(x.i, dir)))
				} else {
					sink.Complete()
				}
			}
		}
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(k int) {
				demand += min(k, math.MaxInt32)
				if x.o.Async {
					simrt.GoNamed("producer of "+x.name(), run)
				} else {
					run()
				}
			},
			Cancel: func() {
				if !over && !x.broken(dir) {
					fail("can.cancel", "a producer was cancelled though nobody cancelled | %s, direction %c", x.name(), dir)
				}
			},
		})
		if n == 0 && !over {
			run()
		}
	})
}

func (g *forRig) consume(x *forOp, e *flowEnd, dir byte, f flux.Flux[pl]) {
	var sub rx.Subscription
	more := func() {
		if n := x.ask(e); n > 0 {
			sub.Request(n)
		}
	}
	f.Subscribe(flux.Subscribe[pl]{
		NoRequest: true,
		OnNext: func(p pl) {
			simrt.Yield()
			x.element(e, dir, p.Data())
			keep(x.name(), p.Data())
			more()
		},
		OnComplete: func() { x.end(e, dir, "complete") },
		OnError:    func(err error) { x.end(e, dir, "error "+err.Error()) },
	})
	sub = f.Subscription()
	more()
}

func (g *forRig) link() {
	for _, op := range g.inst.Operations() {
		if op.Direction != operations.Import {
			continue
		}
		switch op.Type {
		case operations.RequestResponse:
			g.inst.SetRequestResponseHandler(op.Index, func(ctx context.Context, p pl) mono.Mono[pl] {
				x := g.handled(p, 0)
				answer := payload.New(body(x.i, 'r', 0, x.o.Sz))
				err := errors.New(errText(x.i, 'o'))
				if x.o.Async {
					m := mono.NewProcessor[pl]()
					simrt.GoNamed("answer of "+x.name(), func() {
						simrt.TimeSleep(ms(simrt.Choose(5)))
						if x.o.Err {
							m.Error(err)
						} else {
							m.Success(answer)
						}
					})
					return m
				}
				if x.o.Err {
					return mono.Error[pl](err)
				}
				return mono.Just[pl](answer)
			})
		case operations.FireAndForget:
			g.inst.SetFireAndForgetHandler(op.Index, func(ctx context.Context, p pl) { g.handled(p, 1) })
		case operations.RequestStream:
			g.inst.SetRequestStreamHandler(op.Index, func(ctx context.Context, p pl) flux.Flux[pl] {
				return g.source(g.handled(p, 2), 'o')
			})
		case operations.RequestChannel:
			g.inst.SetRequestChannelHandler(op.Index, func(ctx context.Context, p pl, in flux.Flux[pl]) flux.Flux[pl] {
				x := g.handled(p, 3)
				g.consume(x, &x.in, 'i', in)
				return g.source(x, 'o')
			})
		}
	}
}

func (g *forRig) down(x *forOp) {
	ctx := context.Background()
	o := x.o
	p := payload.New(body(x.i, 'q', 0, o.Req), reqMeta(uint32(o.K), 0, meta(x.i, 'q', 0, 5)))
	x.issued = true
	simrt.Logf("%s is made", x.name())
	switch o.K {
	case 0:
		m := g.inst.RequestResponse(ctx, p)
		end := func(v pl, err error) {
			simrt.Logf("%s: outcome %v", x.name(), err)
			if x.out.term != "" {
				fail("rr.twice", "a request/response call ended more than once | %s", x.name())
			}
			x.out.term = "answered"
			if (err != nil) != o.Err || (err != nil && err.Error() != errText(x.i, 'o')) || (err == nil && !bytes.Equal(v.Data(), body(x.i, 'r', 0, o.Sz))) {
				fail("rr.wrong", "a request/response call got an answer its handler did not give | %s: %v %v", x.name(), v, err)
			}
			if err == nil {
				keep(x.name(), v.Data())
			}
		}
		if o.Via == 0 {
			end(m.Block())
		} else {
			m.Subscribe(mono.Subscribe[pl]{OnSuccess: func(v pl) { end(v, nil) }, OnError: func(err error) { end(nil, err) }})
		}
	case 1:
		g.inst.FireAndForget(ctx, p)
	case 2:
		g.consume(x, &x.out, 'o', g.inst.RequestStream(ctx, p))
	default:
		g.consume(x, &x.out, 'o', g.inst.RequestChannel(ctx, p, g.source(x, 'i')))
	}
}

func (g *forRig) done() string {
	for _, x := range g.ops {
		switch {
		case !x.issued:
			return x.name() + " was never made"
		case !x.called:
			return x.cls() + ".lost\x00a request never reached its handler | " + x.name()
		case x.o.K != 1 && x.out.term == "" && !x.broken('o'):
			return x.cls() + ".silent\x00a call never ended | " + x.name() + fmt.Sprintf(": %d elements of %d asked for", x.out.got, x.out.asked)
		case x.o.K == 3 && x.in.term == "" && !x.broken('i'):
			return x.cls() + ".silent\x00the input of a channel never ended | " + x.name() + fmt.Sprintf(": %d elements of %d asked for", x.in.got, x.in.asked)
		}
	}
	return ""
}

func runFor(plan any) {
	p := plan.(*ForPlan)
	g := &forRig{p: p, byID: map[uint32]*forOp{}, moved: -1}
	keptBytes = nil
	for i := range p.Ops {
		g.ops = append(g.ops, &forOp{i: i, o: &p.Ops[i]})
	}
	g.mod = &simwz.Wild{Mem: make([]byte, 0x20000), Exports: map[string]any{
		"__wasmrs_init": func(a, b, c uint64) { g.buffers() },
		"__wasmrs_send": func(pos uint64) { g.deliver(uint32(pos)) },
		"__wasmrs_op_list_request": func() {
			g.oplist()
		},
	}}
	simwz.Wilds = func(int) *simwz.Wild { return g.mod }
	ctx := context.Background()
	h, err := host.New(ctx)
	if err != nil {
		fail("setup", "host.New failed | %v", err)
	}
	m, err := h.Compile(ctx, simwz.Source(wildK))
	if err != nil {
		harness("compile: %v", err)
	}
	if g.inst, err = m.Instantiate(ctx); err != nil {
		fail("wasm.start", "a module could not be instantiated | %v", err)
	}
	g.link()
	nontrivial()
	for _, x := range g.ops {
		x := x
		if x.o.Up {
			continue
		}
		simrt.GoNamed(x.name(), func() {
			simrt.TimeSleep(ms(x.o.Delay))
			g.down(x)
		})
	}
	simrt.WaitQuiescent()
	// a guest acts only when the host calls it
	for round := 0; round < 300 && g.done() != ""; round++ {
		if round > 0 {
			g.count += 10
		}
		simrt.GoNamed("prod", func() { g.inst.FireAndForget(ctx, payload.New(nil, reqMeta(99, 0, nil))) })
		simrt.WaitQuiescent()
	}
	if s := g.done(); s != "" {
		if k := bytes.IndexByte([]byte(s), 0); k >= 0 {
			fail(s[:k], "%s", s[k+1:])
		}
		harness("%s", s)
	}
	if o := simwz.Concurrent(); len(o) > 0 {
		fail("wasm.concurrent", "two threads were inside one guest at the same time | %v", o)
	}
	for i := range p.Ops {
		simrt.Stat("foreign_ops_" + kindCls[p.Ops[i].K])
	}
	checkKept()
}

var famFor = &Family{Name: "foreignguest", Gen: genFor, New: func() any { return &ForPlan{} }, Run: runFor, Tidy: tidyFor}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

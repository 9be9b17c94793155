//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"strings"

	"github.com/nanobus/iota/go/internal/verifsim/gspec"
	"github.com/nanobus/iota/go/internal/verifsim/simrt"
	"github.com/nanobus/iota/go/internal/verifsim/simwz"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

// WOp is one request between the host and a guest.
type WOp struct {
	Op
	G    int // guest
	Up   bool
	By   int // the op whose handler makes this request; -1: a task of the host
	Par  int // what an upward request names as its parent: 0 nothing, 1 the stream being served, 2 a stream that does not exist
	Wait bool
	Kids bool // answers when the requests its handler made have ended
}

// WClose closes an instance.
type WClose struct {
	G, At, Spin int
	Twice       bool
}

// WPlan is a run over real wasmRS host instances and guests.
type WPlan struct {
	Guests int
	Ops    []WOp
	Closes []WClose
	After  bool
	Leak   bool // look at what the idle instances hold
	Share  bool // one host for all modules
}

const wireMax = 16 * 1024

type wzGuest struct {
	g      *wzRig
	k      int
	inst   *host.Instance
	closed bool // Close has been called
	imp    [4]uint32
	exp    [4]uint32
}

type wzRig struct {
	p      *WPlan
	h      *host.Host
	ops    []*wzOp
	guests []*wzGuest
	route  func(st *wzOp, x *wzGuest)
}

type wzOp struct {
	opState
	w     *WOp
	kids  []*wzOp
	later func()

	issuedAt, issuedTime int64
}

var wz *wzRig

type callKey struct{}

func (st *wzOp) over() bool {
	if !st.issued {
		return false
	}
	return st.opState.over()
}

func (st *wzOp) kidsOver() bool {
	for _, k := range st.kids {
		if !k.over() {
			return false
		}
	}
	return true
}

// kidDone lets a guest answer that waited for its own requests go out; runs inside the guest.
func (st *wzOp) kidDone() {
	if st.w.By < 0 {
		return
	}
	p := wz.ops[st.w.By]
	if p.later == nil || !p.kidsOver() {
		return
	}
	f := p.later
	p.later = nil
	f()
}

// ---- sizes ----

// wireSize of a frame with this metadata and data; the header sizes are upper bounds.
func wireSize(md, data int) int { return 3 + 6 + 4 + 3 + md + data }

func surelyFits(md, data int) bool { return wireSize(md, data) <= wireMax-16 }

func (o *Op) reqFits() bool {
	md := 8
	if o.Md > 0 {
		md += o.Md
	}
	return surelyFits(md, 8+o.Req)
}

func (o *Op) ansFits() bool { return surelyFits(o.Md, 8+o.Sz) && o.ErrPad < wireMax/2 }

// ---- states ----

func (g *wzRig) states() {
	keptBytes = nil
	for i := range g.p.Ops {
		w := &g.p.Ops[i]
		o := &w.Op
		st := &wzOp{w: w}
		st.op, st.id = o, i
		what := "down"
		if w.Up {
			what = "up"
		}
		switch o.K {
		case 2, 3:
			st.out = &link{name: fmt.Sprintf("op %d (%s %s) answer stream", i, what, kindName[o.K]), cls: kindCls[o.K], op: i, dir: 'o', N: o.N, Err: o.Err, ErrPad: o.ErrPad, Size: o.Sz, Md: o.Md,
				PMode: o.P, CMode: o.CM, Page: o.Page, Ext: o.Ext, CancelK: o.Cancel - 1, CIn: o.CIn, pdelay: o.PD, cdelay: o.CD,
				inGuest: !w.Up, guestConsumer: w.Up, big: !o.ansFits(), whenDone: st.kidDone}
			if o.K == 3 {
				st.in = &link{name: fmt.Sprintf("op %d (%s %s) input stream", i, what, kindName[o.K]), cls: "rc", op: i, dir: 'i', N: o.InN, Err: o.InErr, ErrPad: o.ErrPad, Size: o.Sz, Md: o.Md,
					PMode: o.InP, CMode: o.InCM, Page: o.InPage, Ext: o.InExt, CancelK: o.InCancel - 1, CIn: o.CIn, pdelay: o.PD, cdelay: o.CD,
					inGuest: w.Up, guestConsumer: !w.Up, big: !o.ansFits()}
				st.in.peer, st.out.peer = st.out, st.in
				st.in.bad = o.Bad != 0 || !o.reqFits()
				if o.RC == 2 {
					st.out.echo, st.in.by = st.in, st.out
				}
			}
		}
		g.ops = append(g.ops, st)
	}
	for _, st := range g.ops {
		if st.w.By >= 0 {
			p := g.ops[st.w.By]
			p.kids = append(p.kids, st)
		}
	}
}

// ---- guest side ----

var wzExports, wzImports []gspec.Op

func init() {
	for _, n := range []string{"decoy", "op", "decoy2"} {
		for k := 0; k < 4; k++ {
			wzExports = append(wzExports, gspec.Op{Kind: k, Namespace: "sim", Name: n})
		}
	}
	for _, n := range []string{"decoy", "op", "unset"} {
		for k := 3; k >= 0; k-- {
			wzImports = append(wzImports, gspec.Op{Kind: k, Namespace: "host", Name: n})
		}
	}
}

func (x *wzGuest) Exports() []gspec.Op { return wzExports }
func (x *wzGuest) Imports() []gspec.Op { return wzImports }
func (x *wzGuest) Imported(op gspec.Op, index uint32) {
	if op.Name == "op" {
		x.imp[op.Kind] = index
	}
}

func (x *wzGuest) Serve(op gspec.Op, p gspec.Payload) *gspec.Served {
	if op.Name != "op" {
		fail(kindCls[op.Kind]+".route", "a request reached an operation it did not name | guest %d, %s", x.k, op.Name)
	}
	st := x.g.opOf(nil, p, op.Kind, x, false)
	return st.serve(func(k *wzOp) *gspec.Call { return k.call(x.imp[k.op.K], x.k) })
}

// serve is how the guest answers the op.
func (st *wzOp) serve(call func(kid *wzOp) *gspec.Call) *gspec.Served {
	o := st.op
	s := &gspec.Served{Mode: min(o.H, 2), Out: st.out, In: st.in, RC: o.RC}
	if o.RC == 1 {
		s.RC = 0
	}
	if st.w.Kids {
		s.Mode = 3
	}
	s.Value = payload.New(body(st.id, 'r', 0, o.Sz), meta(st.id, 'r', 0, o.Md))
	if o.Err {
		s.Err = errors.New(errPad(st.id, 'r', o.ErrPad))
		if s.Mode == 2 || s.Mode == 0 {
			note("guest_error_answers")
		}
	}
	s.Done = func() {
		st.hdone = true
		simrt.Logf("guest answers op %d", st.id)
	}
	s.Later = func(f func()) {
		if st.kidsOver() {
			f()
		} else {
			st.later = f
		}
	}
	if o.HWait > 0 && o.K < 2 && simrt.ChooseP(0.3) {
		simrt.TimeSleep(ms(o.HWait)) // a slow guest
	}
	if o.K == 1 {
		st.hdone = true
	}
	for _, k := range st.kids {
		s.Calls = append(s.Calls, call(k))
	}
	return s
}

func (st *wzOp) call(index uint32, guest int) *gspec.Call {
	o := st.op
	st.issuedAt, st.issuedTime = int64(simrt.Event()), simrt.Now()
	c := &gspec.Call{Kind: o.K, Index: index, Parent: st.w.Par, RawPar: uint32(40001 + st.id*2), Data: body(st.id, 'q', 0, o.Req), Md: meta(st.id, 'q', 0, o.Md), Out: st.out, In: st.in, Via: o.Via}
	if st.id%2 == 1 {
		c.RawPar++
	}
	if o.Bad == 1 {
		c.Index = badIndex(st.id)
	}
	if o.Bad >= 2 {
		c.Short = min(o.Bad-2, 7) + 1
	}
	st.issued = true
	c.Value = func(p gspec.Payload) { st.success(p); st.kidDone() }
	c.Failed = func(err error) { st.outcome("error " + err.Error()); st.kidDone() }
	c.Asked = func() { note("outcomes_asked_again"); st.again++ }
	c.Again = st.repeated
	fin := 0
	c.Finally = func() {
		fin++
		if fin > 1 {
			fail("rr.twice", "a request/response call ended more than once | op %d: Finally ran %d times", st.id, fin)
		}
	}
	if o.K == 1 {
		st.ended = true
	}
	simrt.Logf("op %d (%s): issued by guest %d, parent kind %d", st.id, kindName[o.K], guest, st.w.Par)
	return c
}

func badIndex(id int) uint32 {
	switch id % 3 {
	case 0:
		return uint32(3 + id*1000)
	case 1:
		return 0xFFFFFFFF
	}
	return 2 // imported but nobody set a handler; exported at 2: see below
}

// opOf identifies the op a request belongs to and checks what arrived.
func (g *wzRig) opOf(ctx context.Context, p gspec.Payload, kind int, x *wzGuest, up bool) *wzOp {
	d := p.Data()
	if len(d) < 8 || d[0] != 'q' || d[7] != 0x5A {
		fail(kindCls[kind]+".request", "a handler was invoked with bytes nobody sent | %s: %s", kindName[kind], show(d))
	}
	id := int(binary.BigEndian.Uint16(d[1:]))
	if id >= len(g.ops) {
		fail(kindCls[kind]+".request", "a handler was invoked with bytes nobody sent | %s: %s", kindName[kind], show(d))
	}
	st := g.ops[id]
	o := st.op
	if want := body(id, 'q', 0, o.Req); !bytes.Equal(d, want) {
		fail(kindCls[kind]+".request", "a handler was invoked with bytes nobody sent | %s %d: data %s, sent %s", kindName[kind], id, show(d), show(want))
	}
	md, got := meta(id, 'q', 0, o.Md), p.Metadata()
	if !bytes.Equal(got, md) && !(len(got) >= 8 && bytes.Equal(got[8:], md)) {
		fail(kindCls[kind]+".request", "a handler was invoked with bytes nobody sent | %s %d: metadata %s, sent %s", kindName[kind], id, show(got), show(md))
	}
	if o.K != kind {
		fail(kindCls[kind]+".request", "a request reached a handler of another kind | %s %d reached the %s handler", kindName[o.K], id, kindName[kind])
	}
	if g.route != nil {
		g.route(st, x)
	} else if st.w.Up != up || st.w.G != x.k {
		fail(kindCls[kind]+".route", "a request reached the wrong party | op %d", id)
	}
	st.calls++
	simrt.Logf("handler of op %d (%s) invoked", id, kindName[kind])
	if st.calls > 1 {
		fail(kindCls[kind]+".calls", "a handler ran more than once for one request | %s %d", kindName[kind], id)
	}
	if o.Bad != 0 {
		fail("err.bad", "an invalid request reached a handler | %s %d", kindName[kind], id)
	}
	keep(fmt.Sprintf("request %d data", id), d)
	keep(fmt.Sprintf("request %d metadata", id), got)
	if up {
		g.checkContext(ctx, st, x)
	}
	return st
}

func (g *wzRig) checkContext(ctx context.Context, st *wzOp, x *wzGuest) {
	if ctx == nil {
		fail("ctx.nil", "a host handler got no context | op %d", st.id)
	}
	if x.closed {
		return
	}
	v, has := ctx.Value(callKey{}).(int)
	switch {
	case st.w.Par != 1:
		if has {
			fail("ctx.foreign", "a call without a live parent ran in a caller's context | op %d ran in the context of op %d", st.id, v)
		}
		note("calls_without_parent")
	default:
		par := g.ops[st.w.By]
		if has && v != par.id {
			fail("ctx.foreign", "a nested call ran in the context of another caller | op %d, made while serving op %d, ran in the context of op %d", st.id, par.id, v)
		}
		live := false
		switch par.op.K {
		case 0:
			live = !par.hdone && !par.ended
		case 2, 3:
			l := par.out
			live = !l.ended && !l.done && l.cancelStart == 0 && l.subbed && l.emitted < l.N && !l.peerBroke() && !l.big && (par.in == nil || !par.in.big)
			if l.echo != nil {
				live = false
			}
		}
		if live && !has {
			fail("ctx.lost", "a nested call did not run in the context of the call that made it | op %d, made while serving op %d, which is still unanswered", st.id, par.id)
		}
		if has {
			note("calls_in_parent_context")
			if live {
				note("calls_with_live_parent")
			}
		}
	}
	if err := ctx.Err(); err != nil {
		fail("ctx.dead", "a host handler got a dead context | op %d: %v", st.id, err)
	}
}

// ---- host side ----

func (g *wzRig) link(x *wzGuest) {
	table := x.inst.Operations()
	n := 0
	for _, op := range table {
		kind := map[operations.RequestType]int{operations.RequestResponse: 0, operations.FireAndForget: 1, operations.RequestStream: 2, operations.RequestChannel: 3}[op.Type]
		if op.Direction == operations.Export {
			if op.Operation == "op" {
				x.exp[kind] = op.Index
				n++
			}
			continue
		}
		if op.Operation == "unset" {
			continue
		}
		n++
		decoy := op.Operation != "op"
		set := func(ctx context.Context, p pl) *wzOp {
			if decoy {
				fail(kindCls[kind]+".route", "a request reached an operation it did not name | host, %s", op.Operation)
			}
			st := g.opOf(ctx, p, kind, x, true)
			g.hostKids(ctx, st)
			return st
		}
		switch kind {
		case 0:
			x.inst.SetRequestResponseHandler(op.Index, func(ctx context.Context, p pl) mono.Mono[pl] {
				return set(ctx, p).respond()
			})
		case 1:
			x.inst.SetFireAndForgetHandler(op.Index, func(ctx context.Context, p pl) {
				st := set(ctx, p)
				if st.op.HWait > 0 {
					simrt.TimeSleep(ms(st.op.HWait))
				}
				st.hdone = true
			})
		case 2:
			x.inst.SetRequestStreamHandler(op.Index, func(ctx context.Context, p pl) flux.Flux[pl] {
				st := set(ctx, p)
				simrt.Yield()
				return st.out.flux()
			})
		default:
			x.inst.SetRequestChannelHandler(op.Index, func(ctx context.Context, p pl, in flux.Flux[pl]) flux.Flux[pl] {
				st := set(ctx, p)
				simrt.Yield()
				switch st.op.RC {
				case 1:
					simrt.GoNamed(fmt.Sprintf("late input of op %d", st.id), func() {
						simrt.TimeSleep(ms(simrt.Choose(10)))
						st.in.attach(in)
					})
				case 2:
					return flux.Map(in, func(p pl) (pl, error) {
						return payload.New(append([]byte{'!'}, p.Data()...), p.Metadata()), nil
					})
				case 3:
				default:
					st.in.attach(in)
				}
				return st.out.flux()
			})
		}
	}
	if n != 4+8 {
		fail("ops.table", "the host's operation table does not list what the guest registered | %v", table)
	}
}

// hostKids makes the requests a host handler makes.
func (g *wzRig) hostKids(ctx context.Context, st *wzOp) {
	for _, k := range st.kids {
		k := k
		simrt.GoNamed(fmt.Sprintf("op %d of op %d", k.id, st.id), func() { g.down(ctx, k) })
	}
	if st.w.Kids {
		st.waitFor = st.kidsOver
	}
}

// down makes a request from the host.
func (g *wzRig) down(ctx context.Context, st *wzOp) {
	o := st.op
	x := g.guests[st.w.G]
	op := x.exp[o.K]
	if o.Bad == 1 {
		op = badIndex(st.id)
		if op == 2 {
			op = 77
		}
	}
	m := reqMeta(op, 0, meta(st.id, 'q', 0, o.Md))
	if o.Bad >= 2 {
		m = m[:min(o.Bad-2, 7)]
	}
	var caller invoke.Caller = x.inst
	st.request(context.WithValue(ctx, callKey{}, st.id), caller, payload.New(body(st.id, 'q', 0, o.Req), m))
}

// host is where the next module goes.
func (g *wzRig) host() *host.Host {
	if g.h == nil || !g.p.Share {
		h, err := host.New(context.Background())
		if err != nil {
			fail("setup", "host.New failed | %v", err)
		}
		g.h = h
	}
	return g.h
}

func (g *wzRig) setup() {
	ctx := context.Background()
	for k := 0; k < g.p.Guests; k++ {
		g.guests = append(g.guests, &wzGuest{g: g, k: k})
	}
	simwz.StartGuest = func(k int) { guestMains[k](g.guests[k]) }
	for k := 0; k < g.p.Guests; k++ {
		m, err := g.host().Compile(ctx, simwz.Source(k))
		if err != nil {
			fail("setup", "compiling a good module failed | %v", err)
		}
		inst, err := m.Instantiate(ctx)
		if err != nil {
			fail("wasm.start", "a module could not be instantiated | %v", err)
		}
		g.guests[k].inst = inst
		g.link(g.guests[k])
	}
	connTrouble = func(op int) bool {
		return op < len(g.ops) && g.guests[g.ops[op].w.G].closed
	}
}

func (g *wzRig) callers() {
	type key struct{ g, t int }
	groups := map[key][]*wzOp{}
	var order []key
	for _, st := range g.ops {
		if st.w.By >= 0 {
			continue
		}
		k := key{st.w.G, st.op.T}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], st)
	}
	for _, k := range order {
		k := k
		simrt.GoNamed(fmt.Sprintf("caller %d.%d", k.g, k.t), func() {
			for _, st := range groups[k] {
				if st.op.Delay > 0 {
					simrt.TimeSleep(ms(st.op.Delay))
				}
				g.down(context.Background(), st)
				if st.w.Wait {
					simrt.Block(fmt.Sprintf("the end of op %d", st.id), st.over)
				}
			}
		})
	}
}

func (g *wzRig) arm(c WClose) {
	x := g.guests[c.G]
	cl := func(who string) {
		simrt.GoNamed("close "+who, func() {
			simrt.TimeSleep(ms(c.At))
			for k := simrt.Choose(c.Spin + 1); k > 0; k-- {
				simrt.Gosched()
			}
			x.closed = true
			note("instance_closes")
			simrt.Logf("closing instance %d", c.G)
			x.inst.Close()
			simrt.Logf("instance %d: Close returned", c.G)
		})
	}
	cl("1")
	if c.Twice {
		cl("2")
	}
}

func runWZ(plan any) {
	g := &wzRig{p: plan.(*WPlan)}
	wz = g
	g.states()
	g.setup()
	for _, c := range g.p.Closes {
		g.arm(c)
	}
	if len(g.p.Ops) > 0 {
		nontrivial()
	}
	g.callers()
	simrt.WaitQuiescent()
	for {
		any1 := false
		for _, st := range g.ops {
			for _, l := range []*link{st.out, st.in} {
				if l != nil && !connTrouble(st.id) {
					l.stallCheck()
				}
			}
		}
		for _, st := range g.ops {
			for _, l := range []*link{st.out, st.in} {
				if l != nil && l.resume() {
					any1 = true
				}
			}
		}
		if !any1 {
			break
		}
		simrt.WaitQuiescent()
	}
	g.health()
	for _, st := range g.ops {
		g.judge(st)
		simrt.Stat("ops_" + kindCls[st.op.K])
	}
	checkKept()
	if g.p.Leak {
		g.leaks()
	}
	if g.p.After {
		g.afterClose()
		g.health()
	}
}

// leaks: an instance at rest holds no more streams, on either side, than there are requests that go on.
func (g *wzRig) leaks() {
	for _, x := range g.guests {
		if x.closed {
			continue
		}
		open, n := 0, 0
		for _, st := range g.ops {
			if st.w.G == x.k && st.issued {
				n++
				if !st.allOver() {
					open++
				}
			}
		}
		for side, h := range []any{x.inst, simwz.Globals(x.k)} {
			streams, where, _ := holdings(h)
			simrt.Logf("guest %d side %d holds %d streams; %d of %d requests are open", x.k, side, streams, open, n)
			if streams > open {
				fail("leak.stream", "a stream is still held although it has ended | guest %d, %s holds %d, %d of %d requests are open: %s", x.k, []string{"the host", "the guest"}[side], streams, open, n, where)
			}
		}
		note("idle_instances_inspected")
	}
}

func (g *wzRig) health() {
	if t := simwz.Traps(); len(t) > 0 {
		fail("wasm.trap", "iota's guest code crashed inside the module: %s | guest %d, %s", t[0].Msg, t[0].Guest, t[0].Fn)
	}
	if o := simwz.OutOfBounds(); len(o) > 0 {
		fail("wasm.oob", "the host touched memory outside the guest's buffer | %s", strings.Join(o, "; "))
	}
	if o := simwz.Concurrent(); len(o) > 0 {
		fail("wasm.concurrent", "two threads were inside one guest at the same time | %s", strings.Join(o, "; "))
	}
}

func (g *wzRig) judge(st *wzOp) {
	x := g.guests[st.w.G]
	if !st.issued {
		return
	}
	if x.closed {
		g.judgeClosed(st)
		return
	}
	g.judgeOp(st)
}

func (g *wzRig) judgeOp(st *wzOp) {
	o := st.op
	reqFits := o.reqFits()
	if o.Bad != 0 {
		switch o.K {
		case 0:
			if len(st.outcomes) == 0 {
				fail("err.silent", "an invalid request got no error | %s %d (invalid kind %d)", kindName[o.K], st.id, o.Bad)
			}
			if st.outcomes[0] == "ok" {
				fail("err.ok", "an invalid request succeeded | %s %d", kindName[o.K], st.id)
			}
		case 2, 3:
			if len(st.out.terms) == 0 && st.out.cancelStart == 0 {
				fail("err.silent", "an invalid request got no error | %s %d (invalid kind %d)", kindName[o.K], st.id, o.Bad)
			}
			if st.out.items > 0 || (len(st.out.terms) > 0 && st.out.terms[0] == "complete") {
				fail("err.ok", "an invalid request succeeded | %s %d", kindName[o.K], st.id)
			}
		}
		return
	}
	if !reqFits {
		simrt.Stat("oversized_requests")
		switch o.K {
		case 0:
			if len(st.outcomes) != 1 {
				fail("big.silent", "a call whose request is too large never ended | request/response %d, %d bytes", st.id, o.Req+o.Md)
			}
			if st.outcomes[0] == "ok" && (st.calls == 0 || o.Err) {
				fail("rr.wrong", "a request/response call got an answer its handler did not give | op %d", st.id)
			}
		case 2, 3:
			if len(st.out.terms) == 0 && st.out.cancelStart == 0 {
				fail("big.silent", "a call whose request is too large never ended | %s %d, %d bytes", kindName[o.K], st.id, o.Req+o.Md)
			}
			if st.calls == 0 && len(st.out.terms) > 0 && st.out.terms[0] == "complete" {
				fail("big.complete", "a call whose request never arrived was reported complete | %s %d", kindName[o.K], st.id)
			}
		}
		return
	}
	switch o.K {
	case 0:
		if st.calls != 1 {
			fail("rr.calls", "a handler did not run exactly once for one request | request/response %d: %d times", st.id, st.calls)
		}
		if len(st.outcomes) != 1 {
			fail("rr.silent", "a request/response call never ended | op %d (handler answered: %v)", st.id, st.hdone)
		}
		st.repeatVerdict()
		want := "ok"
		if o.Err {
			want = "error " + errPad(st.id, 'r', o.ErrPad)
		}
		if !o.ansFits() {
			simrt.Stat("oversized_answers")
			if st.outcomes[0] == "ok" && o.Err {
				fail("rr.wrong", "a request/response call got an answer its handler did not give | op %d", st.id)
			}
			break
		}
		if !sameTerm(st.outcomes[0], want) {
			fail("rr.wrong", "a request/response call got an answer its handler did not give | op %d: %q, want %q", st.id, short(st.outcomes[0]), short(want))
		}
	case 1:
		if st.calls != 1 {
			fail("fnf.calls", "a fire-and-forget did not run its handler exactly once | op %d: %d times", st.id, st.calls)
		}
	case 2:
		if st.calls > 1 || (st.calls == 0 && st.out.cancelStart == 0) {
			fail("rs.calls", "a handler did not run exactly once for one request | request/stream %d: %d times", st.id, st.calls)
		}
		st.out.verdict()
	case 3:
		if st.calls > 1 || (st.calls == 0 && st.out.cancelStart == 0) {
			fail("rc.calls", "a handler did not run exactly once for one request | request/channel %d: %d times", st.id, st.calls)
		}
		judgeChannel(&st.opState)
	}
}

func (g *wzRig) judgeClosed(st *wzOp) {
	o := st.op
	if !st.w.Up {
		switch o.K {
		case 0:
			if len(st.outcomes) == 0 {
				fail("close.silent", "an instance was closed but a call on it never ended | request/response %d", st.id)
			}
			if st.outcomes[0] == "ok" && (o.Err || o.Bad != 0) {
				fail("close.ok", "a call that failed was reported as successful | op %d", st.id)
			}
		case 2, 3:
			st.out.lossVerdict()
		}
		return
	}
	// the caller is inside the closed guest; the host's handler must be told
	if o.K == 3 && st.in.attached {
		st.in.lossVerdict()
	}
}

// afterClose makes requests on closed instances.
func (g *wzRig) afterClose() {
	type probe struct {
		name string
		done int
	}
	var ps []*probe
	for _, x := range g.guests {
		if !x.closed {
			continue
		}
		x := x
		for k := 0; k < 4; k++ {
			k := k
			pr := &probe{name: fmt.Sprintf("%s on closed instance %d", kindName[k], x.k)}
			ps = append(ps, pr)
			end := func(error) {
				pr.done++
				if pr.done > 1 {
					fail("close.twice", "a call on a closed instance ended more than once | %s", pr.name)
				}
			}
			ok := func() { fail("close.ok", "a call on a closed instance succeeded | %s", pr.name) }
			p := payload.New([]byte("late"), reqMeta(x.exp[k], 0, nil))
			simrt.GoNamed(pr.name, func() {
				switch k {
				case 0:
					x.inst.RequestResponse(context.Background(), p).Subscribe(mono.Subscribe[pl]{OnSuccess: func(pl) { ok() }, OnError: end})
				case 1:
					x.inst.FireAndForget(context.Background(), p)
					end(nil)
				case 2:
					x.inst.RequestStream(context.Background(), p).Subscribe(flux.Subscribe[pl]{OnComplete: ok, OnError: end})
				default:
					x.inst.RequestChannel(context.Background(), p, flux.FromSlice([]pl{payload.New([]byte("x"))})).Subscribe(flux.Subscribe[pl]{OnComplete: ok, OnError: end})
				}
			})
		}
		simrt.GoNamed("close again", func() { x.inst.Close() })
	}
	if len(ps) == 0 {
		return
	}
	note("late_request_rounds")
	simrt.WaitQuiescent()
	for _, p := range ps {
		if p.done != 1 {
			fail("close.late", "a call made on a closed instance waits for ever | %s", p.name)
		}
	}
}

//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"net"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/verifsim/gspec"
	"github.com/nanobus/iota/go/internal/verifsim/simrt"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/rsocket"
)

// NetPlan configures the simulated network of a run; probabilities in percent.
type NetPlan struct {
	Seg, Short, Stall, Lat, Window int
	EOFData, RstUnread             bool
}

func genNet(r *simrt.Rand) NetPlan {
	n := NetPlan{}
	if r.Bool(0.4) {
		n.Seg = []int{5, 30, 80}[r.Intn(3)]
	}
	if r.Bool(0.4) {
		n.Short = []int{5, 30, 80}[r.Intn(3)]
	}
	if r.Bool(0.4) {
		n.Lat = []int{1, 5, 50}[r.Intn(3)]
	}
	if r.Bool(0.15) {
		n.Stall = 3
	}
	if r.Bool(0.2) {
		n.Window = []int{7, 64, 600, 5000}[r.Intn(4)]
	}
	n.EOFData = r.Bool(0.3)
	n.RstUnread = r.Bool(0.3)
	return n
}

func (n NetPlan) apply() {
	s := simrt.S.Net
	s.SegP, s.ShortP, s.StallP = float64(n.Seg)/100, float64(n.Short)/100, float64(n.Stall)/100
	s.MaxLat = n.Lat
	if n.Window > 0 {
		s.Window = n.Window
	}
	s.EOFData, s.ResetOnCloseUnread = n.EOFData, n.RstUnread
}

// Op is one request.
type Op struct {
	K      int  // 0 request/response, 1 fire-and-forget, 2 request/stream, 3 request/channel
	C      int  // connection
	D      int  // 0: the client asks, 1: the server asks
	T      int  // caller task
	Wait   bool // the task waits for the end of this op before the next
	Delay  int
	Req    int // request data size
	Md     int
	H      int  // handler behaviour
	HWait  int  // handler delay, ms
	Hold   int  // k+1: the handler does not go on until op k is over
	Via    int  // how the caller observes the outcome
	Late   bool // issued in the second half, after everything came to rest
	Err    bool
	Bad    int // 1: unknown operation, 2+: metadata of Bad-2 bytes
	Sz     int // response/item size
	ErrPad int // the error message is this much longer

	N                      int
	P, CM, Page, Ext       int
	Cancel                 int // k+1: after k items; 0 never
	CIn                    bool
	PD, CD                 int
	InN, InP, InCM, InPage int
	InErr                  bool
	InCancel               int
	InExt                  int
	RC                     int // 0 independent, 1 consumes later, 2 echo, 3 ignores its input
}

// Fault hits a connection.
type Fault struct {
	T  int // 0 fin at byte, 1 rst at byte, 2 write error at byte, 3 rst at time, 4 transport closed by its owner at time, 5 context cancelled at time, 6 server closed at time, 7 fin at time
	C  int
	S  int // 0: on the client's side, 1: on the server's
	At int
}

// RSPlan is a run over real RSocket clients and a real server.
type RSPlan struct {
	Net     NetPlan
	Clients int
	Ops     []Op
	Faults  []Fault
	After   bool     // more requests on the dead connection
	Middle  bool     // a man in the middle of every connection
	Stray   int      // percent of frames behind which it adds others
	Spell   int      // percent of frames it spells in another way
	Leak    bool     // look for what is left at rest
	Start   [2]int64 // where the stream id counters of the clients and the server start
}

var kindName = []string{"request/response", "fire-and-forget", "request/stream", "request/channel"}

type opState struct {
	op     *Op
	id     int
	issued bool
	calls  int
	// request/response
	outcomes []string
	answer   pl  // the first answer
	again    int // how often the outcome was asked for again
	heard    int // and how often it was told
	ended    bool
	endTime  int64
	hdone    bool
	out, in  *link
	rret     pl
	waitFor  func() bool
	holding  bool
}

type rsConn struct {
	i       int
	c, s    *simrt.Conn
	ch      *handler.Handler
	sh      invoke.Caller
	ct      *rsocket.Transport
	cancel  context.CancelFunc
	started bool
	ret     bool
	retErr  error
	faulted bool
	m       *mitm
	base    [2]int
}

type rsRig struct {
	p       *RSPlan
	ops     []*opState
	conns   []*rsConn
	server  rsocket.ServerTransport
	scancel context.CancelFunc
	lret    bool
	sfault  bool
	closing bool
	victims *victims // serve what hostile peers ask for
}

var rig *rsRig

type nodeKey struct{}

// connTrouble tells whether the connection of op was hit by a fault (so that outcomes are relaxed).
var connTrouble = func(op int) bool { return false }

func (c *rsConn) broken() bool {
	return c.c == nil || c.c.Broken() || c.s.Broken()
}

func (c *rsConn) up() bool { return c.c != nil && !c.broken() }

func reqMeta(op uint32, parent uint32, md []byte) []byte {
	b := make([]byte, 8, 8+len(md))
	binary.BigEndian.PutUint32(b, op)
	binary.BigEndian.PutUint32(b[4:], parent)
	return append(b, md...)
}

// opOf identifies the plan entry a handler invocation belongs to and checks the bytes it got.
func (g *rsRig) opOf(ctx context.Context, p pl, kind int) *opState {
	d := p.Data()
	if g.victims != nil && g.stranger(p, kind) {
		return nil
	}
	if len(d) < 8 || d[0] != 'q' || d[7] != 0x5A {
		fail(kindCls[kind]+".request", "a handler was invoked with bytes nobody sent | %s: %s", kindName[kind], show(d))
	}
	id := int(binary.BigEndian.Uint16(d[1:]))
	if id >= len(g.ops) {
		fail(kindCls[kind]+".request", "a handler was invoked with bytes nobody sent | %s: %s", kindName[kind], show(d))
	}
	st := g.ops[id]
	o := st.op
	want := body(id, 'q', 0, o.Req)
	if !bytes.Equal(d, want) {
		fail(kindCls[kind]+".request", "a handler was invoked with bytes nobody sent | %s %d: data %s, sent %s", kindName[kind], id, show(d), show(want))
	}
	md := meta(id, 'q', 0, o.Md)
	got := p.Metadata()
	if !bytes.Equal(got, md) && !(len(got) >= 8 && kind >= 2 && bytes.Equal(got[8:], md)) {
		fail(kindCls[kind]+".request", "a handler was invoked with bytes nobody sent | %s %d: metadata %s, sent %s", kindName[kind], id, show(got), show(md))
	}
	if o.K != kind {
		fail(kindCls[kind]+".request", "a request reached a handler of another kind | %s %d reached the %s handler", kindName[o.K], id, kindName[kind])
	}
	node, _ := ctx.Value(nodeKey{}).(int)
	if (o.D == 0) != (node == 0) || (o.D == 1 && node != o.C+1) {
		fail(kindCls[kind]+".request", "a request reached the wrong peer | %s %d reached node %d", kindName[kind], id, node)
	}
	st.calls++
	simrt.Logf("handler of op %d (%s) invoked", id, kindName[kind])
	if st.calls > 1 {
		fail(kindCls[kind]+".calls", "a handler ran more than once for one request | %s %d", kindName[kind], id)
	}
	if o.Bad != 0 {
		fail("err.bad", "an invalid request reached a handler | %s %d", kindName[kind], id)
	}
	keep(fmt.Sprintf("request %d data", id), d)
	keep(fmt.Sprintf("request %d metadata", id), got)
	return st
}

// stranger tells whether a request is not one of the plan's.
func (g *rsRig) stranger(p pl, kind int) bool {
	d := p.Data()
	if len(d) < 8 {
		return true
	}
	id := int(binary.BigEndian.Uint16(d[1:]))
	return id >= len(g.ops) || g.ops[id].op.K != kind || !bytes.Equal(d, body(id, 'q', 0, g.ops[id].op.Req))
}

var kindCls = []string{"rr", "fnf", "rs", "rc"}

const (
	hJust = iota
	hError
	hCreate
	hLater
	hRace
	hMap
	hTask
	hModes
)

func (st *opState) respond() mono.Mono[pl] {
	o := st.op
	res := payload.New(body(st.id, 'r', 0, o.Sz), meta(st.id, 'r', 0, o.Md))
	err := errors.New(errPad(st.id, 'r', o.ErrPad))
	hold := func() {
		if st.waitFor != nil {
			simrt.Block(fmt.Sprintf("the requests of op %d", st.id), st.waitFor)
		}
		if o.HWait > 0 {
			simrt.TimeSleep(ms(o.HWait))
		}
		simrt.Yield()
	}
	switch o.H {
	case hJust, hError:
		hold()
		st.hdone = true
		if o.Err {
			return mono.Error[pl](err)
		}
		return mono.Just[pl](res)
	case hCreate:
		return mono.Create(func(s mono.Sink[pl]) {
			hold()
			st.hdone = true
			if o.Err {
				s.Error(err)
			} else {
				s.Success(res)
			}
		})
	case hTask:
		return mono.Create(func(s mono.Sink[pl]) {
			simrt.GoNamed(fmt.Sprintf("answer op %d", st.id), func() {
				hold()
				st.hdone = true
				if o.Err {
					s.Error(err)
				} else {
					s.Success(res)
				}
			})
		})
	case hMap:
		return mono.Map(mono.Just[pl](res), func(p pl) (pl, error) {
			hold()
			st.hdone = true
			if o.Err {
				return nil, err
			}
			return p, nil
		})
	default:
		p := mono.NewProcessor[pl]()
		simrt.GoNamed(fmt.Sprintf("answer op %d", st.id), func() {
			if o.H == hLater {
				simrt.TimeSleep(ms(1 + o.HWait))
			}
			hold()
			st.hdone = true
			if o.Err {
				p.Error(err)
			} else {
				p.Success(res)
			}
		})
		return p
	}
}

// holdOn keeps a handler waiting for the end of another request. tidyRS
// sees to it that no two wait for one another.
func (g *rsRig) holdOn(st *opState) {
	k := st.op.Hold - 1
	if k < 0 {
		return
	}
	on := g.ops[k]
	note("handlers_that_wait_for_another_request")
	st.holding = true
	defer func() { st.holding = false }()
	simrt.Block(fmt.Sprintf("the end of op %d in the handler of op %d", k, st.id), func() bool {
		return on.over() || connTrouble(k) || connTrouble(st.id)
	})
}

func (g *rsRig) export() {
	bad := func(string) {
		if g.victims == nil {
			fail("rr.route", "a request reached an operation it did not name")
		}
	}
	decoyRR := func(ctx context.Context, p pl) mono.Mono[pl] { bad("rr"); return g.victims.rr(ctx, p) }
	decoyF := func(ctx context.Context, p pl) { bad("fnf"); g.victims.fnf(ctx, p) }
	decoyS := func(ctx context.Context, p pl) flux.Flux[pl] { bad("rs"); return g.victims.rs(ctx, p) }
	decoyC := func(ctx context.Context, p pl, in flux.Flux[pl]) flux.Flux[pl] {
		bad("rc")
		return g.victims.rc(ctx, p, in)
	}
	invoke.ExportRequestResponse("sim", "decoy", decoyRR)
	invoke.ExportFireAndForget("sim", "decoy", decoyF)
	invoke.ExportRequestStream("sim", "decoy", decoyS)
	invoke.ExportRequestChannel("sim", "decoy", decoyC)
	invoke.ExportRequestResponse("sim", "op", func(ctx context.Context, p pl) mono.Mono[pl] {
		st := g.opOf(ctx, p, 0)
		if st == nil {
			return g.victims.rr(ctx, p)
		}
		g.holdOn(st)
		return st.respond()
	})
	invoke.ExportFireAndForget("sim", "op", func(ctx context.Context, p pl) {
		st := g.opOf(ctx, p, 1)
		if st == nil {
			g.victims.fnf(ctx, p)
			return
		}
		g.holdOn(st)
		if st.op.HWait > 0 {
			simrt.TimeSleep(ms(st.op.HWait))
		}
		st.hdone = true
	})
	invoke.ExportRequestStream("sim", "op", func(ctx context.Context, p pl) flux.Flux[pl] {
		st := g.opOf(ctx, p, 2)
		if st == nil {
			return g.victims.rs(ctx, p)
		}
		simrt.Yield()
		g.holdOn(st)
		if st.op.HWait > 0 {
			simrt.TimeSleep(ms(st.op.HWait))
		}
		return st.out.flux()
	})
	invoke.ExportRequestChannel("sim", "op", func(ctx context.Context, p pl, in flux.Flux[pl]) flux.Flux[pl] {
		st := g.opOf(ctx, p, 3)
		if st == nil {
			return g.victims.rc(ctx, p, in)
		}
		simrt.Yield()
		g.holdOn(st)
		if st.op.HWait > 0 {
			simrt.TimeSleep(ms(st.op.HWait))
		}
		switch st.op.RC {
		case 1:
			simrt.GoNamed(fmt.Sprintf("late input of op %d", st.id), func() {
				simrt.TimeSleep(ms(simrt.Choose(10)))
				st.in.attach(in)
			})
		case 2:
			return flux.Map(in, func(p pl) (pl, error) {
				return payload.New(append([]byte{'!'}, p.Data()...), p.Metadata()), nil
			})
		case 3:
		default:
			st.in.attach(in)
		}
		return st.out.flux()
	})
	invoke.ExportRequestResponse("sim", "decoy2", decoyRR)
	invoke.ExportFireAndForget("sim", "decoy2", decoyF)
	invoke.ExportRequestStream("sim", "decoy2", decoyS)
	invoke.ExportRequestChannel("sim", "decoy2", decoyC)
}

func (g *rsRig) setup() {
	p := g.p
	p.Net.apply()
	g.export()
	accepted := make([]invoke.Caller, 0)
	g.server = rsocket.NewServer(func(ctx context.Context, caller invoke.Caller, onClose func(*rsocket.Transport)) {
		accepted = append(accepted, caller)
	})
	sctx, cancel := context.WithCancel(context.WithValue(context.Background(), nodeKey{}, 0))
	g.scancel = cancel
	notify := make(chan bool, 1)
	simrt.GoNamed("server", func() {
		err := g.server.Listen(sctx, notify)
		g.lret = true
		simrt.Logf("Listen returned %v", err)
	})
	if !simrt.Recv(notify) {
		fail("setup", "the server does not listen")
	}
	for i := 0; i < p.Clients; i++ {
		c := &rsConn{i: i}
		cctx, ccancel := context.WithCancel(context.WithValue(context.Background(), nodeKey{}, i+1))
		c.cancel = ccancel
		at := "127.0.0.1:7878"
		var ml net.Listener
		if p.Middle {
			at = "127.0.0.1:7979"
			l, err := simrt.NetListen("tcp", at)
			if err != nil {
				harness("listen: %v", err)
			}
			ml = l
		}
		conn, err := rsocket.NewConnWithAddr(cctx, "tcp", at, nil)
		if err != nil {
			fail("setup", "dialling a server that listens failed | %v", err)
		}
		c.c = conn.(*simrt.Conn)
		c.s = c.c.Peer()
		if p.Middle {
			a, err := ml.Accept()
			if err != nil {
				harness("accept: %v", err)
			}
			b, err := simrt.NetDial("tcp", "127.0.0.1:7878")
			if err != nil {
				harness("dial: %v", err)
			}
			ml.Close()
			c.m = &mitm{conn: i, stray: p.Stray, spell: p.Spell, streams: map[uint32]*mStream{}, legs: [2]*simrt.Conn{a.(*simrt.Conn), b.(*simrt.Conn)}}
			c.s = b.(*simrt.Conn).Peer()
			c.m.start()
		}
		c.ch = handler.New(cctx, handler.ClientMode)
		c.ct = rsocket.NewTCPClientTransport(conn, c.ch)
		ct := c.ct
		c.ch.SetFrameSender(func(f frames.Frame) error { return ct.Send(f, true) })
		k := i
		simrt.Block("accept", func() bool { return len(accepted) > k })
		c.sh = accepted[i]
		if p.Start[0] != 0 {
			setStreamIDs(c.ch, uint64(p.Start[0]))
		}
		if h, ok := c.sh.(*handler.Handler); ok && p.Start[1] != 0 {
			setStreamIDs(h, uint64(p.Start[1]))
		}
		if p.Leak {
			_, _, c.base[0] = holdings(c.ch)
			_, _, c.base[1] = holdings(c.sh)
		}
		g.conns = append(g.conns, c)
		simrt.GoNamed(fmt.Sprintf("client %d", i), func() {
			c.started = true
			c.retErr = c.ct.Start(cctx)
			c.ret = true
			simrt.Logf("client %d: Start returned %v", i, c.retErr)
		})
	}
	connTrouble = func(op int) bool {
		if op >= len(g.ops) {
			return false
		}
		return g.closing || g.conns[g.ops[op].op.C].faulted || g.conns[g.ops[op].op.C].broken()
	}
}

func (g *rsRig) arm(f Fault) {
	c := g.conns[f.C]
	at := ms(f.At)
	side := c.c
	if f.S == 1 {
		side = c.s
	}
	timed := func(what string, fn func()) {
		simrt.GoNamed("fault "+what, func() {
			simrt.TimeSleep(at)
			for k := simrt.Choose(40); k > 0; k-- {
				simrt.Gosched()
			}
			c.faulted = true
			note("fault_" + what)
			simrt.Logf("fault: %s on connection %d", what, f.C)
			fn()
		})
	}
	switch f.T {
	case 0:
		side.CutAfter(int64(f.At), "fin")
	case 1:
		side.CutAfter(int64(f.At), "rst")
	case 2:
		side.WriteErrAfter(int64(f.At))
	case 3:
		timed("reset_at_time", func() { side.ResetNow() })
	case 4:
		timed("transport_close", func() { c.ct.Close() })
	case 5:
		timed("context_cancel", func() { c.cancel() })
	case 6:
		timed("server_close", func() {
			for _, x := range g.conns {
				x.faulted = true
			}
			g.sfault = true
			g.server.Close()
		})
	default:
		timed("fin_at_time", func() { side.FinNow() })
	}
}

func (g *rsRig) states() {
	keptBytes = nil
	for i := range g.p.Ops {
		o := &g.p.Ops[i]
		st := &opState{op: o, id: i}
		switch o.K {
		case 2, 3:
			st.out = &link{name: fmt.Sprintf("op %d (%s) answer stream", i, kindName[o.K]), cls: kindCls[o.K], op: i, dir: 'o', N: o.N, Err: o.Err, Size: o.Sz, Md: o.Md,
				PMode: o.P, CMode: o.CM, Page: o.Page, Ext: o.Ext, CancelK: o.Cancel - 1, CIn: o.CIn, pdelay: o.PD, cdelay: o.CD}
			if o.K == 3 {
				st.in = &link{name: fmt.Sprintf("op %d (%s) input stream", i, kindName[o.K]), cls: "rc", op: i, dir: 'i', N: o.InN, Err: o.InErr, Size: o.Sz, Md: o.Md,
					PMode: o.InP, CMode: o.InCM, Page: o.InPage, Ext: o.InExt, CancelK: o.InCancel - 1, CIn: o.CIn, pdelay: o.PD, cdelay: o.CD}
				st.in.peer, st.out.peer = st.out, st.in
				st.in.bad = o.Bad != 0
				if o.RC == 2 {
					st.out.echo, st.in.by = st.in, st.out
				}
			}
		}
		g.ops = append(g.ops, st)
	}
}

func (st *opState) outcome(s string) {
	simrt.Yield()
	st.outcomes = append(st.outcomes, s)
	simrt.Logf("op %d: outcome %s", st.id, short(s))
	if len(st.outcomes) > 1 {
		fail("rr.twice", "a request/response call ended more than once | op %d: %v", st.id, shorts(st.outcomes))
	}
	st.ended = true
	st.endTime = simrt.Now()
}

func (st *opState) success(p gspec.Payload) {
	if p == nil {
		fail("rr.wrong", "a request/response call got an answer its handler did not give | op %d: nil payload", st.id)
	}
	want := body(st.id, 'r', 0, st.op.Sz)
	if !bytes.Equal(p.Data(), want) || !bytes.Equal(p.Metadata(), meta(st.id, 'r', 0, st.op.Md)) {
		fail("rr.wrong", "a request/response call got an answer its handler did not give | op %d: data %s metadata %s, want %s %s", st.id, show(p.Data()), show(p.Metadata()), show(want), show(meta(st.id, 'r', 0, st.op.Md)))
	}
	keep(fmt.Sprintf("answer %d data", st.id), p.Data())
	keep(fmt.Sprintf("answer %d metadata", st.id), p.Metadata())
	if st.answer == nil {
		st.answer = p
	}
	st.outcome("ok")
}

// repeated is told the outcome of a call whose outcome is known already.
func (st *opState) repeated(p gspec.Payload, err error) {
	simrt.Logf("op %d: outcome told again", st.id)
	if st.heard++; st.heard > st.again {
		fail("rr.twice", "a request/response call ended more than once | op %d: told its outcome %d times, it had asked for it %d times more", st.id, st.heard, st.again)
	}
	got := "ok"
	if err != nil {
		got = "error " + err.Error()
	}
	if len(st.outcomes) > 0 && got != st.outcomes[0] {
		fail("rr.again", "asked again, a request/response call told another outcome | op %d: %q, first %q", st.id, short(got), short(st.outcomes[0]))
	}
	if err == nil && st.answer != nil && (p == nil || !bytes.Equal(p.Data(), st.answer.Data()) || !bytes.Equal(p.Metadata(), st.answer.Metadata())) {
		fail("rr.again", "asked again, a request/response call told another outcome | op %d: another answer", st.id)
	}
}

// repeatVerdict: at rest, whoever asked for the outcome again has been told.
func (st *opState) repeatVerdict() {
	if len(st.outcomes) == 1 && st.heard != st.again {
		fail("rr.again", "asked again, a request/response call did not tell its outcome | op %d: asked %d times more, told %d times", st.id, st.again, st.heard)
	}
}

// issue makes the request from the caller's side.
func (g *rsRig) issue(st *opState, caller invoke.Caller) {
	o := st.op
	ctx := context.Background()
	md := meta(st.id, 'q', 0, o.Md)
	op := uint32(1)
	if o.Bad == 1 {
		op = uint32(3 + st.id*1000)
		if st.id%3 == 1 {
			op = 0xFFFFFFFF
		}
	}
	m := reqMeta(op, 0, md)
	if o.Bad >= 2 {
		m = m[:min(o.Bad-2, 7)]
	}
	p := payload.New(body(st.id, 'q', 0, o.Req), m)
	simrt.Logf("op %d (%s): issued on connection %d, direction %d", st.id, kindName[o.K], o.C, o.D)
	st.request(ctx, caller, p)
}

// request makes the call and follows its outcome.
func (st *opState) request(ctx context.Context, caller invoke.Caller, p pl) {
	o := st.op
	st.issued = true
	simrt.Logf("op %d (%s): request", st.id, kindName[o.K])
	switch o.K {
	case 0:
		mn := caller.RequestResponse(ctx, p)
		switch o.Via {
		case 1:
			v, err := mn.Block()
			if err != nil {
				st.outcome("error " + err.Error())
			} else {
				st.success(v)
			}
			if o.Page%3 == 0 {
				note("outcomes_asked_again")
				st.again++
				v, err := mn.Block()
				st.repeated(v, err)
			}
		case 2, 3:
			get := func(rx.SignalType) {
				v, err := mn.Get()
				if err != nil {
					st.outcome("error " + err.Error())
				} else {
					st.success(v)
				}
			}
			if o.Via == 2 {
				mn.Async()
				mn.Notify(get)
			} else {
				mn.Notify(get)
				mn.Async()
			}
		default:
			if o.Via == 5 {
				// Awaited first, and only then subscribed to.
				note("outcomes_asked_again")
				mn.Async()
				if o.Page%2 == 0 {
					simrt.TimeSleep(ms(simrt.Choose(12)))
				}
			}
			fin := 0
			mn.Subscribe(mono.Subscribe[pl]{
				OnSuccess: func(p pl) { st.success(p) },
				OnError:   func(err error) { st.outcome("error " + err.Error()) },
				Finally: func(rx.SignalType) {
					fin++
					if fin > 1 {
						fail("rr.twice", "a request/response call ended more than once | op %d: Finally ran %d times", st.id, fin)
					}
				},
			})
			if o.Via == 4 {
				// Subscribed to first, then awaited.
				note("outcomes_asked_again")
				if o.Page%2 == 0 {
					simrt.TimeSleep(ms(simrt.Choose(12)))
				}
				st.again++
				mn.Async()
				mn.Notify(func(rx.SignalType) { v, err := mn.Get(); st.repeated(v, err) })
			}
		}
	case 1:
		caller.FireAndForget(ctx, p)
		st.ended = true
	case 2:
		f := caller.RequestStream(ctx, p)
		st.out.attachVia(f, o.Via)
	case 3:
		f := caller.RequestChannel(ctx, p, st.in.flux())
		st.out.attachVia(f, o.Via)
	}
}

func (st *opState) over() bool {
	switch st.op.K {
	case 0, 1:
		return st.ended
	default:
		return st.out.done || st.out.cancelDone != 0
	}
}

func (g *rsRig) callers(late bool) {
	type key struct{ c, d, t int }
	groups := map[key][]*opState{}
	var order []key
	for _, st := range g.ops {
		if st.op.Late != late {
			continue
		}
		k := key{st.op.C, st.op.D, st.op.T}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], st)
	}
	for _, k := range order {
		k := k
		simrt.GoNamed(fmt.Sprintf("caller %d.%d.%d", k.c, k.d, k.t), func() {
			c := g.conns[k.c]
			var caller invoke.Caller = c.ch
			if k.d == 1 {
				caller = c.sh
			}
			for _, st := range groups[k] {
				if st.op.Delay > 0 {
					simrt.TimeSleep(ms(st.op.Delay))
				}
				g.issue(st, caller)
				if st.op.Wait {
					simrt.Block(fmt.Sprintf("the end of op %d", st.id), st.over)
				}
			}
		})
	}
}

func (g *rsRig) judge() {
	for _, st := range g.ops {
		o := st.op
		c := g.conns[o.C]
		if !st.issued {
			if c.faulted || c.broken() {
				// waiting for an op that never ended shows there
				continue
			}
			continue
		}
		healthy := !c.faulted && !c.broken()
		if !healthy {
			g.judgeLoss(st)
			continue
		}
		if o.Bad != 0 {
			switch o.K {
			case 0:
				if len(st.outcomes) == 0 {
					fail("err.silent", "an invalid request got no error | %s %d (invalid kind %d)", kindName[o.K], st.id, o.Bad)
				}
				if st.outcomes[0] == "ok" {
					fail("err.ok", "an invalid request succeeded | %s %d", kindName[o.K], st.id)
				}
			case 2, 3:
				st.out.notifyVerdict(false)
				if len(st.out.terms) == 0 && st.out.cancelStart == 0 && !st.out.awaited {
					fail("err.silent", "an invalid request got no error | %s %d (invalid kind %d)", kindName[o.K], st.id, o.Bad)
				}
				if st.out.items > 0 || (len(st.out.terms) > 0 && st.out.terms[0] == "complete") {
					fail("err.ok", "an invalid request succeeded | %s %d", kindName[o.K], st.id)
				}
			}
			continue
		}
		switch o.K {
		case 0:
			if st.calls != 1 {
				fail("rr.calls", "a handler did not run exactly once for one request | request/response %d: %d times", st.id, st.calls)
			}
			if len(st.outcomes) != 1 {
				fail("rr.silent", "a request/response call never ended | op %d (handler answered: %v)", st.id, st.hdone)
			}
			st.repeatVerdict()
			want := "ok"
			if o.Err {
				want = "error " + errPad(st.id, 'r', o.ErrPad)
			}
			if !sameTerm(st.outcomes[0], want) {
				fail("rr.wrong", "a request/response call got an answer its handler did not give | op %d: %q, want %q", st.id, st.outcomes[0], want)
			}
		case 1:
			if st.calls != 1 {
				fail("fnf.calls", "a fire-and-forget did not run its handler exactly once | op %d: %d times", st.id, st.calls)
			}
		case 2:
			if st.calls > 1 || (st.calls == 0 && st.out.cancelStart == 0) {
				fail("rs.calls", "a handler did not run exactly once for one request | request/stream %d: %d times", st.id, st.calls)
			}
			st.out.verdict()
		case 3:
			if st.calls > 1 || (st.calls == 0 && st.out.cancelStart == 0) {
				fail("rc.calls", "a handler did not run exactly once for one request | request/channel %d: %d times", st.id, st.calls)
			}
			judgeChannel(st)
		}
	}
}

// judgeChannel: each direction on its own, except after an error or a cancel, which may take the other one along.
func judgeChannel(st *opState) {
	o, out, in := st.op, st.out, st.in
	outErr := out.Err && out.echo == nil
	inErr := in.Err
	if out.echo != nil {
		if out.cancelStart == 0 {
			out.verdict()
		} else {
			out.verdict()
		}
		return
	}
	// what the caller sees
	if out.cancelStart == 0 {
		switch {
		case inErr && in.ended:
			out.notifyVerdict(false)
			// the caller's own error may end the whole channel; otherwise the answer stream ends as it should
			if len(out.terms) == 1 && out.items == out.total() && sameTerm(out.terms[0], out.wantTerm()) {
				break
			}
			if len(out.terms) == 1 && out.terms[0] == "complete" {
				fail("rc.term", "a channel direction was reported complete although it was cut short | %s: %d of %d items", out.name, out.items, out.total())
			}
		default:
			out.verdict()
		}
	} else {
		out.verdict()
	}
	// what the handler sees
	if !in.attached {
		return
	}
	if in.cancelStart == 0 {
		switch {
		case outErr && out.ended, out.cancelStart != 0:
			// the answer stream failed or was cancelled: the input may be cut short, but never "complete" by mistake
			if len(in.terms) == 1 && in.terms[0] == "complete" && (in.items != in.total() || in.Err) && out.cancelStart == 0 {
				fail("rc.term", "a channel direction was reported complete although it was cut short | %s: %d of %d items", in.name, in.items, in.total())
			}
			if outErr && len(in.terms) == 0 && len(in.finals) == 0 && in.granted > int64(in.items) && !in.cancelledPeer() && in.ended {
				fail("rc.silent", "a stream got no terminal signal | %s: the producer ended it", in.name)
			}
		default:
			in.verdict()
		}
	} else {
		in.verdict()
	}
	_ = o
}

func (l *link) cancelledPeer() bool { return l.cancels > 0 }

func (g *rsRig) judgeLoss(st *opState) {
	o := st.op
	switch o.K {
	case 0:
		if len(st.outcomes) == 0 {
			fail("loss.silent", "the connection is gone but a request was never ended | request/response %d (handler ran %d times)", st.id, st.calls)
		}
		st.repeatVerdict()
		if st.outcomes[0] == "ok" && (o.Err || o.Bad != 0) {
			fail("loss.ok", "a request that failed was reported as successful | op %d", st.id)
		}
	case 1:
	case 2:
		st.out.lossVerdict()
	case 3:
		st.out.lossVerdict()
		if st.in.attached {
			st.in.lossVerdict()
		}
	}
	if st.calls > 1 {
		fail("loss.calls", "a handler ran more than once for one request | op %d", st.id)
	}
}

// settle lets everything come to rest, stalled consumers resumed.
func (g *rsRig) settle() {
	simrt.WaitQuiescent()
	for round := 0; ; round++ {
		any1 := false
		for _, st := range g.ops {
			for _, l := range []*link{st.out, st.in} {
				if l != nil && !connTrouble(st.id) && !st.holding {
					l.stallCheck()
				}
			}
		}
		for _, st := range g.ops {
			for _, l := range []*link{st.out, st.in} {
				if l != nil && l.resume() {
					any1 = true
				}
			}
		}
		if !any1 {
			break
		}
		simrt.WaitQuiescent()
	}
}

func runRS(plan any) {
	g := &rsRig{p: plan.(*RSPlan)}
	rig = g
	g.states()
	g.setup()
	for _, f := range g.p.Faults {
		g.arm(f)
	}
	if len(g.p.Ops) > 0 {
		nontrivial()
	}
	g.callers(false)
	g.settle()
	g.half()
	for _, st := range g.ops {
		if st.op.Late {
			g.callers(true)
			g.settle()
			g.half()
			break
		}
	}
	for _, c := range g.conns {
		if !c.faulted && c.broken() {
			known := false
			for _, f := range g.p.Faults {
				if f.C == c.i || f.T == 6 {
					known = true
				}
			}
			if !known {
				fail("conn.down", "a healthy connection was closed | client %d: Start returned=%v err=%v", c.i, c.ret, c.retErr)
			}
			c.faulted = true
		}
		if c.faulted {
			note("connections_lost")
		} else if c.ret {
			fail("conn.down", "a client stopped serving a healthy connection | client %d: %v", c.i, c.retErr)
		}
	}
	g.judge()
	checkKept()
	for _, st := range g.ops {
		simrt.Stat("ops_" + kindCls[st.op.K])
	}
	if g.p.After {
		g.afterLoss()
	}
}

// half ends a half of the run: everything is at rest.
func (g *rsRig) half() {
	if g.p.Leak {
		g.leaks()
	}
	if g.p.Middle && g.p.Stray > 0 {
		for _, c := range g.conns {
			if c.up() {
				c.m.flood()
			}
		}
		g.settle()
	}
}

// over tells whether nothing of the operation is left to be done on either side.
func (st *opState) allOver() bool {
	o := st.op
	switch {
	case !st.issued:
		return true
	case o.K == 1:
		return true
	case o.K == 0:
		return st.ended
	case !st.out.done && st.out.cancelDone == 0:
		return false
	case o.K == 2:
		return true
	}
	in := st.in
	// A cancel that came after the end of the output does not end the input.
	cancelled := st.out.cancelDone != 0 && len(st.out.terms) == 0
	return in.ended || in.cancelDone != 0 && len(in.terms) == 0 || cancelled || st.out.Err && st.out.ended || o.Bad != 0
}

func (g *rsRig) leaks() {
	for _, c := range g.conns {
		if c.faulted || c.broken() {
			continue
		}
		open, n := 0, 0
		for _, st := range g.ops {
			if st.op.C == c.i && st.issued {
				n++
				if !st.allOver() {
					open++
				}
			}
		}
		for side, h := range []any{c.ch, c.sh} {
			streams, where, pieces := holdings(h)
			simrt.Logf("connection %d side %d holds %d streams, %d pieces; %d requests are open", c.i, side, streams, pieces, open)
			if streams > open {
				fail("leak.stream", "a stream is still held although it has ended | connection %d, side %d holds %d, %d of %d requests are open: %s", c.i, side, streams, open, n, where)
			}
			if open == 0 && n >= 4 && pieces-c.base[side] >= n {
				fail("leak.state", "what an idle connection holds grows with the requests it has served | connection %d, side %d: from %d to %d pieces after %d requests", c.i, side, c.base[side], pieces, n)
			}
		}
		note("idle_connections_inspected")
	}
}

// afterLoss makes requests on dead connections: they must fail, not wait.
func (g *rsRig) afterLoss() {
	type probe struct {
		name string
		done int
	}
	var ps []*probe
	for _, c := range g.conns {
		if !c.faulted {
			continue
		}
		for side, caller := range []invoke.Caller{c.ch, c.sh} {
			caller := caller
			p1 := &probe{name: fmt.Sprintf("request/response on dead connection %d, side %d", c.i, side)}
			p2 := &probe{name: fmt.Sprintf("request/stream on dead connection %d, side %d", c.i, side)}
			p3 := &probe{name: fmt.Sprintf("request/channel on dead connection %d, side %d", c.i, side)}
			ps = append(ps, p1, p2, p3)
			end := func(p *probe) func(error) {
				return func(error) {
					p.done++
					if p.done > 1 {
						fail("loss.twice", "a request on a dead connection ended more than once | %s", p.name)
					}
				}
			}
			simrt.GoNamed(p1.name, func() {
				caller.RequestResponse(context.Background(), payload.New([]byte("late"), reqMeta(1, 0, nil))).Subscribe(mono.Subscribe[pl]{
					OnSuccess: func(pl) { fail("loss.ok", "a request on a dead connection succeeded") }, OnError: end(p1)})
			})
			simrt.GoNamed(p2.name, func() {
				caller.RequestStream(context.Background(), payload.New([]byte("late"), reqMeta(1, 0, nil))).Subscribe(flux.Subscribe[pl]{
					OnComplete: func() { fail("loss.ok", "a request on a dead connection succeeded") }, OnError: end(p2)})
			})
			simrt.GoNamed(p3.name, func() {
				caller.RequestChannel(context.Background(), payload.New([]byte("late"), reqMeta(1, 0, nil)), flux.FromSlice([]pl{payload.New([]byte("x"))})).Subscribe(flux.Subscribe[pl]{
					OnComplete: func() { fail("loss.ok", "a request on a dead connection succeeded") }, OnError: end(p3)})
			})
		}
	}
	if len(ps) == 0 {
		return
	}
	note("late_request_rounds")
	simrt.WaitQuiescent()
	for _, p := range ps {
		if p.done != 1 {
			fail("loss.late", "a request made on a dead connection waits for ever | %s", p.name)
		}
	}
}

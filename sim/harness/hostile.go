//go:build go1.22

package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math"
	"time"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/verifsim/simrt"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/rsocket"
)

// Hostile peers: what they send is decided by the plan, not by the protocol.

// HostSeg is one thing a hostile peer sends.
type HostSeg struct {
	WSpec
	K      int // what is wrong with it
	ID     int64
	Pos    int
	Val    int
	Len    int
	Delay  int // ms before
	OnReq  bool
	PerReq int // hostile server: only for every PerReq-th request
}

const (
	sFrame     = iota // a well-formed frame, wherever it belongs
	sRequest          // a valid request to a handler
	sMutate           // one byte changed
	sTruncate         // cut short, the length adjusted
	sLength           // a wrong length
	sRandom           // anything
	sZero             // an empty frame
	sHuge             // the largest length, and nothing behind it
	sBurst            // the same frame many times
	sShortMeta        // a request with too little metadata
	sKinds
)

func (s HostSeg) bytes(k int, id uint32) []byte {
	f := s.frame(1000+k, id)
	switch s.K {
	case sRequest, sBurst:
		if s.K == sBurst && s.Val%2 == 0 {
			break
		}
		f.T = wRR + s.T%4
		f.Flags &= wComplete
		f.HasMd, f.Md = true, reqMeta(uint32(s.Pos%4), uint32(s.Val), meta(k, 'm', 0, s.Md))
		f.Data = append([]byte{byte(s.Len)}, meta(k, 'd', 0, s.Sz)...)
		if f.T == wRS || f.T == wRC {
			f.N = s.N
		}
	case sShortMeta:
		f.T = wRR + s.T%4
		f.Flags = 0
		f.HasMd, f.Md = true, reqMeta(1, 0, nil)[:s.Len%8]
	}
	b := f.wire()
	switch s.K {
	case sMutate:
		b[s.Pos%min(len(b), 24)] = byte(s.Val)
	case sTruncate:
		n := 3 + s.Pos%min(len(b)-2, 40)
		if n > len(b) {
			n = len(b)
		}
		b = lenPrefix(b[3:n])
	case sLength:
		n := len(b) - 3 + s.Val%20 - 10
		if n < 0 {
			n = 0
		}
		b[0], b[1], b[2] = byte(n>>16), byte(n>>8), byte(n)
	case sRandom:
		b = body(k, byte(s.Val), s.Pos, s.Len%300)[8:]
	case sZero:
		b = []byte{0, 0, 0}
	case sHuge:
		b = append([]byte{0xFF, 0xFF, 0xFF}, b[3:]...)
	case sBurst:
		b = bytes.Repeat(b, 2+s.Len%40)
	}
	return b
}

func genSeg(r *simrt.Rand) HostSeg {
	s := HostSeg{WSpec: genSpec(r), K: r.Pick(8, 10, 6, 4, 3, 3, 1, 1, 3, 2)}
	if s.Sz > 9000 {
		s.Sz %= 500
	}
	if s.Md > 9000 {
		s.Md %= 500
	}
	s.ID = []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0x7FFFFFFF, 0x7FFFFFFE, 0x80000001, 0xFFFFFFFF, int64(r.U64() & 0xFFFFFFFF)}[r.Intn(16)]
	s.Pos, s.Val, s.Len = r.Intn(40), r.Intn(256), r.Intn(256)
	if r.Bool(0.2) {
		s.Delay = r.Intn(15)
	}
	return s
}

// HostPeer is a hostile client.
type HostPeer struct {
	At   int
	Segs []HostSeg
	Read int // 0 reads, 1 never, 2 slowly
	End  int // 0 stays, 1 closes, 2 resets, 3 half-closes
}

// HostPlan runs hostile clients next to normal ones.
type HostPlan struct {
	RSPlan
	Peers []HostPeer
}

func genHost(r *simrt.Rand, prof string, thorough bool) any {
	p := &HostPlan{RSPlan: RSPlan{Net: genNet(r), Clients: 1 + r.Intn(2)}}
	for n := r.Intn(6); n >= 0; n-- {
		o := genOp(r, p.Clients, [4]int{5, 2, 3, 3})
		o.Req, o.Md = o.Req%2000, o.Md%2000
		if o.K == 0 {
			o.Sz %= 9000
		}
		p.Ops = append(p.Ops, o)
	}
	for n := r.Intn(3); n >= 0; n-- {
		h := HostPeer{At: r.Intn(20), Read: r.Pick(6, 3, 2), End: r.Intn(4)}
		if r.Bool(0.5) {
			h.At = 0
		}
		for k := 1 + r.Intn(12); k > 0; k-- {
			s := genSeg(r)
			if k > 3 && r.Bool(0.7) && s.K != sFrame && s.K != sRequest && s.K != sBurst && s.K != sShortMeta { // what closes a connection comes late
				s.K = r.Pick(3, 4)
			}
			h.Segs = append(h.Segs, s)
		}
		p.Peers = append(p.Peers, h)
	}
	return p
}

func tidySegs(ss []HostSeg) {
	for i := range ss {
		s := &ss[i]
		clamp(&s.T, wRR, wError)
		clamp(&s.K, 0, sKinds-1)
		clamp(&s.Sz, 0, 20000)
		clamp(&s.Md, 0, 20000)
		clamp(&s.Pos, 0, 1<<20)
		clamp(&s.Val, 0, 1<<20)
		clamp(&s.Len, 0, 1<<20)
		if s.K == sBurst {
			clamp(&s.Sz, 0, 1000)
			clamp(&s.Md, 0, 1000)
		}
	}
}

func tidyHost(x any) {
	p := x.(*HostPlan)
	tidyRS(&p.RSPlan)
	total := 0
	for i := range p.Peers {
		tidySegs(p.Peers[i].Segs)
		for _, s := range p.Peers[i].Segs {
			total += (s.Sz + s.Md + 40) * (1 + s.Len%40)
		}
	}
	if p.Net.Window > 0 {
		clamp(&p.Net.Window, total/200+4, 1<<20)
	}
}

// victims are handlers that take whatever comes.
type victims struct{ calls int }

func (v *victims) mode(p pl) int {
	if len(p.Data()) == 0 {
		return 0
	}
	return int(p.Data()[0])
}

func (v *victims) rr(ctx context.Context, p pl) mono.Mono[pl] {
	v.calls++
	note("hostile_requests_served")
	switch v.mode(p) % 5 {
	case 0:
		return mono.Just[pl](payload.New(p.Data(), p.Metadata()))
	case 1:
		return mono.Error[pl](errors.New("no"))
	case 2:
		return mono.Create(func(s mono.Sink[pl]) { s.Success(payload.New(p.Data())) })
	case 3: // never
		return mono.NewProcessor[pl]()
	}
	m := mono.NewProcessor[pl]()
	simrt.GoNamed("victim", func() {
		simrt.TimeSleep(time.Duration(simrt.Choose(10)) * time.Millisecond)
		m.Success(payload.New(p.Data()))
	})
	return m
}

func (v *victims) fnf(ctx context.Context, p pl) { v.calls++; note("hostile_requests_served") }

func (v *victims) source(p pl) flux.Flux[pl] {
	m := v.mode(p)
	n := m / 8 % 12
	switch m % 6 {
	case 0:
		var s []pl
		for i := 0; i < n; i++ {
			s = append(s, payload.New(body(7, 'v', i, 20)))
		}
		return flux.FromSlice(s)
	case 1:
		return flux.Error[pl](errors.New("no"))
	case 2: // never
		return flux.NewProcessor[pl]()
	}
	return flux.Create(func(sink flux.Sink[pl]) {
		left, demand, busy, over := n, 0, false, false
		run := func() {
			if busy {
				return
			}
			busy = true
			for left > 0 && demand > 0 && !over {
				left--
				demand--
				sink.Next(payload.New(body(7, 'v', left, 20)))
				simrt.Yield()
			}
			busy = false
			if left == 0 && !over {
				over = true
				if m%6 == 3 {
					sink.Error(errors.New("no more"))
				} else {
					sink.Complete()
				}
			}
		}
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) {
				if demand < math.MaxInt32 {
					demand += min(n, math.MaxInt32)
				}
				if m%6 == 5 {
					simrt.GoNamed("victim source", run)
				} else {
					run()
				}
			},
			Cancel: func() { over = true },
		})
	})
}

func (v *victims) rs(ctx context.Context, p pl) flux.Flux[pl] {
	v.calls++
	note("hostile_requests_served")
	return v.source(p)
}

func (v *victims) rc(ctx context.Context, p pl, in flux.Flux[pl]) flux.Flux[pl] {
	v.calls++
	note("hostile_requests_served")
	switch v.mode(p) % 4 {
	case 0:
		return flux.Map(in, func(p pl) (pl, error) { return p, nil })
	case 1:
		simrt.GoNamed("victim input", func() {
			got := 0
			var sub rx.Subscription
			in.Subscribe(flux.Subscribe[pl]{
				NoRequest: true,
				OnNext: func(pl) {
					got++
					if sub != nil {
						if got > 5 {
							sub.Cancel()
						} else {
							sub.Request(1)
						}
					}
				},
			})
			sub = in.Subscription()
			sub.Request(3)
		})
	case 2:
		in.Subscribe(flux.Subscribe[pl]{})
	}
	return v.source(p)
}

func runHost(plan any) {
	hp := plan.(*HostPlan)
	g := &rsRig{p: &hp.RSPlan, victims: &victims{}}
	rig = g
	g.states()
	g.setup()
	var ends []*simrt.Conn
	for i := range hp.Peers {
		h := &hp.Peers[i]
		simrt.GoNamed(fmt.Sprintf("hostile peer %d", i), func() {
			simrt.TimeSleep(time.Duration(h.At) * time.Millisecond)
			nc, err := simrt.NetDial("tcp", "127.0.0.1:7878")
			if err != nil {
				fail("host.down", "the server does not take connections any more | %v", err)
			}
			c := nc.(*simrt.Conn)
			ends = append(ends, c)
			if h.Read != 1 {
				simrt.GoNamed(fmt.Sprintf("hostile reader %d", i), func() {
					buf := make([]byte, 512)
					for {
						if _, err := c.Read(buf); err != nil {
							return
						}
						if h.Read == 2 {
							simrt.TimeSleep(time.Duration(simrt.Choose(8)) * time.Millisecond)
						}
					}
				})
			}
			for k, s := range h.Segs {
				if s.Delay > 0 {
					simrt.TimeSleep(time.Duration(s.Delay) * time.Millisecond)
				}
				note(fmt.Sprintf("fault_hostile_%d", s.K))
				if _, err := c.Write(s.bytes(k, uint32(s.ID))); err != nil {
					note("hostile_connections_refused")
					break
				}
			}
			switch h.End {
			case 1:
				c.Close()
			case 2:
				c.ResetNow()
			case 3:
				c.CloseWrite()
			}
		})
	}
	nontrivial()
	g.callers(false)
	g.settle()
	// the server still serves everybody else
	for _, c := range g.conns {
		if c.broken() || c.ret {
			fail("conn.down", "a healthy connection was closed | client %d: Start returned=%v err=%v", c.i, c.ret, c.retErr)
		}
	}
	if g.lret {
		fail("host.down", "the server stopped because of what a peer sent")
	}
	g.judge()
	g.probe("host.down")
	for _, c := range ends {
		c.ResetNow()
	}
	g.settle()
	for i, c := range ends {
		if c.Peer().Open() {
			fail("host.hang", "a connection whose peer is gone was never closed | hostile peer %d", i)
		}
	}
	g.probe("host.down")
	g.judge()
	checkKept()
}

// probe makes a request over a fresh connection, with the harness's own client.
func (g *rsRig) probe(cls string) {
	nc, err := simrt.NetDial("tcp", "127.0.0.1:7878")
	if err != nil {
		fail(cls, "the server does not take connections any more | %v", err)
	}
	c := nc.(*simrt.Conn)
	var got []wf
	simrt.GoNamed("probe", func() { rawReader(c, func(f wf) { got = append(got, f) }, func(error) {}) })
	data := []byte{0, 'p', 'r', 'o', 'b', 'e'}
	c.Write(wf{T: wRR, ID: 1, HasMd: true, Md: reqMeta(1, 0, nil), Data: data}.wire())
	simrt.WaitQuiescent()
	if len(got) != 1 || got[0].T != wPayload || got[0].ID != 1 || got[0].Flags != wNext|wComplete || !bytes.Equal(got[0].Data, data) {
		fail(cls, "a new connection is not served properly | got %v", got)
	}
	c.Close()
	note("probes")
}

// ---------------------------------------------------------------- a hostile server

// HostOp is a request to a hostile server.
type HostOp struct {
	K, Via, Delay, Req, Md int
	In                     int // items of a channel's input
	Grant                  int // demand; 0: unlimited
	Cancel                 int // k+1 after k items
}

type HostSrvPlan struct {
	Net  NetPlan
	Ops  []HostOp
	Segs []HostSeg
	Read int
	End  int // how the connection ends: 0 fin, 1 rst, 2 client closes, 3 client's context
}

func genHostSrv(r *simrt.Rand, prof string, thorough bool) any {
	p := &HostSrvPlan{Net: genNet(r), Read: r.Pick(8, 1), End: r.Intn(4)}
	for n := 1 + r.Intn(7); n > 0; n-- {
		o := HostOp{K: r.Pick(4, 1, 4, 4), Via: r.Intn(4), Req: r.Intn(300), In: r.Intn(6), Grant: r.Intn(4)}
		if r.Bool(0.3) {
			o.Delay = r.Intn(10)
		}
		if r.Bool(0.15) {
			o.Cancel = 1 + r.Intn(3)
		}
		p.Ops = append(p.Ops, o)
	}
	for n := 1 + r.Intn(16); n > 0; n-- {
		s := genSeg(r)
		s.OnReq = r.Bool(0.75)
		s.PerReq = 1 + r.Pick(4, 2, 1)
		if s.OnReq && r.Bool(0.8) {
			s.K = sFrame
			s.T = pick(r, wPayload, wPayload, wPayload, wError, wReqN, wCancel, wRR, wRC)
		} else if r.Bool(0.7) && (s.K >= sMutate && s.K <= sHuge) {
			s.K = sFrame
		}
		p.Segs = append(p.Segs, s)
	}
	return p
}

func tidyHostSrv(x any) {
	p := x.(*HostSrvPlan)
	tidySegs(p.Segs)
	for i := range p.Segs {
		clamp(&p.Segs[i].PerReq, 1, 10)
	}
	for i := range p.Ops {
		clamp(&p.Ops[i].K, 0, 3)
		clamp(&p.Ops[i].Grant, 0, 1000)
	}
	total := 0
	for _, s := range p.Segs {
		total += (s.Sz + s.Md + 40) * (1 + s.Len%40) * len(p.Ops)
	}
	if p.Net.Window > 0 {
		clamp(&p.Net.Window, total/200+4, 1<<20)
	}
}

type hostCall struct {
	i     int
	o     *HostOp
	terms []string
	fin   int
	items int
	canc  bool
	after func(err error) // at the end of a request/response call, where its outcome is told
}

func (c *hostCall) term(s string) {
	simrt.Yield()
	simrt.Logf("call %d (%s): %s", c.i, kindName[c.o.K], short(s))
	c.terms = append(c.terms, s)
	if len(c.terms) > 1 {
		fail("host.twice", "a call ended more than once because of what the peer sent | %s: %v", kindName[c.o.K], c.terms)
	}
}

func (c *hostCall) item(p pl) {
	simrt.Yield()
	if len(c.terms) > 0 {
		fail("host.after", "an item was delivered after the end of its stream because of what the peer sent | call %d", c.i)
	}
	c.items++
	keep(fmt.Sprintf("item of call %d", c.i), p.Data())
	keep(fmt.Sprintf("item metadata of call %d", c.i), p.Metadata())
}

func (c *hostCall) finally(rx.SignalType) {
	c.fin++
	if c.fin > 1 {
		fail("host.twice", "a call ended more than once because of what the peer sent | %s: Finally ran %d times", kindName[c.o.K], c.fin)
	}
}

func (c *hostCall) run(caller invoke.Caller) {
	ctx := context.Background()
	p := payload.New(append([]byte{byte(c.i)}, body(c.i, 'h', 0, c.o.Req)...), reqMeta(1, 0, meta(c.i, 'h', 0, c.o.Md)))
	switch c.o.K {
	case 0:
		m := caller.RequestResponse(ctx, p)
		end := func(v pl, err error) {
			if err == nil && v == nil {
				fail("host.nil", "a call succeeded without a payload | call %d", c.i)
			}
			c.term(fmt.Sprint("outcome ", err))
			if c.after != nil {
				c.after(err)
			}
		}
		switch c.o.Via {
		case 0:
			end(m.Block())
		case 1:
			m.Async()
			m.Notify(func(rx.SignalType) { end(m.Get()) })
		default:
			m.Subscribe(mono.Subscribe[pl]{OnSuccess: func(v pl) { end(v, nil) }, OnError: func(err error) { end(nil, err) }, Finally: c.finally})
		}
	case 1:
		caller.FireAndForget(ctx, p)
	default:
		var f flux.Flux[pl]
		if c.o.K == 2 {
			f = caller.RequestStream(ctx, p)
		} else {
			var in []pl
			for i := 0; i < c.o.In; i++ {
				in = append(in, payload.New(body(c.i, 'i', i, 30)))
			}
			f = caller.RequestChannel(ctx, p, flux.FromSlice(in))
		}
		var sub rx.Subscription
		f.Subscribe(flux.Subscribe[pl]{
			OnNext: func(p pl) {
				c.item(p)
				if c.canc {
					return
				}
				if c.o.Cancel > 0 && c.items >= c.o.Cancel && sub != nil {
					c.canc = true
					sub.Cancel()
				} else if c.o.Grant > 0 && sub != nil {
					sub.Request(1)
				}
			},
			OnComplete: func() { c.term("complete") },
			OnError:    func(err error) { c.term("error " + err.Error()) },
			Finally:    c.finally,
			NoRequest:  c.o.Grant > 0,
		})
		sub = f.Subscription()
		if c.o.Grant > 0 {
			sub.Request(c.o.Grant)
		}
		if c.o.Cancel == 1 && !c.canc {
			c.canc = true
			sub.Cancel()
		}
	}
}

func runHostSrv(plan any) {
	p := plan.(*HostSrvPlan)
	p.Net.apply()
	keptBytes = nil
	v := &victims{}
	v.export()
	l, err := simrt.NetListen("tcp", ":7878")
	if err != nil {
		harness("%v", err)
	}
	cctx, cancel := context.WithCancel(context.Background())
	nc, err := rsocket.NewConnWithAddr(cctx, "tcp", "127.0.0.1:7878", nil)
	if err != nil {
		fail("setup", "dialling failed | %v", err)
	}
	sc, err := l.Accept()
	if err != nil {
		harness("%v", err)
	}
	s := sc.(*simrt.Conn)
	h := handler.New(cctx, handler.ClientMode)
	t := rsocket.NewTCPClientTransport(nc, h)
	h.SetFrameSender(func(f frames.Frame) error { return t.Send(f, true) })
	ret := false
	simrt.GoNamed("client", func() {
		err := t.Start(cctx)
		ret = true
		simrt.Logf("Start returned %v", err)
	})
	send := func(k int, x HostSeg, id uint32) bool {
		if x.Delay > 0 {
			simrt.TimeSleep(time.Duration(x.Delay) * time.Millisecond)
		}
		note(fmt.Sprintf("fault_hostile_%d", x.K))
		_, err := s.Write(x.bytes(k, id))
		return err == nil
	}
	if p.Read == 0 {
		simrt.GoNamed("hostile server", func() {
			reqs := 0
			rawReader(s, func(f wf) {
				if f.T > wRC {
					return
				}
				reqs++
				for k, x := range p.Segs {
					if x.OnReq && reqs%x.PerReq == 0 {
						if !send(k, x, f.ID) {
							return
						}
					}
				}
			}, func(err error) { fail("host.garbage", "the client sends what is not a sequence of frames | %v", err) })
		})
	}
	simrt.GoNamed("hostile server's own", func() {
		for k, x := range p.Segs {
			if !x.OnReq && !send(k, x, uint32(x.ID)) {
				return
			}
		}
	})
	var calls []*hostCall
	for i := range p.Ops {
		c := &hostCall{i: i, o: &p.Ops[i]}
		calls = append(calls, c)
		simrt.GoNamed(fmt.Sprintf("call %d", i), func() {
			simrt.TimeSleep(time.Duration(c.o.Delay) * time.Millisecond)
			c.run(h)
		})
	}
	nontrivial()
	simrt.WaitQuiescent()
	switch p.End {
	case 0:
		s.CloseWrite()
	case 1:
		s.ResetNow()
	case 2:
		t.Close()
	default:
		cancel()
	}
	simrt.WaitQuiescent()
	s.ResetNow()
	simrt.WaitQuiescent()
	if !ret {
		fail("host.hang", "a client whose connection is gone never returned")
	}
	for _, c := range calls {
		if c.o.K == 1 || c.canc {
			continue
		}
		if len(c.terms) == 0 {
			fail("host.silent", "the connection is gone but a call was never ended | %s %d", kindName[c.o.K], c.i)
		}
	}
	checkKept()
	cancel()
}

func (v *victims) export() {
	for _, n := range []string{"a", "b"} {
		invoke.ExportRequestResponse("victim", n, v.rr)
		invoke.ExportFireAndForget("victim", n, v.fnf)
		invoke.ExportRequestStream("victim", n, v.rs)
		invoke.ExportRequestChannel("victim", n, v.rc)
	}
}

var famHost = &Family{Name: "hostile", Gen: genHost, New: func() any { return &HostPlan{} }, Run: runHost, Tidy: tidyHost}
var famHostSrv = &Family{Name: "hostserver", Gen: genHostSrv, New: func() any { return &HostSrvPlan{} }, Run: runHostSrv, Tidy: tidyHostSrv}

func init() {
	register(&Check{ID: "C04", Variants: []Variant{{F: famHost, Prof: "peers", Weight: 3, Steps: 400000}, {F: famHostSrv, Prof: "server", Weight: 2, Steps: 400000}},
		Accept: []string{"host.", "conn.down", "rr.", "rs.", "rc.", "fnf.", "can.", "dem.", "own."}, Real: realRS, Stubs: stubRS,
		Rule: "A run connects hostile clients that send random bytes, malformed, mutated, truncated, oversized, duplicated and protocol-violating frames (and may never read) to a real server that serves normal clients at the same time, or makes calls from a real client to a hostile server; nothing may panic or hang, every other connection and every new one must be served properly, and no call may end twice or stay pending once its connection is gone."})
}

//go:build go1.22

package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"syscall"
	"time"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/verifsim/simrt"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/rsocket"
)

// LifeClient is one connection and how it ends.
type LifeClient struct {
	Kind  int // 0 a real client, 1 a silent peer, 2 a peer that floods and never reads, 3 half a frame and then silence
	Via   int // 0 all by hand, 1 NewClient, 2 Connect (no calls then)
	Raw   int // 0 to the real server; to a harness server: 1 it reads, 2 it never reads, 3 it floods, 4 it sends half a frame
	At    int // ms
	Ends  []int
	EndAt []int // ms
	Calls int   // calls made one after another
	Size  int
	Phase int // 0: before the first rest, 1: after it
}

const (
	endCtx = iota
	endClose
	endFin      // the client's end is closed
	endRst      // the client's end is reset
	endPeerFin  // the server's end is closed under its transport
	endPeerRst  // the server's end is reset
	endWriteErr // writes fail from now on
	endKinds
)

// LifeStop ends the server.
type LifeStop struct {
	Kind  int // 0 context, 1 Close, 2 accept fails
	At    int
	Phase int
}

// LifePlan is the life of a server and its connections.
type LifePlan struct {
	Net      NetPlan
	Clients  []LifeClient
	Stops    []LifeStop
	Early    int // 1: closed before Listen, 2: context cancelled before Listen
	NoPort   bool
	Late     int // dials after the server has stopped
	Temp     int // transient accept errors
	CloseErr int // percent of closes that report an error
}

type lifeConn struct {
	LifeClient
	i       int
	c       *simrt.Conn
	t       *rsocket.Transport
	h       *handler.Handler
	cancel  context.CancelFunc
	tried   bool
	ret     bool
	ends    uint64 // when its end was begun
	calls   int
	pending string
}

type lifeRig struct {
	p        *LifePlan
	cs       []*lifeConn
	server   rsocket.ServerTransport
	stop     uint64 // when the first stop was begun
	over     bool   // the server has stopped and everything came to rest
	accepted []invoke.Caller
	lret     bool
	lerr     error
	known    int
	handled  int
	dialing  map[int]*lifeConn // by task
}

func genLife(r *simrt.Rand, prof string, thorough bool) any {
	p := &LifePlan{Net: genNet(r)}
	n := r.Intn(5)
	if r.Bool(0.1) {
		n += 5
	}
	at := func() int { return pick(r, 0, 0, r.Intn(3), r.Intn(20), r.Intn(60)) }
	for i := 0; i < n; i++ {
		c := LifeClient{Kind: r.Pick(60, 12, 14, 14), At: at(), Calls: r.Intn(5), Size: pick(r, 10, r.Intn(300), 9000), Phase: r.Pick(60, 40)}
		if prof == "client" || r.Bool(0.15) {
			c.Kind, c.Raw = 0, 1+r.Intn(4)
		}
		if c.Kind == 0 && c.Raw == 0 && r.Bool(0.25) {
			c.Via, c.Calls = 1+r.Intn(2), 0
		}
		for k := r.Pick(40, 45, 15); k > 0; k-- {
			c.Ends = append(c.Ends, r.Intn(endKinds))
			c.EndAt = append(c.EndAt, at())
		}
		if prof == "client" && len(c.Ends) == 0 {
			c.Ends, c.EndAt = []int{r.Intn(2)}, []int{at()}
		}
		p.Clients = append(p.Clients, c)
	}
	for k := 1 + r.Pick(60, 30, 10); k > 0; k-- {
		p.Stops = append(p.Stops, LifeStop{Kind: r.Pick(45, 45, 10), At: at(), Phase: r.Pick(35, 65)})
	}
	p.Early = r.Pick(88, 6, 6)
	p.NoPort = r.Bool(0.03)
	if r.Bool(0.3) {
		p.CloseErr = pick(r, 20, 50, 100)
	}
	p.Late = r.Intn(3)
	return p
}

func tidyLife(x any) {
	p := x.(*LifePlan)
	tidyNet(&p.Net, 100000)
	if len(p.Clients) > 12 {
		p.Clients = p.Clients[:12]
	}
	for i := range p.Clients {
		c := &p.Clients[i]
		clamp(&c.Kind, 0, 3)
		clamp(&c.Raw, 0, 4)
		clamp(&c.At, 0, 100)
		clamp(&c.Calls, 0, 8)
		clamp(&c.Size, 8, 20000)
		clamp(&c.Phase, 0, 1)
		if c.Raw != 0 {
			c.Kind = 0
		}
		clamp(&c.Via, 0, 2)
		if c.Raw != 0 || c.Kind != 0 {
			c.Via = 0
		}
		if c.Via != 0 {
			c.Calls = 0
		}
		for len(c.EndAt) < len(c.Ends) {
			c.EndAt = append(c.EndAt, 0)
		}
		c.EndAt = c.EndAt[:len(c.Ends)]
		for j := range c.Ends {
			clamp(&c.Ends[j], 0, endKinds-1)
			clamp(&c.EndAt[j], 0, 200)
		}
	}
	if len(p.Stops) == 0 {
		p.Stops = []LifeStop{{Kind: 1, Phase: 1}}
	}
	for i := range p.Stops {
		s := &p.Stops[i]
		clamp(&s.Kind, 0, 2)
		clamp(&s.At, 0, 200)
		clamp(&s.Phase, 0, 1)
	}
	clamp(&p.Early, 0, 2)
	clamp(&p.CloseErr, 0, 100)
	clamp(&p.Late, 0, 4)
}

func lifeData(i, k, size int) []byte {
	b := bytes.Repeat([]byte{byte(i), byte(k), 0xA5}, size/3+1)[:size]
	return b
}

var errNoPort = errors.New("no port to be had")

func (g *lifeRig) stopping() {
	if g.stop == 0 {
		g.stop = simrt.Event()
	}
}

func runLife(x any) {
	p := x.(*LifePlan)
	g := &lifeRig{p: p}
	keptBytes = nil
	p.Net.apply()
	g.dialing = map[int]*lifeConn{}
	simrt.S.Net.OnDial = func(i int, client, server *simrt.Conn) {
		if c := g.dialing[simrt.TaskID()]; c != nil {
			c.c = client
			if c.Via == 2 {
				c.tried = true
				for j := range c.Ends {
					g.end(c, c.Ends[j], c.EndAt[j])
				}
			}
		}
	}
	simrt.S.Net.CloseErrP = float64(p.CloseErr) / 100
	invoke.ExportRequestResponse("sim", "echo", func(ctx context.Context, q pl) mono.Mono[pl] {
		g.handled++
		if g.over {
			fail("life.served", "a request was served after the server had stopped")
		}
		simrt.Yield()
		return mono.Just[pl](payload.New(append([]byte("re:"), q.Data()...)))
	})
	lf := rsocket.NewTCPListenerFactory("tcp", ":7878", nil)
	g.server = rsocket.NewTCPServerTransport(func(ctx context.Context) (net.Listener, error) {
		if p.NoPort {
			return nil, errNoPort
		}
		return lf(ctx)
	}, func(ctx context.Context) (rsocket.DuplexHandler, error) {
		return handler.New(ctx, handler.ServerMode), nil
	})
	g.server.Accept(func(ctx context.Context, caller invoke.Caller, onClose func(*rsocket.Transport)) {
		g.accepted = append(g.accepted, caller)
		if g.over {
			fail("life.served", "a connection was accepted after the server had stopped")
		}
	})
	sctx, cancel := context.WithCancel(context.Background())
	if p.Early != 0 {
		g.stopping()
	}
	switch p.Early {
	case 1:
		g.server.Close()
		note("fault_closed_before_listen")
	case 2:
		cancel()
		note("fault_cancelled_before_listen")
	}
	notify := make(chan bool, 1)
	notified := ""
	simrt.GoNamed("server", func() {
		g.lerr = g.server.Listen(sctx, notify)
		g.lret = true
		simrt.Logf("Listen returned %v", g.lerr)
	})
	simrt.GoNamed("notified", func() {
		ok := simrt.Recv(notify)
		notified = fmt.Sprint(ok)
		if ok && simrt.S.Net.Listeners() == 0 && g.stop == 0 {
			fail("life.listen", "the server said it listens but does not")
		}
	})
	for _, ph := range []int{0, 1} {
		for i := range p.Clients {
			if p.Clients[i].Phase == ph {
				c := &lifeConn{LifeClient: p.Clients[i], i: i}
				g.cs = append(g.cs, c)
				simrt.GoNamed(fmt.Sprintf("client %d", i), func() { g.live(c) })
			}
		}
		for _, s := range p.Stops {
			s := s
			if s.Phase != ph {
				continue
			}
			simrt.GoNamed("stop", func() {
				sleepJitter(s.At)
				g.stopping()
				simrt.Logf("the server is stopped: %d", s.Kind)
				switch s.Kind {
				case 0:
					note("fault_server_cancelled")
					cancel()
				case 1:
					note("fault_server_closed")
					g.server.Close()
				default:
					simrt.S.Net.AcceptE = append(simrt.S.Net.AcceptE, syscall.EMFILE)
				}
			})
		}
		simrt.WaitQuiescent()
		g.atRest(ph)
	}
	if p.NoPort {
		if g.lerr == nil || notified != "false" {
			fail("life.listen", "a server that cannot listen must say so | Listen returned %v, notified %q", g.lerr, notified)
		}
		return
	}
	if notified == "" {
		fail("life.listen", "the server never said whether it listens")
	}
	g.over = true
	for k := 0; k < p.Late; k++ {
		if c, err := simrt.NetDial("tcp", "127.0.0.1:7878"); err == nil {
			simrt.GoNamed("late peer", func() {
				c.Write(floodBytes(1, 100))
				c.Read(make([]byte, 10))
				fail("life.served", "a new connection is open after the server had stopped")
			})
		}
		note("dials_after_stop")
	}
	simrt.WaitQuiescent()
	nontrivial()
}

func sleepJitter(ms int) {
	simrt.TimeSleep(time.Duration(ms) * time.Millisecond)
	for k := simrt.Choose(60); k > 0; k-- {
		simrt.Gosched()
	}
}

// floodBytes are n requests with answers of some size.
func floodBytes(n, size int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		f := &frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, StreamID: uint32(1 + 2*i), Metadata: reqMeta(0, 0, nil), Data: lifeData(7, i, size)}
		raw := make([]byte, f.Size())
		f.Encode(raw)
		b = append(b, byte(len(raw)>>16), byte(len(raw)>>8), byte(len(raw)))
		b = append(b, raw...)
	}
	return b
}

// live is a connection's life.
func (g *lifeRig) live(c *lifeConn) {
	sleepJitter(c.At)
	ctx, cancel := context.WithCancel(context.Background())
	c.cancel = cancel
	var conn net.Conn
	var err error
	if c.Raw != 0 {
		a, b := simrt.S.Net.Pair()
		conn = a
		simrt.GoNamed(fmt.Sprintf("server of client %d", c.i), func() { g.rawPeer(b, c.Raw) })
	} else if c.Via != 0 {
		g.dialing[simrt.TaskID()] = c
		if c.Via == 2 {
			err = rsocket.Connect()
			c.tried = true
			g.returned(c, err)
			return
		}
		c.t, err = rsocket.NewClient(ctx)
		conn = c.c
	} else {
		conn, err = rsocket.NewConnWithAddr(ctx, "tcp", "127.0.0.1:7878", nil)
	}
	c.tried = true
	if err != nil {
		if !g.p.NoPort && g.stop == 0 && g.p.Early == 0 && simrt.S.Net.Listeners() > 0 {
			fail("life.refused", "a listening server refused a connection | client %d: %v", c.i, err)
		}
		return
	}
	c.c = conn.(*simrt.Conn)
	if c.Kind != 0 {
		for j := range c.Ends {
			g.end(c, c.Ends[j], c.EndAt[j])
		}
		g.rawPeer(c.c, c.Kind+10)
		return
	}
	if c.Via == 0 {
		c.h = handler.New(ctx, handler.ClientMode)
		c.t = rsocket.NewTCPClientTransport(conn, c.h)
		c.h.SetFrameSender(func(f frames.Frame) error { return c.t.Send(f, true) })
	}
	for j := range c.Ends {
		g.end(c, c.Ends[j], c.EndAt[j])
	}
	if c.Via == 0 {
		simrt.GoNamed(fmt.Sprintf("calls of client %d", c.i), func() { g.call(c) })
	}
	g.returned(c, c.t.Start(ctx))
}

// returned looks at the end of a client's Start or Connect.
func (g *lifeRig) returned(c *lifeConn, err error) {
	simrt.Logf("client %d: Start returned %v", c.i, err)
	if c.c == nil {
		if err == nil {
			fail("life.start", "a client that could not connect reported no error | client %d", c.i)
		}
		if !g.p.NoPort && g.stop == 0 && g.p.Early == 0 && simrt.S.Net.Listeners() > 0 {
			fail("life.refused", "a listening server refused a connection | client %d: %v", c.i, err)
		}
		return
	}
	c.ret = true
	if c.ends == 0 && g.stop == 0 && c.Raw == 0 {
		fail("life.start", "a healthy client's Start returned | client %d: %v", c.i, err)
	}
}

func (g *lifeRig) rawPeer(x *simrt.Conn, kind int) {
	switch kind {
	case 1: // reads
		buf := make([]byte, 4000)
		for {
			if _, err := x.Read(buf); err != nil {
				return
			}
		}
	case 3, 12:
		note("fault_flooding_peer")
		x.Write(floodBytes(40, 3000))
	case 4, 13:
		b := floodBytes(2, 50)
		x.Write(b[:len(b)-7])
	default:
		note("fault_silent_peer")
	}
}

func (g *lifeRig) end(c *lifeConn, kind, at int) {
	simrt.GoNamed(fmt.Sprintf("end of client %d", c.i), func() {
		sleepJitter(at)
		if c.ends == 0 {
			c.ends = simrt.Event()
		}
		simrt.Logf("client %d is ended: %d", c.i, kind)
		switch kind {
		case endCtx, endClose:
			if c.t == nil {
				c.c.Close()
				return
			}
			if kind == endCtx {
				note("fault_client_cancelled")
				c.cancel()
				return
			}
			note("fault_client_closed")
			c.t.Close()
		case endFin:
			note("fault_fin")
			c.c.FinNow()
		case endRst:
			note("fault_reset")
			c.c.ResetNow()
		case endPeerFin:
			note("fault_fin")
			c.c.Peer().FinNow()
		case endPeerRst:
			note("fault_reset")
			c.c.Peer().ResetNow()
		case endWriteErr:
			note("fault_write_error")
			c.c.WriteErrAfter(c.c.Sent())
			c.c.ResetNow()
		}
	})
}

func (g *lifeRig) call(c *lifeConn) {
	for k := 0; k < c.Calls; k++ {
		q := lifeData(c.i, k, c.Size)
		c.pending = fmt.Sprintf("call %d of client %d", k, c.i)
		v, err := c.h.RequestResponse(context.Background(), payload.New(q, reqMeta(0, 0, nil))).Block()
		c.pending = ""
		if err != nil {
			if c.ends == 0 && g.stop == 0 && c.Raw == 0 {
				fail("life.call", "a call on a healthy connection to a running server failed | client %d: %v", c.i, err)
			}
			return
		}
		if c.Raw != 0 || !bytes.Equal(v.Data(), append([]byte("re:"), q...)) {
			fail("life.call", "a call was answered with what its handler did not give | client %d", c.i)
		}
		c.calls++
	}
}

// atRest looks at what is left when nothing moves any more.
func (g *lifeRig) atRest(phase int) {
	p := g.p
	stopped := g.stop != 0
	if stopped && !g.lret {
		fail("life.listen", "Listen does not return although the server was stopped")
	}
	if !stopped && g.lret && !p.NoPort {
		fail("life.listen", "Listen returned although the server was not stopped | %v", g.lerr)
	}
	if n := simrt.S.Net.Listeners(); stopped && n > 0 {
		fail("life.listener", "the listener is still open after the server was stopped")
	} else if !stopped && !p.NoPort && n == 0 {
		fail("life.listener", "the listener is closed although the server was not stopped")
	}
	for _, c := range g.cs {
		if !c.tried {
			fail("stuck", "a client did not get to dial | %d", c.i)
		}
		if c.c == nil {
			continue
		}
		s := c.c.Peer()
		if c.Raw != 0 {
			if c.clientEnded() && !c.ret {
				fail("life.start", "Start does not return although the client was ended | client %d, %v", c.i, c.Ends)
			}
			if c.ret && c.c.Open() {
				fail("life.open", "a connection is still open after its transport has ended | client %d", c.i)
			}
			continue
		}
		if stopped && s.Open() && !s.Dead() {
			fail("life.open", "a connection to the server is still open after it was stopped | client %d", c.i)
		}
		gone := stopped || c.ends != 0 && c.hardEnd()
		if gone && c.Kind == 0 && !c.ret {
			fail("life.start", "Start does not return although the connection was ended | client %d, %v", c.i, c.Ends)
		}
		if c.ret && c.c.Open() {
			fail("life.open", "a connection is still open after its transport has ended | client %d", c.i)
		}
		if gone && s.Open() && !s.Dead() {
			fail("life.open", "the server keeps a connection open that has ended | client %d, %v", c.i, c.Ends)
		}
		if c.Kind == 0 && !gone && c.ends == 0 {
			if c.ret || c.c.Broken() || s.Broken() {
				fail("life.healthy", "a healthy connection was ended while the server runs | client %d", c.i)
			}
			if c.calls != c.Calls {
				fail("life.call", "a call on a healthy connection to a running server got no answer | %s", c.pending)
			}
			note("healthy_connections_checked")
		}
		if c.ret && c.pending != "" {
			fail("life.pending", "a call is still pending on a connection that has ended | %s", c.pending)
		}
	}
	if len(simrt.S.Net.Conns) > 0 {
		if c, where := holdsConn(g.server, func(x *simrt.Conn) bool { return !x.Open() || x.Peer().Broken() && x.Dead() }); c != nil {
			fail("life.forgotten", "the server still holds a connection that has ended | connection %d at %s", c.ID, where)
		}
	}
	if stopped && phase == 1 {
		note("stopped_servers_inspected")
	}
}

// hardEnd tells whether the connection cannot live on after what was done to it.
func (c *lifeConn) hardEnd() bool {
	for _, e := range c.Ends {
		if e != endPeerFin || c.Kind == 0 {
			return true
		}
	}
	return false
}

// clientEnded tells the same of a client of a harness server.
func (c *lifeConn) clientEnded() bool {
	for _, e := range c.Ends {
		if e != endFin {
			return true
		}
	}
	return false
}

var famLife = &Family{Name: "life", Gen: genLife, New: func() any { return &LifePlan{} }, Run: runLife, Tidy: tidyLife}

func init() {
	register(&Check{
		ID: "C12",
		Variants: []Variant{
			{F: famLife, Prof: "any", Weight: 80, Steps: 400000},
			{F: famLife, Prof: "client", Weight: 20, Steps: 400000},
		},
		Accept: []string{"life."},
		Rule:   "random lives of a server and its connections (real clients with calls, silent, flooding and half-frame peers; clients of silent, flooding and half-frame servers), ended and stopped in every way at random moments",
		Real:   "tcp_transport.go, transport.go, tcp_conn.go, decoder.go, handler, proxy, rx, invoke: instrumented real code",
		Stubs:  "the network, clocks, goroutine scheduling and channels are simulated; the application handlers and raw peers are the harness's",
	})
}

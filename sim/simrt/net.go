//go:build go1.22

package simrt

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"
	"time"
)

// Network is the simulated TCP network of one run.
type Network struct {
	ls    map[string]*Listener
	Conns []*Conn
	// configuration
	SegP               float64 // probability that a write is split at a random point
	ShortP             float64 // probability that a read returns less than is available
	MaxLat             int     // ms, per segment
	Window             int     // bytes in flight per direction before writes block
	EOFData            bool    // deliver EOF together with the last bytes when possible
	StallP             float64 // probability that a segment is held for a long time
	nconn              int
	AcceptE            []error // errors to return from Accept
	OnDial             func(i int, client, server *Conn)
	ResetOnCloseUnread bool
	CloseErrP          float64 // probability that closing a connection or listener, done all the same, reports an error
}

// closeErr is what Close reports although it closed.
func (n *Network) closeErr() error {
	if n.CloseErrP > 0 && ChooseP(n.CloseErrP) {
		Stat("fault_close_error")
		return os.NewSyscallError("close", syscall.EIO)
	}
	return nil
}

func newNetwork() *Network { return &Network{ls: map[string]*Listener{}, Window: 1 << 20} }

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// Listener is a simulated net.Listener.
type Listener struct {
	n      *Network
	a      addr
	q      []*Conn
	closed bool
}

func port(a string) string {
	_, p, err := net.SplitHostPort(a)
	if err != nil {
		return a
	}
	return p
}

// NetListenConfig replaces net.ListenConfig.
type NetListenConfig struct {
	Control   func(network, address string, c syscall.RawConn) error
	KeepAlive time.Duration
}

func (lc *NetListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	return NetListen(network, address)
}

// NetListen replaces net.Listen.
func NetListen(network, address string) (net.Listener, error) {
	Y(0)
	gate()
	n := S.Net
	p := port(address)
	if l, ok := n.ls[p]; ok && !l.closed {
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &Listener{n: n, a: addr(p)}
	n.ls[p] = l
	return l, nil
}

func (l *Listener) Addr() net.Addr { return l.a }
func (l *Listener) Close() error {
	Y(0)
	gate()
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.a, Err: net.ErrClosed}
	}
	l.closed = true
	for _, c := range l.q {
		c.reset()
	}
	l.q = nil
	if err := l.n.closeErr(); err != nil {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.a, Err: err}
	}
	return nil
}
func (l *Listener) Accept() (net.Conn, error) {
	Y(0)
	gate()
	Block("accept", func() bool { return l.closed || len(l.q) > 0 || len(l.n.AcceptE) > 0 })
	if l.closed {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.a, Err: net.ErrClosed}
	}
	if len(l.n.AcceptE) > 0 {
		e := l.n.AcceptE[0]
		l.n.AcceptE = l.n.AcceptE[1:]
		Stat("fault_accept_error")
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.a, Err: e}
	}
	c := l.q[0]
	l.q = l.q[1:]
	return c, nil
}

// Open tells whether the listener still accepts.
func (l *Listener) Open() bool { return !l.closed }

// Listeners returns the open listeners.
func (n *Network) Listeners() int {
	k := 0
	for _, l := range n.ls {
		if !l.closed {
			k++
		}
	}
	return k
}

// NetDialer replaces net.Dialer.
type NetDialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	KeepAlive time.Duration
	LocalAddr net.Addr
}

func (d *NetDialer) Dial(network, address string) (net.Conn, error) {
	return NetDial(network, address)
}
func (d *NetDialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	return NetDial(network, address)
}

// NetDialTimeout replaces net.DialTimeout.
func NetDialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return NetDial(network, address)
}

// NetDial replaces net.Dial.
func NetDial(network, address string) (net.Conn, error) {
	Y(0)
	gate()
	n := S.Net
	l := n.ls[port(address)]
	if l == nil || l.closed {
		return nil, &net.OpError{Op: "dial", Net: network, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	c, s := n.Pair()
	if n.OnDial != nil {
		n.OnDial(c.ID, c, s)
	}
	l.q = append(l.q, s)
	return c, nil
}

// pipe is one direction of a connection.
type pipe struct {
	buf      []byte
	inflight int
	lastAt   int64
	fin      bool // end of stream arrived
	finSent  bool
	total    int64 // bytes accepted from the writer
	cutAt    int64 // >=0: after that many bytes apply cut
	cutKind  string
	busy     bool // a Write is in progress
	segs     int
}

// Conn is one end of a simulated TCP connection.
type Conn struct {
	n       *Network
	ID      int
	Side    string
	peer    *Conn
	in, out *pipe
	closed  bool
	rst     bool
	Opened  uint64
	rdl     time.Time
	wdl     time.Time
	// RxTap and TxTap observe bytes handed to the reader and accepted from the writer.
	TxTap      func(b []byte)
	wrErrAfter int64 // >=0: fail writes after that many bytes
	CloseCount int
	reads      int
}

// Pair makes a connected pair.
func (n *Network) Pair() (*Conn, *Conn) {
	a, b := &pipe{cutAt: -1}, &pipe{cutAt: -1}
	i := n.nconn
	n.nconn++
	c := &Conn{n: n, ID: i, Side: "client", in: a, out: b, wrErrAfter: -1, Opened: S.step}
	s := &Conn{n: n, ID: i, Side: "server", in: b, out: a, wrErrAfter: -1, Opened: S.step}
	c.peer, s.peer = s, c
	n.Conns = append(n.Conns, c, s)
	Stat("connections")
	return c, s
}

var errReset = os.NewSyscallError("read", syscall.ECONNRESET)
var errPipe = os.NewSyscallError("write", syscall.EPIPE)

func (c *Conn) op(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.LocalAddr(), Addr: c.RemoteAddr(), Err: err}
}
func (c *Conn) LocalAddr() net.Addr  { return addr(fmt.Sprintf("%s-%d", c.Side, c.ID)) }
func (c *Conn) RemoteAddr() net.Addr { return addr(fmt.Sprintf("%s-%d", c.peer.Side, c.ID)) }
func (c *Conn) SetDeadline(t time.Time) error {
	c.rdl, c.wdl = t, t
	c.armDL(t)
	return nil
}
func (c *Conn) SetReadDeadline(t time.Time) error  { c.rdl = t; c.armDL(t); return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { c.wdl = t; c.armDL(t); return nil }
func (c *Conn) armDL(t time.Time) {
	if !t.IsZero() {
		S.addTimer(TimeUntil(t), true, func() {})
	}
}
func past(t time.Time) bool { return !t.IsZero() && !TimeNow().Before(t) }

// Open tells whether the end has not been closed locally.
func (c *Conn) Open() bool { return !c.closed }

// Dead tells whether the connection can no longer carry anything.
func (c *Conn) Dead() bool { return c.rst || c.closed }

func (c *Conn) Read(p []byte) (int, error) {
	Y(0)
	gate()
	if len(p) == 0 {
		return 0, nil
	}
	Block("net read "+c.Side, func() bool {
		return c.closed || c.rst || len(c.in.buf) > 0 || c.in.fin || past(c.rdl)
	})
	switch {
	case c.closed:
		return 0, c.op("read", net.ErrClosed)
	case len(c.in.buf) > 0 && !c.rst:
	case c.rst:
		return 0, c.op("read", errReset)
	case c.in.fin:
		return 0, io.EOF
	case past(c.rdl):
		return 0, c.op("read", os.ErrDeadlineExceeded)
	}
	n := len(p)
	if n > len(c.in.buf) {
		n = len(c.in.buf)
	}
	if lo := 1 + c.reads/8; n > lo && ChooseP(c.n.ShortP) { // never so many pieces that a run does not end
		n = lo + Choose(n-lo)
		Stat("fault_short_read")
	}
	c.reads++
	copy(p, c.in.buf[:n])
	// The kernel's copy is gone: later bytes reuse nothing of ours.
	c.in.buf = c.in.buf[n:]
	if c.n.EOFData && len(c.in.buf) == 0 && c.in.fin {
		Stat("fault_data_with_eof")
		return n, io.EOF
	}
	return n, nil
}

func (c *Conn) Write(b []byte) (int, error) {
	Y(0)
	gate()
	o := c.out
	if o.busy {
		Block("net write lock", func() bool { return !o.busy })
	}
	o.busy = true
	defer func() { o.busy = false }()
	written := 0
	for {
		switch {
		case c.closed:
			return written, c.op("write", net.ErrClosed)
		case c.rst:
			return written, c.op("write", errPipe)
		case past(c.wdl):
			return written, c.op("write", os.ErrDeadlineExceeded)
		}
		if written == len(b) {
			return written, nil
		}
		window := c.n.Window
		if o.segs/4 > window {
			window = o.segs / 4
		}
		room := window - len(o.buf) - o.inflight
		if room <= 0 && !c.peer.closed {
			Stat("write_blocked")
			Block("net write", func() bool {
				return c.closed || c.rst || c.peer.closed || len(o.buf)+o.inflight < window || past(c.wdl)
			})
			continue
		}
		k := len(b) - written
		if k > room && !c.peer.closed {
			k = room
		}
		if lo := 1 + o.segs/8; k > lo && ChooseP(c.n.SegP) {
			k = lo + Choose(k-lo)
			Stat("fault_split_write")
		}
		if c.wrErrAfter >= 0 && o.total+int64(k) > c.wrErrAfter {
			k = int(c.wrErrAfter - o.total)
			if k > 0 {
				c.send(b[written : written+k])
				written += k
			}
			c.wrErrAfter = -1
			Stat("fault_write_error")
			c.hardReset()
			return written, c.op("write", errReset)
		}
		if c.TxTap != nil {
			c.TxTap(b[written : written+k])
		}
		if c.peer.closed { // the peer's kernel answers with a reset
			o.total += int64(k)
			written += k
			c.reset()
			continue
		}
		cut := o.cutAt >= 0 && o.total+int64(k) >= o.cutAt
		if cut {
			m := int(o.cutAt - o.total)
			if m > 0 {
				c.send(b[written : written+m])
			}
			o.cutAt = -1
			Stat("fault_cut_" + o.cutKind)
			switch o.cutKind {
			case "fin": // orderly close in the middle of the byte stream
				c.sendFin()
				c.closed = true
				c.peerGone()
			default:
				c.hardReset()
			}
			continue
		}
		c.send(b[written : written+k])
		written += k
		if written < len(b) {
			Y(0)
		}
	}
}

// peerGone: the other end sees end of stream; what it sends from now on is answered by a reset.
func (c *Conn) peerGone() {}

func (c *Conn) latency(o *pipe) time.Duration {
	at := S.now
	if c.n.MaxLat > 0 {
		at += int64(Choose(c.n.MaxLat+1)) * 1e6
	}
	if ChooseP(c.n.StallP) {
		at += int64(1+Choose(20)) * 1e9
		Stat("fault_stall")
	}
	if at < o.lastAt {
		at = o.lastAt
	}
	o.lastAt = at
	return time.Duration(at - S.now)
}

func (c *Conn) send(b []byte) {
	o := c.out
	o.total += int64(len(b))
	o.segs++
	if S.cfg.MaxSteps < S.hardMax {
		S.cfg.MaxSteps += 150
	}
	d := append([]byte(nil), b...)
	lat := c.latency(o)
	StatN("net_bytes", int64(len(d)))
	if lat == 0 && o.inflight == 0 {
		o.buf = append(o.buf, d...)
		return
	}
	o.inflight += len(d)
	p := c.peer
	S.addTimer(lat, false, func() {
		o.inflight -= len(d)
		if !p.rst && !p.closed {
			o.buf = append(o.buf[:len(o.buf):len(o.buf)], d...)
		}
	})
}

func (c *Conn) sendFin() {
	o := c.out
	if o.finSent {
		return
	}
	o.finSent = true
	lat := c.latency(o)
	if lat == 0 && o.inflight == 0 {
		o.fin = true
		return
	}
	S.addTimer(lat, false, func() { o.fin = true })
}

// reset kills both ends at once; unread data is lost.
func (c *Conn) hardReset() {
	c.rst, c.peer.rst = true, true
}
func (c *Conn) reset() { c.hardReset() }

// Close closes this end.
func (c *Conn) Close() error {
	if S.aborting {
		return nil
	}
	Y(0)
	gate()
	c.CloseCount++
	if c.closed {
		return c.op("close", net.ErrClosed)
	}
	c.closed = true
	if c.n.ResetOnCloseUnread && len(c.in.buf) > 0 {
		Stat("fault_rst_on_close")
		c.peer.rst = true
	} else {
		c.sendFin()
	}
	if err := c.n.closeErr(); err != nil {
		return c.op("close", err)
	}
	return nil
}

// CloseWrite half-closes.
func (c *Conn) CloseWrite() error { c.sendFin(); return nil }

// Fault hooks -------------------------------------------------------------

// CutAfter breaks the direction written by c after n bytes, "fin" or "rst".
func (c *Conn) CutAfter(n int64, kind string) { c.out.cutAt, c.out.cutKind = n, kind }

// WriteErrAfter makes c's writes fail after n bytes.
func (c *Conn) WriteErrAfter(n int64) { c.wrErrAfter = n }

// ResetNow resets the connection.
func (c *Conn) ResetNow() {
	if !c.rst {
		Stat("fault_reset")
		c.hardReset()
	}
}

// FinNow closes the connection from the network's point of view on c's side only (the peer sees end of stream).
func (c *Conn) FinNow() {
	Stat("fault_fin")
	c.sendFin()
}

// Sent is the number of bytes accepted in c's outgoing direction.
func (c *Conn) Sent() int64 { return c.out.total }

// Broken tells whether this end has been closed, reset, or has said goodbye.
func (c *Conn) Broken() bool { return c.closed || c.rst || c.out.finSent || c.out.fin }

// Peer returns the other end.
func (c *Conn) Peer() *Conn { return c.peer }

// Pending returns unread bytes at this end.
func (c *Conn) Pending() int { return len(c.in.buf) + c.in.inflight }

// ErrClosedText is what a closed connection reports.
var ErrClosedText = errors.New("use of closed network connection")

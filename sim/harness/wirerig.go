//go:build go1.22

package main

import (
	"context"
	"io"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/verifsim/simrt"
	"github.com/nanobus/iota/go/transport/rsocket"
)

// recorder is a DuplexHandler that only looks.
type recorder struct {
	side int
	on   func(side int, f wf)
	slow func()
}

func (r *recorder) SetFrameSender(func(frames.Frame) error) {}
func (r *recorder) HandleFrame(x frames.Frame) error {
	if r.slow != nil {
		r.slow()
	}
	f := fromReal(x)
	keep("a frame's data", f.Data)
	keep("a frame's metadata", f.Md)
	r.on(r.side, f)
	return nil
}

// rawReader reads an end of a connection with the harness's own parser until it ends.
func rawReader(c *simrt.Conn, on func(wf), bad func(error)) {
	p := &frameParser{}
	buf := make([]byte, 4096)
	done := 0
	for {
		n, err := c.Read(buf)
		p.feed(buf[:n])
		for ; done < len(p.frames); done++ {
			on(p.frames[done])
		}
		if p.bad != nil {
			bad(p.bad)
			return
		}
		if err != nil {
			return
		}
	}
}

// ---------------------------------------------------------------- concurrent senders

type SendFrame struct {
	WSpec
	Flush bool
	Delay int // ms before
}

type SendTask struct {
	Side   int
	Frames []SendFrame
}

type SendFault struct {
	Kind, Side, At int // 0 fin at byte, 1 rst at byte, 2 write error at byte, 3 transport closed at time, 4 reset at time
}

type SendPlan struct {
	Net    NetPlan
	Base   uint32 // first stream id
	Recv   [2]int // 0 the harness reads, 1 a real transport dispatches
	Slow   bool
	Phases [][]SendTask
	Flush  []bool // a Flush ends the phase
	Faults []SendFault
}

type sendRec struct {
	side, task, seq int
	f               wf
	size            int
	started, ret    bool
	err             error
	flush           bool
	retAt           uint64
	arrived         bool
}

type sendRig struct {
	p       *SendPlan
	recs    []*sendRec
	byID    map[uint32]*sendRec
	conns   [2]*simrt.Conn
	tr      [2]*rsocket.Transport
	last    map[int]*sendRec // per task: the last arrived
	flushes [2][]uint64      // start events of flushes that succeeded
	faulty  bool
	ended   [2]bool
}

func genSend(r *simrt.Rand, prof string, thorough bool) any {
	p := &SendPlan{Net: genNet(r), Base: []uint32{1, 1, 65530, 0x7FFFFF00, 0x10000}[r.Intn(5)]}
	p.Recv = [2]int{r.Intn(2), r.Intn(2)}
	p.Slow = r.Bool(0.2)
	phases := 1 + r.Intn(3)
	budget := 400000
	if r.Bool(0.02) {
		budget = 40 << 20
	}
	for i := 0; i < phases; i++ {
		var ts []SendTask
		for j := 1 + r.Intn(5); j > 0; j-- {
			t := SendTask{Side: r.Pick(65, 35)}
			alwaysFlush := r.Bool(0.5)
			for k := 1 + r.Intn(6); k > 0; k-- {
				f := SendFrame{WSpec: genSpec(r), Flush: alwaysFlush || r.Bool(0.5)}
				if r.Bool(0.15) {
					f.Delay = r.Intn(10)
				}
				if f.Sz+f.Md > budget {
					f.Sz, f.Md = f.Sz%100, f.Md%100
				}
				budget -= f.Sz + f.Md
				t.Frames = append(t.Frames, f)
			}
			ts = append(ts, t)
		}
		p.Phases = append(p.Phases, ts)
		p.Flush = append(p.Flush, r.Bool(0.4))
	}
	if prof == "faults" {
		f := SendFault{Kind: r.Intn(5), Side: r.Intn(2)}
		if f.Kind <= 2 {
			f.At = pick(r, r.Intn(30), r.Intn(500), r.Intn(5000), r.Intn(50000))
		} else {
			f.At = r.Intn(12)
		}
		p.Faults = append(p.Faults, f)
	}
	return p
}

func tidyNet(n *NetPlan, total int) {
	if n.Window > 0 {
		clamp(&n.Window, total/100+4, 1<<25)
	}
	clamp(&n.Seg, 0, 95)
	clamp(&n.Short, 0, 95)
	if total > 200000 { // byte-sized pieces of megabytes only make a run long
		n.Seg, n.Short, n.Window = 0, 0, 0
	}
}

func tidySend(x any) {
	p := x.(*SendPlan)
	total := 0
	for i := range p.Phases {
		for j := range p.Phases[i] {
			t := &p.Phases[i][j]
			clamp(&t.Side, 0, 1)
			for k := range t.Frames {
				f := &t.Frames[k]
				clamp(&f.T, wRR, wError)
				clamp(&f.Sz, 0, wMaxFrame+100)
				clamp(&f.Md, 0, wMaxFrame)
				total += f.Sz + f.Md + 20
			}
		}
	}
	for len(p.Flush) < len(p.Phases) {
		p.Flush = append(p.Flush, true)
	}
	for i := range p.Faults {
		clamp(&p.Faults[i].Side, 0, 1)
	}
	tidyNet(&p.Net, total)
}

func (g *sendRig) arrive(side int, f wf) {
	from := 1 - side
	simrt.Logf("side %d got %v", side, f)
	rec := g.byID[f.ID]
	if rec == nil || !rec.started {
		fail("wire.alien", "a frame arrived that nobody sent | %v", f)
	}
	if rec.side != from {
		fail("wire.alien", "a frame arrived that nobody sent in this direction | %v", f)
	}
	if rec.arrived {
		fail("wire.twice", "a frame arrived twice | %v", f)
	}
	if !rec.f.same(f) {
		fail("wire.changed", "a frame arrived with another %s than it was sent with | got %v, sent %v", rec.f.diff(f), f, rec.f)
	}
	if rec.size > wMaxFrame {
		fail("wire.alien", "a frame that is too large to be sent arrived | %v", f)
	}
	rec.arrived = true
	if l := g.last[rec.task]; l != nil && l.seq > rec.seq {
		fail("wire.order", "frames of one sender arrived out of order | number %d after number %d of task %d", rec.seq, l.seq, rec.task)
	}
	for _, x := range g.recs {
		if x.task == rec.task && x.seq < rec.seq && !x.arrived && x.ret && x.err == nil {
			fail("wire.order", "a frame arrived before an earlier one of its sender | number %d before number %d of task %d", rec.seq, x.seq, x.task)
		}
	}
	g.last[rec.task] = rec
	note("frames_arrived")
}

func runSend(plan any) {
	p := plan.(*SendPlan)
	p.Net.apply()
	keptBytes = nil
	g := &sendRig{p: p, byID: map[uint32]*sendRec{}, last: map[int]*sendRec{}}
	g.faulty = len(p.Faults) > 0
	a, b := simrt.S.Net.Pair()
	g.conns = [2]*simrt.Conn{a, b}
	for side := 0; side < 2; side++ {
		side := side
		rec := &recorder{side: side, on: g.arrive}
		if p.Slow {
			rec.slow = func() {
				if simrt.Choose(4) == 0 {
					simrt.TimeSleep(time.Duration(simrt.Choose(5)) * time.Millisecond)
				}
			}
		}
		g.tr[side] = rsocket.NewTransport(rsocket.NewTCPConn(g.conns[side]), rec)
		if p.Recv[side] == 1 {
			simrt.GoNamed("dispatch", func() {
				err := g.tr[side].Start(context.Background())
				g.ended[side] = true
				simrt.Logf("side %d: Start returned %v", side, err)
			})
		} else {
			simrt.GoNamed("read", func() {
				rawReader(g.conns[side], func(f wf) { g.arrive(side, f) }, func(err error) {
					fail("wire.garbage", "the byte stream is not a sequence of frames | %v", err)
				})
				g.ended[side] = true
				g.conns[side].Close()
			})
		}
	}
	for _, f := range p.Faults {
		f := f
		c := g.conns[f.Side]
		switch f.Kind {
		case 0:
			c.CutAfter(int64(f.At), "fin")
		case 1:
			c.CutAfter(int64(f.At), "rst")
		case 2:
			c.WriteErrAfter(int64(f.At))
		default:
			simrt.GoNamed("fault", func() {
				simrt.TimeSleep(time.Duration(f.At) * time.Millisecond)
				for k := simrt.Choose(40); k > 0; k-- {
					simrt.Gosched()
				}
				if f.Kind == 3 {
					note("fault_transport_close")
					g.tr[f.Side].Close()
				} else {
					c.ResetNow()
				}
			})
		}
	}
	id := p.Base
	task := 0
	for pi, ts := range p.Phases {
		running := 0
		for _, t := range ts {
			t := t
			var mine []*sendRec
			for k, sf := range t.Frames {
				id++
				rec := &sendRec{side: t.Side, task: task, seq: k, f: sf.frame(len(g.recs), id&0x7FFFFFFF), flush: sf.Flush}
				rec.size = len(rec.f.enc())
				g.recs = append(g.recs, rec)
				g.byID[rec.f.ID] = rec
				mine = append(mine, rec)
			}
			task++
			running++
			simrt.GoNamed("sender", func() {
				for k, rec := range mine {
					if d := t.Frames[k].Delay; d > 0 {
						simrt.TimeSleep(time.Duration(d) * time.Millisecond)
					}
					g.send(rec)
				}
				running--
			})
		}
		nontrivial()
		simrt.WaitQuiescent()
		if running > 0 {
			fail("wire.hang", "a send never returned | %d senders", running)
		}
		if p.Flush[pi] {
			for side := 0; side < 2; side++ {
				at := simrt.Event()
				if err := g.tr[side].Flush(); err == nil {
					g.flushes[side] = append(g.flushes[side], at)
				} else if !g.faulty {
					fail("wire.error", "a flush failed on a healthy connection | %v", err)
				}
			}
			simrt.WaitQuiescent()
		}
		if g.faulty {
			continue
		}
		for _, rec := range g.recs {
			if !rec.started || rec.err != nil || rec.arrived {
				continue
			}
			covered := rec.flush
			for _, at := range g.flushes[rec.side] {
				covered = covered || at > rec.retAt
			}
			if covered {
				fail("wire.lost", "a frame whose send was reported as successful never arrived | %v, sent by task %d", rec.f, rec.task)
			}
		}
		for side := 0; side < 2; side++ {
			if g.ended[side] {
				fail("conn.down", "a healthy connection was closed | side %d", side)
			}
		}
	}
	checkKept()
}

func (g *sendRig) send(rec *sendRec) {
	rec.started = true
	start := simrt.Event()
	err := g.tr[rec.side].Send(rec.f.toReal(), rec.flush)
	rec.err, rec.ret, rec.retAt = err, true, simrt.Event()
	simrt.Logf("task %d sent number %d (flush %v): %v", rec.task, rec.seq, rec.flush, err)
	switch {
	case rec.size > wMaxFrame:
		if err == nil {
			fail("wire.oversize", "a frame that does not fit the length field was reported as sent | %d bytes", rec.size)
		}
		note("fault_oversize_frame")
	case err != nil && !g.faulty:
		fail("wire.error", "a send failed on a healthy connection | %v: %v", rec.f, err)
	case err == nil && rec.flush:
		g.flushes[rec.side] = append(g.flushes[rec.side], start)
	}
}

// ---------------------------------------------------------------- segmentation

type ReadPlan struct {
	Net    NetPlan
	Mode   int // 0 Start, 1 ReadFirst then Start, 2 Read until it fails
	Specs  []WSpec
	Chunks []int // sizes of the pieces, repeated
	Gaps   []int // what happens between pieces: 0 nothing, 1 yield, 2 all at rest, 3+ sleep
	End    int   // 0 stays open, 1 end of stream, 2 end of stream in a frame, 3 a frame of length zero, 4 an unknown frame, 5 a frame shorter than a header, 6 a malformed frame
	Tail   int
	Slow   bool
}

func genRead(r *simrt.Rand, prof string, thorough bool) any {
	p := &ReadPlan{Net: genNet(r), Mode: r.Pick(6, 2, 2), End: r.Pick(2, 4, 5, 1, 1, 1, 1), Slow: r.Bool(0.3)}
	n := 1 + r.Intn(8)
	if r.Bool(0.15) {
		n += r.Intn(40)
	}
	budget := 200000
	if r.Bool(0.02) {
		budget = 34 << 20
	}
	bound := []int{}
	for i := 0; i < n; i++ {
		s := genSpec(r)
		if r.Bool(0.5) {
			s.Md, s.Sz = r.Intn(12), r.Intn(12)
		}
		if s.Md+s.Sz > budget {
			s.Md, s.Sz = s.Md%100, s.Sz%100
		}
		budget -= s.Md + s.Sz
		p.Specs = append(p.Specs, s)
		bound = append(bound, len(s.frame(i, 1).wire()))
	}
	switch r.Pick(20, 20, 30, 20, 10) {
	case 0: // all at once
		p.Chunks = []int{1 << 26}
	case 1: // around frame boundaries
		off := r.Intn(9) - 4
		for i, b := range bound {
			if i == 0 {
				b += off
			}
			p.Chunks = append(p.Chunks, b)
		}
	case 2:
		for k := 1 + r.Intn(12); k > 0; k-- {
			p.Chunks = append(p.Chunks, 1+r.Intn([]int{3, 10, 100, 9000}[r.Intn(4)]))
		}
	case 3: // header split in every way
		p.Chunks = []int{1, 1, 1, 2, 3, 5, 7}
		for i := range p.Chunks {
			j := r.Intn(i + 1)
			p.Chunks[i], p.Chunks[j] = p.Chunks[j], p.Chunks[i]
		}
		p.Chunks = append(p.Chunks, 100+r.Intn(8000))
	default:
		p.Chunks = []int{8192, 8191, 8193, 4096, 1}
	}
	for k := 1 + r.Intn(5); k > 0; k-- {
		p.Gaps = append(p.Gaps, r.Pick(4, 3, 2, 1))
	}
	p.Tail = 1 + r.Intn(30)
	return p
}

func tidyRead(x any) {
	p := x.(*ReadPlan)
	total := 0
	for i := range p.Specs {
		s := &p.Specs[i]
		clamp(&s.T, wRR, wError)
		clamp(&s.Sz, 0, wMaxFrame)
		clamp(&s.Md, 0, wMaxFrame)
		if s.Sz+s.Md+16 > wMaxFrame {
			s.Md = 0
			clamp(&s.Sz, 0, wMaxFrame-10)
		}
		total += s.Md + s.Sz + 20
	}
	if len(p.Chunks) == 0 {
		p.Chunks = []int{1 << 26}
	}
	if len(p.Gaps) == 0 {
		p.Gaps = []int{0}
	}
	sum := 0
	for i := range p.Chunks {
		clamp(&p.Chunks[i], 1, 1<<26)
		sum += p.Chunks[i]
	}
	for i := range p.Chunks { // at most 600 pieces
		if p.Chunks[i] < total*len(p.Chunks)/600/len(p.Chunks) && total > 20000 {
			p.Chunks[i] = total / 300
		}
	}
	clamp(&p.Tail, 1, 1<<20)
	clamp(&p.Mode, 0, 2)
	tidyNet(&p.Net, total)
}

func runRead(plan any) {
	p := plan.(*ReadPlan)
	p.Net.apply()
	keptBytes = nil
	a, b := simrt.S.Net.Pair()
	var want, got []wf
	var stream []byte
	for i, s := range p.Specs {
		f := s.frame(i, uint32(2*i+1))
		want = append(want, f)
		stream = append(stream, f.wire()...)
	}
	switch p.End {
	case 2:
		last := WSpec{T: wPayload, Flags: wNext, Md: 5, Sz: 1 + p.Tail}.frame(len(want), 99).wire()
		k := p.Tail
		if k >= len(last) {
			k = len(last) - 1
		}
		stream = append(stream, last[:k]...)
	case 3:
		stream = append(stream, 0, 0, 0)
	case 4:
		stream = append(stream, wf{T: 0x3E, ID: 1, Data: []byte("what")}.wire()...)
	case 5:
		stream = append(stream, lenPrefix([]byte{0, 0, 0, 1, 0x28}[:1+p.Tail%5])...)
	case 6:
		stream = append(stream, lenPrefix([]byte{0, 0, 0, 1, byte(wReqN << 2), 0, 1, 2})...)
	}
	arrive := func(_ int, f wf) {
		i := len(got)
		simrt.Logf("dispatched %v", f)
		if i >= len(want) {
			fail("wire.extra", "a frame was dispatched that did not arrive completely | %v", f)
		}
		if !want[i].same(f) {
			fail("wire.frames", "the dispatched frames are not the received ones: another %s | frame %d: %v, received %v", want[i].diff(f), i, f, want[i])
		}
		got = append(got, f)
	}
	rec := &recorder{on: arrive}
	if p.Slow {
		rec.slow = func() { simrt.TimeSleep(time.Duration(simrt.Choose(4)) * time.Millisecond) }
	}
	conn := rsocket.NewTCPConn(b)
	returned := false
	simrt.GoNamed("receiver", func() {
		var err error
		switch p.Mode {
		case 2:
			for {
				var f frames.Frame
				if f, err = conn.Read(); err != nil {
					break
				}
				rec.HandleFrame(f)
			}
			conn.Close()
		case 1:
			tr := rsocket.NewTransport(conn, rec)
			var f frames.Frame
			if f, err = tr.ReadFirst(context.Background()); err == nil {
				rec.HandleFrame(f)
				err = tr.Start(context.Background())
			}
		default:
			err = rsocket.NewTransport(conn, rec).Start(context.Background())
		}
		returned = true
		simrt.Logf("receiver: %v", err)
	})
	nontrivial()
	sent := 0
	for i := 0; sent < len(stream); i++ {
		n := min(p.Chunks[i%len(p.Chunks)], len(stream)-sent)
		if _, err := a.Write(stream[sent : sent+n]); err != nil {
			if p.End < 3 {
				fail("conn.down", "the receiver closed a healthy connection | after %d of %d bytes: %v", sent, len(stream), err)
			}
			break
		}
		sent += n
		switch gap := p.Gaps[i%len(p.Gaps)]; gap {
		case 0:
		case 1:
			simrt.Yield()
		case 2:
			simrt.WaitQuiescent()
		default:
			simrt.TimeSleep(time.Duration(gap) * time.Millisecond)
		}
	}
	if p.End == 1 || p.End == 2 {
		a.CloseWrite()
	}
	if p.End == 0 && p.Net.RstUnread {
		// nothing: the connection stays open
	}
	simrt.WaitQuiescent()
	if len(got) < len(want) {
		fail("wire.missing", "a frame arrived completely but was not dispatched | %d of %d frames, end of kind %d", len(got), len(want), p.End)
	}
	if p.End == 0 && returned {
		fail("conn.down", "the receiver closed a healthy connection | after %d frames", len(got))
	}
	if p.End != 0 && !returned {
		fail("life.start", "a transport whose connection ended did not return | end of kind %d", p.End)
	}
	checkKept()
	simrt.StatN("frames_dispatched", int64(len(got)))
	io.WriteString(io.Discard, "")
}

var famSend = &Family{Name: "send", Gen: genSend, New: func() any { return &SendPlan{} }, Run: runSend, Tidy: tidySend}
var famRead = &Family{Name: "read", Gen: genRead, New: func() any { return &ReadPlan{} }, Run: runRead, Tidy: tidyRead}

const realWire = "real iota code: transport/rsocket (Transport, TCPConn, frame decoder), internal/frames, internal/u24, internal/buffer, standard library bufio"
const stubWire = "simulated: goroutine scheduling, sync, channels, clock, TCP connection (segmentation, latency, stalls, short reads, windows, resets); harness: senders, an independent frame encoder and parser, a recording frame handler"

func init() {
	register(&Check{ID: "C01", Variants: []Variant{{F: famSend, Prof: "clean", Weight: 3, Steps: 400000}, {F: famSend, Prof: "faults", Weight: 1, Steps: 400000}}, Accept: []string{"wire.", "conn.down"}, Real: realWire, Stubs: stubWire,
		Rule: "A run has up to fifteen tasks per connection send frames of every kind and size (up to and beyond the largest length) with and without flushing, in both directions, over a connection that splits, delays and breaks; the peer's frames, parsed independently or dispatched by a real transport, are compared one by one with what was sent, in each sender's order."})
	register(&Check{ID: "C03", Variants: []Variant{{F: famRead, Prof: "seg", Weight: 1, Steps: 400000}}, Accept: []string{"wire.", "conn.down"}, Real: realWire, Stubs: stubWire,
		Rule: "A run sends an independently encoded sequence of frames in pieces cut anywhere (inside the length, the header, at and around frame boundaries, several frames at once) to a real transport, ending in an open connection, an end of stream with the last bytes, an incomplete frame or an invalid one; exactly the complete frames must be dispatched, in order and unchanged."})
}

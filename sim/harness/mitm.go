//go:build go1.22

package main

import (
	"reflect"
	"sort"
	"time"
	"unsafe"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/verifsim/simrt"
)

// A man in the middle: it forwards the frames between a real client and a real server, knows every stream, checks the
// ids of new ones, and slips in frames for streams that have ended or never existed.

type mStream struct {
	id      uint32
	kind    int
	dir     int // 0: the client asked
	seq     int
	respEnd bool
	inEnd   bool
	by      [2]bool // the end was forwarded in that direction: its receiver knows, in order
}

func (s *mStream) ended() bool { return s.respEnd && s.inEnd }

type mitm struct {
	conn    int
	legs    [2]*simrt.Conn // 0: towards the client, 1: towards the server
	streams map[uint32]*mStream
	order   []*mStream
	stray   int // percent
	spell   int // percent of frames it spells in another way
	held    [2]*wf
	heldNo  [2]int
	turn    [2]bool // somebody forwards in that direction
	unknown uint32
	lock    [2]bool
	strays  int
}

// write sends whole frames towards side (0: the client).
func (m *mitm) write(side int, b []byte) error {
	simrt.Block("the middle's lock", func() bool { return !m.lock[side] })
	m.lock[side] = true
	defer func() { m.lock[side] = false }()
	_, err := m.legs[side].Write(b)
	return err
}

// learn follows a frame that travels in direction d (0: from the client).
func (m *mitm) learn(d int, f wf) {
	if f.T >= wRR && f.T <= wRC {
		if f.ID == 0 {
			fail("ids.zero", "a request was opened on stream 0 | connection %d: %v", m.conn, f)
		}
		if int(f.ID&1) != 1-d {
			fail("ids.parity", "a request was opened on a stream id of the other side's parity | connection %d, direction %d: %v", m.conn, d, f)
		}
		if old := m.streams[f.ID]; old != nil {
			fail("ids.reused", "two requests were opened on the same stream id | connection %d: request %d and request %d on stream %d", m.conn, old.seq, len(m.order), f.ID)
		}
		s := &mStream{id: f.ID, kind: f.T, dir: d, seq: len(m.order)}
		m.streams[f.ID] = s
		m.order = append(m.order, s)
		switch f.T {
		case wFNF:
			s.respEnd, s.inEnd = true, true
			s.by[d] = true
		case wRR, wRS:
			s.inEnd = true
		}
		return
	}
	s := m.streams[f.ID]
	if s == nil {
		return
	}
	was := s.ended()
	switch {
	case f.T == wError && d != s.dir:
		s.respEnd, s.inEnd = true, true
	case f.T == wError:
		s.inEnd = true
	case f.T == wCancel && d == s.dir:
		s.respEnd, s.inEnd = true, true
	case f.T == wCancel:
		s.inEnd = true
	case f.T == wPayload && f.Flags&wComplete != 0 && d != s.dir:
		s.respEnd = true
	case f.T == wPayload && f.Flags&wComplete != 0:
		s.inEnd = true
	}
	if !was && s.ended() {
		// whoever gets this frame knows that all is over once it has
		s.by[d] = true
	}
}

func (m *mitm) strayFrame(id uint32) wf {
	m.strays++
	note("fault_stray_frame")
	switch simrt.Choose(6) {
	case 0:
		return wf{T: wPayload, ID: id, Flags: wNext, Data: []byte("stray")}
	case 1:
		return wf{T: wPayload, ID: id, Flags: wComplete}
	case 2:
		return wf{T: wPayload, ID: id, Flags: wNext | wComplete, Data: []byte("stray"), HasMd: true, Md: []byte("m")}
	case 3:
		return wf{T: wError, ID: id, N: 0x201, Data: []byte("stray error")}
	case 4:
		return wf{T: wReqN, ID: id, N: uint32(1 + simrt.Choose(5))}
	}
	return wf{T: wCancel, ID: id}
}

func (m *mitm) never() uint32 {
	m.unknown++
	return 0x55555000 + m.unknown*3
}

// inject adds strays behind a frame that travelled in direction d.
func (m *mitm) inject(d int) {
	var ids []uint32
	for _, s := range m.order {
		if s.by[d] {
			ids = append(ids, s.id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for k := 1 + simrt.Choose(3); k > 0; k-- {
		id := m.never()
		if len(ids) > 0 && simrt.Choose(4) > 0 {
			id = ids[simrt.Choose(len(ids))]
		}
		m.write(1-d, m.strayFrame(id).wire())
	}
}

// flood sends strays for everything that is over, both ways; everything is at rest.
func (m *mitm) flood() {
	for d := 0; d < 2; d++ {
		for _, s := range m.order {
			if s.ended() {
				for k := 1 + simrt.Choose(3); k > 0; k-- {
					m.write(1-d, m.strayFrame(s.id).wire())
				}
			}
		}
		m.write(1-d, m.strayFrame(m.never()).wire())
	}
}

// forward passes a frame on in direction d.
func (m *mitm) forward(d int, f wf) {
	m.learn(d, f)
	if m.write(1-d, f.wire()) != nil {
		return
	}
	if m.stray > 0 && simrt.Choose(100) < m.stray {
		m.inject(d)
	}
}

// take keeps the frames of a direction in order.
func (m *mitm) take(d int, do func()) {
	simrt.Block("the middle's turn", func() bool { return !m.turn[d] })
	m.turn[d] = true
	defer func() { m.turn[d] = false }()
	do()
}

// release passes on the frame held back in direction d.
func (m *mitm) release(d int) {
	if f := m.held[d]; f != nil {
		m.held[d] = nil
		m.forward(d, *f)
	}
}

// respell passes a frame on as another peer might have sent the same: with the end joined to the last element or apart
// from it, demand in several steps, metadata of no length, other error codes.
func (m *mitm) respell(d int, f wf) {
	if h := m.held[d]; h != nil && h.ID == f.ID && f.T == wPayload && f.Flags == wComplete && len(f.Data) == 0 && !f.HasMd {
		m.held[d] = nil
		note("fault_end_joined")
		h.Flags |= wComplete
		m.forward(d, *h)
		return
	}
	m.release(d)
	if simrt.Choose(100) >= m.spell {
		m.forward(d, f)
		return
	}
	if (f.T == wPayload || f.T >= wRR && f.T <= wRC) && !f.HasMd && simrt.Choose(3) == 0 {
		note("fault_empty_metadata")
		f.HasMd = true
	}
	switch {
	case f.T == wPayload && f.Flags == wNext|wComplete:
		note("fault_end_apart")
		f.Flags = wNext
		m.forward(d, f)
		m.forward(d, wf{T: wPayload, ID: f.ID, Flags: wComplete})
	case f.T == wPayload && f.Flags == wNext, f.T == wRC && f.Flags == 0:
		// perhaps its end comes next
		m.held[d] = &f
		m.heldNo[d]++
		no := m.heldNo[d]
		wait := time.Duration(simrt.Choose(4)) * time.Millisecond
		simrt.GoNamed("release", func() {
			simrt.TimeSleep(wait)
			m.take(d, func() {
				if m.heldNo[d] == no {
					m.release(d)
				}
			})
		})
	case (f.T == wReqN || f.T == wRS) && f.N > 1:
		note("fault_demand_in_steps")
		all := f.N
		f.N = 1 + uint32(simrt.Choose(int(min(all-1, 1<<20))))
		m.forward(d, f)
		m.forward(d, wf{T: wReqN, ID: f.ID, N: all - f.N})
	case f.T == wError:
		f.N = []uint32{0, 0x101, 0x201, 0x202, 0xffffffff}[simrt.Choose(5)]
		m.forward(d, f)
	default:
		m.forward(d, f)
	}
}

func (m *mitm) pump(d int) {
	from, to := m.legs[d], m.legs[1-d]
	on := m.forward
	if m.spell > 0 {
		on = m.respell
	}
	rawReader(from, func(f wf) { m.take(d, func() { on(d, f) }) },
		func(err error) { fail("wire.garbage", "the byte stream is not a sequence of frames | %v", err) })
	m.take(d, func() { m.release(d) })
	to.CloseWrite()
}

func (m *mitm) start() {
	simrt.GoNamed("middle, from the client", func() { m.pump(0) })
	simrt.GoNamed("middle, from the server", func() { m.pump(1) })
}

// setStreamIDs moves a handler's id counter, if it has one of that name.
func setStreamIDs(h *handler.Handler, v uint64) {
	f := reflect.ValueOf(h).Elem().FieldByName("streamIDs")
	if f.IsValid() && f.Kind() == reflect.Uint64 {
		*(*uint64)(unsafe.Pointer(f.UnsafeAddr())) = v
		note("id_counter_moved")
	}
}

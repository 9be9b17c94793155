//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/verifsim/simrt"
)

// An encoder and a parser of RSocket frames that share nothing with the code under test.

const (
	wRR      = 4
	wFNF     = 5
	wRS      = 6
	wRC      = 7
	wReqN    = 8
	wCancel  = 9
	wPayload = 10
	wError   = 11

	wNext     = 0x20
	wComplete = 0x40
	wFollows  = 0x80
	wMeta     = 0x100

	wMaxFrame = 1<<24 - 1
)

var wName = map[int]string{wRR: "REQUEST_RESPONSE", wFNF: "REQUEST_FNF", wRS: "REQUEST_STREAM", wRC: "REQUEST_CHANNEL", wReqN: "REQUEST_N", wCancel: "CANCEL", wPayload: "PAYLOAD", wError: "ERROR"}

// wf is a frame.
type wf struct {
	T     int
	ID    uint32
	Flags int
	N     uint32 // initial request n, request n, error code
	Md    []byte
	HasMd bool
	Data  []byte
}

func (f wf) String() string {
	n := wName[f.T]
	if n == "" {
		n = fmt.Sprintf("type %d", f.T)
	}
	return fmt.Sprintf("%s stream %d flags %#x n %d metadata %s data %s", n, f.ID, f.Flags, f.N, show(f.Md), show(f.Data))
}

// enc is the frame without its length prefix.
func (f wf) enc() []byte {
	b := make([]byte, 6, 16+len(f.Md)+len(f.Data))
	binary.BigEndian.PutUint32(b, f.ID)
	fl := f.Flags
	if f.HasMd {
		fl |= wMeta
	}
	binary.BigEndian.PutUint16(b[4:], uint16(f.T<<10|fl&0x3FF))
	switch f.T {
	case wRS, wRC, wReqN, wError:
		b = binary.BigEndian.AppendUint32(b, f.N)
	}
	if f.HasMd {
		b = append(b, byte(len(f.Md)>>16), byte(len(f.Md)>>8), byte(len(f.Md)))
		b = append(b, f.Md...)
	}
	return append(b, f.Data...)
}

func lenPrefix(b []byte) []byte {
	return append([]byte{byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}, b...)
}

// wire is the frame as it travels.
func (f wf) wire() []byte { return lenPrefix(f.enc()) }

// parseFrame decodes a frame without its length prefix.
func parseFrame(b []byte) (wf, error) {
	if len(b) < 6 {
		return wf{}, fmt.Errorf("frame of %d bytes", len(b))
	}
	tf := binary.BigEndian.Uint16(b[4:])
	f := wf{T: int(tf >> 10), ID: binary.BigEndian.Uint32(b) & 0x7FFFFFFF, Flags: int(tf & 0x3FF)}
	b = b[6:]
	switch f.T {
	case wRS, wRC, wReqN, wError:
		if len(b) < 4 {
			return f, fmt.Errorf("%s without its number", wName[f.T])
		}
		f.N = binary.BigEndian.Uint32(b)
		b = b[4:]
	case wRR, wFNF, wPayload:
	case wCancel:
	default:
		return f, fmt.Errorf("unknown frame type %d", f.T)
	}
	if f.Flags&wMeta != 0 {
		f.HasMd = true
		if len(b) < 3 {
			return f, fmt.Errorf("metadata length cut off")
		}
		n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		b = b[3:]
		if n > len(b) {
			return f, fmt.Errorf("metadata cut off")
		}
		f.Md, b = b[:n], b[n:]
	}
	f.Flags &^= wMeta
	f.Data = b
	return f, nil
}

// frameParser splits a byte stream.
type frameParser struct {
	buf    []byte
	frames []wf
	bad    error
}

func (p *frameParser) feed(b []byte) {
	if p.bad != nil {
		return
	}
	p.buf = append(p.buf, b...)
	for len(p.buf) >= 3 {
		n := int(p.buf[0])<<16 | int(p.buf[1])<<8 | int(p.buf[2])
		if len(p.buf) < 3+n {
			return
		}
		f, err := parseFrame(p.buf[3 : 3+n : 3+n])
		if err != nil {
			p.bad = err
			return
		}
		p.frames = append(p.frames, f)
		p.buf = p.buf[3+n:]
	}
}

// fromReal translates a frame of the code under test.
func fromReal(x frames.Frame) wf {
	switch v := x.(type) {
	case *frames.RequestPayload:
		f := wf{T: int(v.FrameType), ID: v.StreamID, Md: v.Metadata, HasMd: len(v.Metadata) > 0, Data: v.Data}
		if f.T == wRS || f.T == wRC {
			f.N = v.InitialN
		}
		if v.Follows {
			f.Flags |= wFollows
		}
		if f.T == wRC && v.Complete {
			f.Flags |= wComplete
		}
		return f
	case *frames.RequestN:
		return wf{T: wReqN, ID: v.StreamID, N: v.N}
	case *frames.Cancel:
		return wf{T: wCancel, ID: v.StreamID}
	case *frames.Payload:
		f := wf{T: wPayload, ID: v.StreamID, Md: v.Metadata, HasMd: len(v.Metadata) > 0, Data: v.Data}
		if v.Follows {
			f.Flags |= wFollows
		}
		if v.Complete {
			f.Flags |= wComplete
		}
		if v.Next {
			f.Flags |= wNext
		}
		return f
	case *frames.Error:
		return wf{T: wError, ID: v.StreamID, N: uint32(v.Code), Data: []byte(v.Data)}
	}
	fail("wire.alien", "a frame read is nil or of a type there is not | %T", x)
	return wf{}
}

// toReal makes the code's own frame.
func (f wf) toReal() frames.Frame {
	switch f.T {
	case wRR, wFNF, wRS, wRC:
		return &frames.RequestPayload{FrameType: frames.FrameType(f.T), StreamID: f.ID, Metadata: f.Md, Data: f.Data, Follows: f.Flags&wFollows != 0, Complete: f.Flags&wComplete != 0, InitialN: f.N}
	case wReqN:
		return &frames.RequestN{StreamID: f.ID, N: f.N}
	case wCancel:
		return &frames.Cancel{StreamID: f.ID}
	case wPayload:
		return &frames.Payload{StreamID: f.ID, Metadata: f.Md, Data: f.Data, Follows: f.Flags&wFollows != 0, Complete: f.Flags&wComplete != 0, Next: f.Flags&wNext != 0}
	case wError:
		return &frames.Error{StreamID: f.ID, Code: frames.ErrCode(f.N), Data: string(f.Data)}
	}
	harness("frame type %d", f.T)
	return nil
}

func (f wf) same(g wf) bool {
	return f.T == g.T && f.ID == g.ID && f.Flags == g.Flags && f.N == g.N && bytes.Equal(f.Md, g.Md) && bytes.Equal(f.Data, g.Data)
}

// diff names what differs, for a stable signature.
func (f wf) diff(g wf) string {
	switch {
	case f.T != g.T:
		return "type"
	case f.ID != g.ID:
		return "stream id"
	case f.Flags != g.Flags:
		return "flags"
	case f.N != g.N:
		return "number"
	case !bytes.Equal(f.Md, g.Md):
		return "metadata"
	case !bytes.Equal(f.Data, g.Data):
		return "data"
	}
	return "nothing"
}

// WSpec describes one frame of a plan.
type WSpec struct {
	T, Flags int
	N        uint32
	Md, Sz   int
	NoMd0    bool // metadata flag with empty metadata
}

func (s WSpec) frame(k int, id uint32) wf {
	f := wf{T: s.T, ID: id}
	switch s.T {
	case wRC:
		f.Flags = s.Flags & (wComplete | wFollows)
	case wRR, wFNF, wRS:
		f.Flags = s.Flags & wFollows
	case wPayload:
		f.Flags = s.Flags & (wNext | wComplete | wFollows)
	}
	switch s.T {
	case wRS, wRC, wReqN, wError:
		f.N = s.N
	}
	switch s.T {
	case wRR, wFNF, wRS, wRC, wPayload:
		f.Md = meta(k, 'm', 0, s.Md)
		f.HasMd = len(f.Md) > 0
		f.Data = meta(k, 'd', 0, s.Sz)
	case wError:
		f.Data = meta(k, 'd', 0, s.Sz)
	}
	return f
}

func genSpec(r *simrt.Rand) WSpec {
	s := WSpec{T: pick(r, wRR, wFNF, wRS, wRC, wReqN, wCancel, wPayload, wPayload, wPayload, wError), Flags: r.Intn(8) << 5}
	s.N = []uint32{0, 1, 2, 7, 255, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF}[r.Intn(9)]
	if r.Bool(0.5) {
		s.N = uint32(r.U64())
	}
	size := func() int {
		switch r.Pick(25, 40, 20, 8, 4, 3) {
		case 0:
			return 0
		case 1:
			return r.Intn(40)
		case 2:
			return r.Intn(600)
		case 3:
			return 8150 + r.Intn(60)
		case 4:
			return 65500 + r.Intn(80)
		default:
			return r.Intn(20000)
		}
	}
	s.Md, s.Sz = size(), size()
	if r.Bool(0.4) {
		s.Md = 0
	}
	if r.Bool(0.004) {
		s.Sz = wMaxFrame - 20 + r.Intn(40) - s.Md
		if s.Sz < 0 {
			s.Sz = 0
		}
	}
	return s
}

//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"runtime"
	"time"

	"github.com/nanobus/iota/go/internal/verifsim/simrt"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transform"
)

// Typed calls over RSocket connections: values are encoded, carried, decoded and compared; some bytes are damaged.

// TOp is one typed call.
type TOp struct {
	C, D, K, At int // connection, direction, kind
	T, T2       int // types of the argument (and input items), and of the result
	V           uint64
	N           int // items
	Mode, HWait int
	Dmg, DAt    int // what is damaged, and how: 0 argument, 1.. items of the input, then of the output
	DV          uint64
}

// TypedPlan is a run of typed calls.
type TypedPlan struct {
	Net     NetPlan
	Clients int
	Ops     []TOp
}

const (
	tRR = iota
	tFNF
	tRS
	tRC
	tPorts
	tHandle
	tKinds
)

const (
	dNone    = iota
	dCut     // a strict prefix
	dByte    // one byte changed
	dJunk    // something behind it
	dOther   // an encoding of another type
	dRandom  // anything
	dLong    // a string, list or table that claims to be huge
	dKey     // a table whose key is a list, a table or bytes
	dDeep    // nested deeply
	dBomb    // nested as deeply as a frame can hold
	dUnknown // a record with a field the reader does not know, which holds one of the above
	dAbyss   // the same, nested as deeply as a frame can hold
	dNumber  // a whole number of any width
	dStrange // no damage: the records have a field the reader does not know, which another encoder wrote
	dKinds
)

func genTyped(r *simrt.Rand, prof string, thorough bool) any {
	p := &TypedPlan{Net: genNet(r), Clients: 1 + r.Pick(3, 1)}
	for n := 1 + r.Intn(6); n > 0; n-- {
		o := TOp{C: r.Intn(p.Clients), D: r.Intn(2), K: r.Pick(6, 1, 3, 3, 2, 2), At: r.Intn(6), T: r.Intn(len(typs)), T2: r.Intn(len(typs)), V: r.U64() >> 1, N: r.Intn(7), Mode: r.Intn(8)}
		if r.Bool(0.3) {
			o.T = 17 + r.Intn(4)
		}
		if r.Bool(0.3) {
			o.T2 = 17 + r.Intn(4)
		}
		if r.Bool(0.3) {
			o.HWait = 1 + r.Intn(10)
		}
		if r.Bool(0.4) {
			o.Dmg, o.DAt, o.DV = 1+r.Pick(8, 6, 1, 3, 3, 6, 3, 2, 0, 6), r.Intn(4), r.U64()>>1
			if r.Bool(0.01) {
				o.Dmg, o.K, o.DAt = pick(r, dBomb, dAbyss), tRR, r.Intn(2)
			}
			if r.Bool(0.12) {
				o.Dmg = dNumber
				if r.Bool(0.8) {
					o.T, o.T2 = scalars[r.Intn(len(scalars))], scalars[r.Intn(len(scalars))]
				}
			} else if r.Bool(0.12) {
				o.Dmg = dStrange
				o.T, o.T2 = 17+r.Intn(3), 17+r.Intn(3)
			} else if (o.Dmg >= dKey) && r.Bool(0.6) { // where it hurts
				o.T, o.T2 = 20, 20
				if o.Dmg >= dUnknown {
					o.T, o.T2 = 17+r.Intn(3), 17+r.Intn(3)
				}
			}
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

func tidyTyped(x any) {
	p := x.(*TypedPlan)
	clamp(&p.Clients, 1, 3)
	for i := range p.Ops {
		o := &p.Ops[i]
		clamp(&o.C, 0, p.Clients-1)
		clamp(&o.D, 0, 1)
		clamp(&o.K, 0, tKinds-1)
		clamp(&o.T, 0, len(typs)-1)
		clamp(&o.T2, 0, len(typs)-1)
		clamp(&o.N, 0, 8)
		clamp(&o.Dmg, 0, dKinds-1)
		clamp(&o.DAt, 0, 20)
		clamp(&o.At, 0, 1000)
		clamp(&o.HWait, 0, 1000)
		clamp(&o.Mode, 0, 1000)
		if o.Dmg == dBomb || o.Dmg == dAbyss {
			p.Net = NetPlan{}
		}
	}
	if p.Net.Window > 0 {
		clamp(&p.Net.Window, 300, 1<<20)
	}
}

type tState struct {
	g        *tRig
	op       *TOp
	id       int
	t, t2    *typ
	calls    int
	ended    int
	outcome  string
	want     string // how it has to end, decided as things happen; "" by completing
	in, got  int    // items that reached the handler, the caller
	loose    bool   // bytes were damaged and still decoded: what they mean is open
	obj      *tObj
	stopped  bool
	inClosed bool
}

// tObj is an instance the responder keeps for its caller.
type tObj struct {
	st *tState
	v  any
}

type tRig struct {
	*rsRig
	plan  *TypedPlan
	st    []*tState
	live  *invoke.LiveInstances[*tObj]
	kept  []tKept
	index uint32
}

type tKept struct {
	v    any
	text string
	what string
}

// value number i of the argument's or the result's type.
func (st *tState) value(out bool, i int) any {
	t, k := st.t, uint64(1+i)
	if out {
		t, k = st.t2, uint64(1000+i)
	}
	return t.gen(simrt.NewRand(simrt.Mix(st.op.V, k)))
}

func (st *tState) where(out bool, i int) string {
	t, what := st.t, "argument"
	if out {
		t, what = st.t2, "result"
	}
	if i > 0 {
		what += fmt.Sprintf(" item %d", i)
	}
	return fmt.Sprintf("%s of op %d (%s)", what, st.id, t.name)
}

// broken tells whether this value is the one that is damaged.
func (st *tState) broken(out bool, i int) bool {
	o := st.op
	if o.Dmg == dNone || o.Dmg == dStrange {
		return false
	}
	var at int
	switch {
	case o.K == tRR:
		at = o.DAt % 2
		return !out && at == 0 || out && at == 1
	case o.K == tFNF || o.K == tHandle || o.K == tPorts:
		return !out && i == 0
	case o.K == tRS:
		at = o.DAt % (1 + max(o.N, 1))
		return at == 0 && !out && i == 0 || at > 0 && out && i == at-1
	}
	at = o.DAt % (1 + 2*max(o.N, 1))
	return at == 0 && !out && i == 0 || at > 0 && at <= o.N && !out && i == at || at > o.N && out && i == at-o.N-1
}

// put encodes a value, as the application does, and damages it if it is the one.
func (st *tState) put(out bool, i int, v any) (pl, error) {
	t := st.t
	if out {
		t = st.t2
	}
	p, err := t.enc(v)
	if err != nil {
		fail("typed.encode", "a value could not be encoded | %s: %v", st.where(out, i), err)
	}
	b := p.Data()
	if t.never != nil {
		if n := mpLen(b); n != len(b) {
			fail("typed.size", "the encoding of a value is not exactly one MessagePack value | %s: %d of %d bytes: %s", st.where(out, i), n, len(b), show(b))
		}
	}
	simrt.Stat("typed_values_" + t.name)
	if st.op.Dmg == dStrange && t.never != nil {
		if x := strange(simrt.NewRand(st.op.DV^uint64(i)), b); x != nil {
			simrt.Stat("typed_strange_fields")
			return payload.New(x), nil
		}
	}
	if st.broken(out, i) {
		simrt.Stat("typed_damaged")
		return payload.New(st.damage(t, b)), nil
	}
	return p, nil
}

func nest(r *simrt.Rand, n int) []byte {
	b := make([]byte, 0, n+16)
	lists := r.Pick(2, 1, 1)
	for len(b) < n {
		switch {
		case lists == 1 || lists == 0 && r.Intn(3) == 0:
			b = append(b, 0x81, 0x01)
		default:
			b = append(b, 0x91)
		}
	}
	return append(b, 0xC0)
}

// strange puts a field nobody knows first in a record.
func strange(r *simrt.Rand, b []byte) []byte {
	var out []byte
	switch {
	case len(b) > 0 && b[0] >= 0x80 && b[0] < 0x8F:
		out, b = []byte{b[0] + 1}, b[1:]
	case len(b) > 0 && b[0] == 0x8F:
		out, b = []byte{0xDE, 0, 16}, b[1:]
	case len(b) > 2 && b[0] == 0xDE:
		out, b = binary.BigEndian.AppendUint16([]byte{0xDE}, binary.BigEndian.Uint16(b[1:])+1), b[3:]
	default:
		return nil
	}
	out = append(out, 0xA7, 's', 't', 'r', 'a', 'n', 'g', 'e')
	return append(anything(r, out, 3), b...)
}

// anything appends a MessagePack value of any format.
func anything(r *simrt.Rand, b []byte, depth int) []byte {
	fill := func(n int) {
		for ; n > 0; n-- {
			b = append(b, byte(r.U64()))
		}
	}
	c := 0x80 + r.Intn(0x80)
	if r.Bool(0.6) {
		c = 0xC0 + r.Intn(0x20)
	}
	if depth == 0 && (c < 0xA0 || c >= 0xDC && c < 0xE0) || c == 0xC1 {
		c = r.Intn(0x80)
	}
	b = append(b, byte(c))
	length := func(w, max int) int {
		n := r.Intn(max)
		for k := w - 1; k >= 0; k-- {
			b = append(b, byte(n>>(8*k)))
		}
		return n
	}
	items := func(n int) {
		for ; n > 0; n-- {
			b = anything(r, b, depth-1)
		}
	}
	switch {
	case c < 0x80 || c >= 0xE0 || c == 0xC0 || c == 0xC2 || c == 0xC3:
	case c < 0x90:
		items(2 * (c & 15))
	case c < 0xA0:
		items(c & 15)
	case c < 0xC0:
		fill(c & 31)
	case c < 0xC7:
		fill(length(1<<(c-0xC4), 200))
	case c < 0xCA:
		n := length(1<<(c-0xC7), 200)
		fill(1 + n)
	case c < 0xCC:
		fill(4 << (c - 0xCA))
	case c < 0xD4:
		fill(1 << (c & 3))
	case c < 0xD9:
		fill(1 + 1<<(c-0xD4))
	case c < 0xDC:
		fill(length(1<<(c-0xD9), 200))
	case c < 0xDE:
		items(length(2<<(c-0xDC), 6))
	default:
		items(2 * length(2<<(c-0xDE), 6))
	}
	return b
}

func (st *tState) damage(t *typ, b []byte) []byte {
	r := simrt.NewRand(st.op.DV)
	b = append([]byte(nil), b...)
	return st.damageBy(r, t, b, st.op.Dmg)
}

func (st *tState) damageBy(r *simrt.Rand, t *typ, b []byte, how int) []byte {
	switch how {
	case dCut:
		if len(b) > 0 {
			n := r.Intn(len(b))
			if r.Bool(0.3) {
				n = len(b) - 1
			}
			b = b[:n]
		}
	case dByte:
		if len(b) > 0 {
			at := r.Intn(min(len(b), pick(r, 1, 3, 100, 100000)))
			b[at] = byte(r.U64())
			if r.Bool(0.3) {
				b[at] = []byte{0xD9, 0xDA, 0xDB, 0xDC, 0xDD, 0xDE, 0xDF, 0xC4, 0xC5, 0xC6, 0xC7, 0xC8, 0xC9, 0xC0, 0xC1, 0x90, 0x80, 0xFF}[r.Intn(18)]
			}
		}
	case dJunk:
		b = append(b, genBytes(r)...)
	case dOther:
		o := &typs[r.Intn(len(typs))]
		p, err := o.enc(o.gen(r))
		if err == nil {
			b = append([]byte(nil), p.Data()...)
		}
	case dRandom:
		b = genBytes(r)
		if len(b) > 2000 {
			b = b[:2000]
		}
	case dLong:
		c := []byte{0xDB, 0xC6, 0xDD, 0xDF, 0xC9, 0xDC, 0xDE, 0xDA, 0xC5, 0xC8}[r.Intn(10)]
		switch c {
		case 0xDB, 0xC6, 0xC9: // as long as can be: what is behind them is not reserved
			n := uint32(0xFFFFFFFF) - uint32(r.Intn(12))
			if r.Bool(0.3) {
				n = uint32(r.U64())
			}
			b = binary.BigEndian.AppendUint32([]byte{c}, n)
		case 0xDD, 0xDF: // what this would reserve is seen, and does not end the process
			b = binary.BigEndian.AppendUint32([]byte{c}, uint32(pick(r, 1<<24, 1<<23, 1<<24+5)))
		default:
			b = []byte{c, 0xFF, byte(r.U64())}
		}
		b = append(b, body(st.id, 'L', 0, r.Intn(40))...)
		for k := r.Intn(4); k > 0; k-- { // inside of others, at some distance
			b = append([]byte{0x91 + byte(r.Intn(3))}, b...)
			if r.Bool(0.5) {
				b = append([]byte{0x92, 0xA3, 'a', 'b', 'c'}, b...)
			}
		}
	case dKey:
		k := [][]byte{{0x90}, {0x80}, {0xC4, 1, 7}, {0x91, 1}, {0xC4, 0}, {0xDC, 0, 1, 5}, {0x81, 1, 2}}[r.Intn(7)]
		b = append(append([]byte{0x81}, k...), 0x01)
		if r.Bool(0.3) {
			b = append([]byte{0x91}, b...)
		}
	case dDeep:
		b = nest(r, 100+r.Intn(30000))
	case dBomb:
		b = nest(r, 15<<20)
	case dNumber:
		n := r.Intn(4)
		v := []uint64{0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}[r.Intn(17)]
		if r.Bool(0.5) {
			v = -v
		}
		if r.Bool(0.2) {
			v = r.U64()
		}
		b = binary.BigEndian.AppendUint64(nil, v)
		b = append([]byte{byte(pick(r, 0xCC, 0xD0) + n)}, b[8-1<<n:]...)
	case dUnknown, dAbyss:
		how := pick(r, dLong, dDeep, dRandom, dOther, dKey)
		if st.op.Dmg == dAbyss {
			how = dBomb
		}
		x := st.damageBy(r, t, b, how)
		b = append([]byte{0x81, 0xA3, 'n', 'e', 'w'}, x...)
		if r.Bool(0.3) {
			b[0]++
			b = append(b, 0xA1, 's', 0xA1, 'x')
		}
	}
	return b
}

// take decodes what arrived, as the application does.
func (st *tState) take(out bool, i int, p pl) (any, error) {
	t := st.t
	if out {
		t = st.t2
	}
	b := p.Data()
	if st.broken(out, i) {
		var v any
		var err error
		took := func() uint64 {
			var m0, m1 runtime.MemStats
			runtime.ReadMemStats(&m0)
			v, err = t.dec(p)
			runtime.ReadMemStats(&m1)
			return m1.TotalAlloc - m0.TotalAlloc
		}
		if limit := 32<<20 + 4000*uint64(len(b)); took() > limit { // or another task did
			var d uint64
			simrt.Still(func() { d = took() })
			if d > limit {
				fail("typed.memory", "decoding reserved memory out of proportion | %s: %d bytes made it allocate %d MiB: %s", st.where(out, i), len(b), d>>20, show(b))
			}
		}
		if err == nil && t.never != nil {
			switch {
			case len(b) == 0:
				fail("typed.accepted", "bytes that are no encoding of the type were decoded without an error | %s: no bytes", st.where(out, i))
			case t.never(b[0]):
				fail("typed.accepted", "bytes that are no encoding of the type were decoded without an error | %s: %s", st.where(out, i), show(b))
			case st.op.Dmg == dCut:
				fail("typed.accepted", "a value that was cut off was decoded without an error | %s: %s", st.where(out, i), show(b))
			}
		}
		if err == nil {
			simrt.Stat("typed_damaged_decoded")
			if want, ok := refScalar(b); ok && t.scalar {
				if got := fmt.Sprintf("%v", plain(v)); got != want {
					fail("typed.accepted", "a value was decoded as another one | %s: %s as %s, not %s", st.where(out, i), show(b), short(got), short(want))
				}
			}
		} else {
			simrt.Stat("typed_damaged_refused")
		}
		return v, err
	}
	v, err := t.dec(p)
	if err != nil {
		fail("typed.decode", "a value could not be decoded from its own encoding | %s: %v: %s", st.where(out, i), err, show(b))
	}
	text, want := canon(v), canon(st.value(out, i))
	if text != want {
		fail("typed.value", "a value arrived as another one | %s: %s, sent %s", st.where(out, i), diff(text, want), diff(want, text))
	}
	st.g.kept = append(st.g.kept, tKept{v, text, st.where(out, i)})
	return v, nil
}

// diff is the part of a around the first place where it differs from b.
func diff(a, b string) string {
	k := 0
	for k < len(a) && k < len(b) && a[k] == b[k] {
		k++
	}
	lo, hi := max(0, k-20), min(len(a), k+30)
	return fmt.Sprintf("...%s...", a[lo:hi])
}

func (st *tState) md() []byte { return []byte{'T', byte(st.id >> 8), byte(st.id), 0x5A} }

// find is the call a request belongs to.
func (g *tRig) find(p pl, kinds ...int) *tState {
	md := p.Metadata()
	if len(md) >= 4 {
		md = md[len(md)-4:]
		id := int(binary.BigEndian.Uint16(md[1:]))
		if md[0] == 'T' && md[3] == 0x5A && id < len(g.st) {
			st := g.st[id]
			for _, k := range kinds {
				if st.op.K == k {
					st.calls++
					if st.calls > 1 && k != tHandle {
						fail("typed.calls", "a handler ran more than once for one call | op %d", id)
					}
					return st
				}
			}
		}
	}
	fail("typed.request", "a handler was invoked with a request nobody made | metadata %s", show(p.Metadata()))
	return nil
}

func (st *tState) pause() {
	if st.op.HWait > 0 {
		simrt.TimeSleep(ms(st.op.HWait))
	}
}

// answer is the responder's mono: made in one of several ways.
func (st *tState) answer(v any) mono.Mono[any] {
	later := func(f func()) {
		simrt.GoNamed(fmt.Sprintf("answer of op %d", st.id), func() {
			st.pause()
			f()
		})
	}
	switch st.op.Mode % 4 {
	case 0:
		return mono.Just(v)
	case 1:
		return mono.Create(func(s mono.Sink[any]) { s.Success(v) })
	case 2:
		return mono.Create(func(s mono.Sink[any]) { later(func() { s.Success(v) }) })
	}
	m := mono.NewProcessor[any]()
	later(func() { m.Success(v) })
	return m
}

// source emits values as they are asked for.
func (st *tState) source(out bool, from, n int) flux.Flux[any] {
	var l []any
	for i := 0; i < n; i++ {
		l = append(l, st.value(out, from+i))
	}
	if st.op.Mode/4 == 0 {
		return flux.FromSlice(l)
	}
	return flux.Create(func(sink flux.Sink[any]) {
		demand, busy, over := 0, false, false
		run := func() {
			if busy {
				return
			}
			busy = true
			for demand > 0 && !over && len(l) > 0 {
				v := l[0]
				l = l[1:]
				demand--
				sink.Next(v)
				simrt.Yield()
			}
			busy = false
			if len(l) == 0 && !over {
				over = true
				sink.Complete()
			}
		}
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) {
				demand = min(demand+min(n, rx.RequestMax), rx.RequestMax)
				if st.op.Mode%2 == 0 {
					simrt.GoNamed(fmt.Sprintf("source of op %d", st.id), run)
				} else {
					run()
				}
			},
			Cancel: func() { over = true },
		})
	})
}

// encoded turns values into payloads, counting them.
func (st *tState) encoded(out bool, from int, f flux.Flux[any]) flux.Flux[pl] {
	i := from - 1
	return flux.Map(f, func(v any) (pl, error) {
		i++
		return st.put(out, i, v)
	})
}

// decoded turns payloads into values.
func (st *tState) decoded(out bool, from int, f flux.Flux[pl], n *int) flux.Flux[any] {
	return flux.Map(f, func(p pl) (any, error) {
		if *n >= st.op.N {
			fail("typed.items", "more items arrived than were sent | %s", st.where(out, from+*n))
		}
		v, err := st.take(out, from+*n, p)
		*n++
		if err != nil {
			st.want = "error " + err.Error()
		}
		return v, err
	})
}

func (st *tState) argument(p pl) (any, error) {
	v, err := st.take(false, 0, p)
	if err != nil {
		st.want = "error " + err.Error()
	}
	return v, err
}

func (g *tRig) rr(ctx context.Context, p pl) mono.Mono[pl] {
	st := g.find(p, tRR, tHandle)
	if st.op.K == tHandle {
		return g.handle(st, p)
	}
	if _, err := st.argument(p); err != nil {
		return mono.Error[pl](err)
	}
	return mono.Map(st.answer(st.value(true, 0)), func(v any) (pl, error) { return st.put(true, 0, v) })
}

// handle serves the calls on instances: the first makes one, the others name it.
func (g *tRig) handle(st *tState, p pl) mono.Mono[pl] {
	if st.calls == 1 {
		v, err := st.argument(p)
		if err != nil {
			return mono.Error[pl](err)
		}
		st.obj = &tObj{st, v}
		m := mono.Map(st.answer(nil), func(any) (*tObj, error) { return st.obj, nil })
		return mono.Map(m, transform.InterfaceEncode(g.live))
	}
	h, err := transform.Uint64.Decode(p)
	if err != nil {
		fail("typed.decode", "a value could not be decoded from its own encoding | handle of op %d: %v", st.id, err)
	}
	o, ok := g.live.Get(h & (1<<63 - 1))
	if h>>63 != 0 {
		o, ok = g.live.Remove(h & (1<<63 - 1))
	}
	if !ok {
		return mono.Error[pl](invoke.ErrNoInstance)
	}
	if o.st != st && h&(1<<63-1) < 1<<40 {
		fail("typed.handle", "a handle reached another instance | op %d: the instance of op %d", st.id, o.st.id)
	}
	return mono.Map(st.answer(st.value(true, 0)), func(v any) (pl, error) { return st.put(true, 0, v) })
}

func (g *tRig) fnf(ctx context.Context, p pl) {
	st := g.find(p, tFNF)
	st.argument(p)
	st.pause()
}

func (g *tRig) rs(ctx context.Context, p pl) flux.Flux[pl] {
	st := g.find(p, tRS)
	if _, err := st.argument(p); err != nil {
		return flux.Error[pl](err)
	}
	return st.encoded(true, 0, st.source(true, 0, st.op.N))
}

func (g *tRig) rc(ctx context.Context, p pl, in flux.Flux[pl]) flux.Flux[pl] {
	st := g.find(p, tRC, tPorts)
	if _, err := st.argument(p); err != nil {
		return flux.Error[pl](err)
	}
	if st.op.K == tPorts {
		return g.component(st, in)
	}
	vals := flux.Map(st.decoded(false, 1, in, &st.in), func(v any) (any, error) { return st.value(true, st.in-1), nil })
	// what the caller sees if an item cannot be decoded
	return flux.Map(st.encoded(true, 0, vals), func(p pl) (pl, error) { return p, nil })
}

// ---- components: several ports over one channel ----

type portItem struct {
	port           string
	next, complete bool
	extra          []byte
}

func (st *tState) script() []portItem {
	r := simrt.NewRand(simrt.Mix(st.op.V, 77))
	var l []portItem
	names := []string{"a", "words", "", "näme", string(bytes.Repeat([]byte("p"), 300))}
	for i := 0; i < st.op.N; i++ {
		it := portItem{port: names[r.Intn(len(names))]}
		switch r.Intn(4) {
		case 0:
			it.next, it.complete = true, true
		case 1:
			it.complete = true
		default:
			it.next = true
		}
		if r.Bool(0.3) {
			it.extra = genBytes(r)
		}
		l = append(l, it)
	}
	return l
}

func (it portItem) io() invoke.PortIO {
	return invoke.PortIO{Port: it.port, Next: it.next, Complete: it.complete, Data: it.extra}
}

func (st *tState) port(what string, i int, md []byte) (invoke.PortIO, error) {
	var io invoke.PortIO
	err := io.Decode(md)
	return io, err
}

func (st *tState) samePort(what string, i int, io invoke.PortIO) {
	it := st.script()[i]
	if io.Port != it.port || io.Next != it.next || io.Complete != it.complete || !bytes.Equal(io.Data, it.extra) {
		fail("typed.port", "an item of a port arrived as another one | op %d %s %d: port %q next %v complete %v, sent %q %v %v", st.id, what, i, io.Port, io.Next, io.Complete, it.port, it.next, it.complete)
	}
}

// badPort tells whether the port of input i is damaged.
func (st *tState) badPort(i int) bool {
	return st.op.N > 0 && st.op.Mode >= 4 && st.op.Dmg == dNone && i == int(st.op.V%uint64(st.op.N))
}

func (st *tState) portBytes(i int) []byte {
	io := st.script()[i].io()
	b := io.Encode()
	if st.badPort(i) {
		r := simrt.NewRand(st.op.V + 5)
		switch r.Intn(4) {
		case 0:
			b = b[:r.Intn(len(b))]
		case 1:
			b = b[:min(len(b), r.Intn(4))]
		case 2:
			b = append([]byte(nil), b...)
			b[min(1+r.Intn(2), len(b)-1)] = 0xFF
		default:
			b = genBytes(r)
		}
	}
	return b
}

var errPort = errors.New("bad port")

func (g *tRig) component(st *tState, in flux.Flux[pl]) flux.Flux[pl] {
	return flux.Create(func(sink flux.Sink[pl]) {
		over := false
		end := func(err error) {
			if over {
				return
			}
			over = true
			if err != nil {
				sink.Error(err)
			} else {
				sink.Complete()
			}
		}
		in.Subscribe(flux.Subscribe[pl]{
			OnNext: func(p pl) {
				if over {
					return
				}
				i := st.in
				if i >= st.op.N {
					fail("typed.items", "more items arrived than were sent | op %d input %d", st.id, i)
				}
				st.in++
				md := p.Metadata()
				io, err := st.port("input", i, md)
				if st.badPort(i) {
					if err == nil && (len(md) < 3 || len(md) < 3+int(binary.BigEndian.Uint16(md[1:]))) {
						fail("typed.accepted", "bytes that are no encoding of the type were decoded without an error | port of op %d input %d: %s", st.id, i, show(md))
					}
					simrt.Stat("typed_damaged_ports")
					st.want = "error " + errPort.Error()
					end(errPort)
					return
				}
				if err != nil {
					fail("typed.decode", "a value could not be decoded from its own encoding | port of op %d input %d: %v", st.id, i, err)
				}
				st.samePort("input", i, io)
				if io.Next {
					if _, err := st.take(false, 1+i, p); err != nil {
						st.want = "error " + err.Error()
						end(err)
						return
					}
				}
				q := payload.New(nil, io.Encode())
				if io.Next {
					e, err := st.put(true, i, st.value(true, i))
					if err != nil {
						end(err)
						return
					}
					q = payload.New(e.Data(), io.Encode())
				}
				sink.Next(q)
			},
			OnComplete: func() { end(nil) },
			OnError:    func(err error) { end(err) },
		})
	})
}

func (st *tState) portInput() flux.Flux[pl] {
	i := -1
	return flux.Map(st.source(false, 1, st.op.N), func(v any) (pl, error) {
		i++
		md := st.portBytes(i)
		if !st.script()[i].next {
			return payload.New(nil, md), nil
		}
		p, err := st.put(false, 1+i, v)
		if err != nil {
			return nil, err
		}
		return payload.New(p.Data(), md), nil
	})
}

// ---- callers ----

func (st *tState) end(s string) {
	st.ended++
	if st.ended > 1 {
		fail("typed.twice", "a typed call ended more than once | op %d: %s after %s", st.id, s, st.outcome)
	}
	st.outcome = s
	simrt.Logf("op %d: %s", st.id, s)
}

func (st *tState) follow(f flux.Flux[any], each func(any)) {
	f.Subscribe(flux.Subscribe[any]{
		OnNext:     each,
		OnComplete: func() { st.end("complete") },
		OnError:    func(err error) { st.end("error " + err.Error()) },
	})
}

func (g *tRig) call(st *tState, caller invoke.Caller) {
	o := st.op
	ctx := context.Background()
	v := st.value(false, 0)
	a, err := st.put(false, 0, v)
	if err != nil {
		harness("put: %v", err)
	}
	p := payload.New(a.Data(), reqMeta(g.index, 0, st.md()))
	simrt.Logf("op %d: kind %d types %s, %s", st.id, o.K, st.t.name, st.t2.name)
	switch o.K {
	case tRR:
		m := mono.Map(caller.RequestResponse(ctx, p), func(p pl) (any, error) { return st.take(true, 0, p) })
		m.Subscribe(mono.Subscribe[any]{
			OnSuccess: func(v any) { st.end("complete") },
			OnError: func(err error) {
				if st.want == "" && st.broken(true, 0) {
					st.want = "error " + err.Error()
				}
				st.end("error " + err.Error())
			},
		})
	case tFNF:
		caller.FireAndForget(ctx, p)
		st.end("sent")
	case tRS:
		f := st.decodedHere(caller.RequestStream(ctx, p))
		st.follow(f, func(any) {})
	case tRC:
		f := st.decodedHere(caller.RequestChannel(ctx, p, st.encoded(false, 1, st.source(false, 1, o.N))))
		st.follow(f, func(any) {})
	case tPorts:
		f := caller.RequestChannel(ctx, p, st.portInput())
		st.follow(flux.Map(f, func(p pl) (any, error) {
			i := st.got
			if i >= o.N {
				fail("typed.items", "more items arrived than were sent | op %d output %d", st.id, i)
			}
			st.got++
			io, err := st.port("output", i, p.Metadata())
			if err != nil {
				fail("typed.decode", "a value could not be decoded from its own encoding | port of op %d output %d: %v", st.id, i, err)
			}
			st.samePort("output", i, io)
			if !io.Next {
				return nil, nil
			}
			return st.take(true, i, p)
		}), func(any) {})
	case tHandle:
		g.session(st, caller, p)
	}
}

// decodedHere decodes the output; what cannot be decoded ends the stream here.
func (st *tState) decodedHere(f flux.Flux[pl]) flux.Flux[any] {
	return flux.Map(f, func(p pl) (any, error) {
		if st.got >= st.op.N {
			fail("typed.items", "more items arrived than were sent | %s", st.where(true, st.got))
		}
		i := st.got
		v, err := st.take(true, i, p)
		st.got++
		if err != nil {
			st.want = "error " + err.Error()
		}
		return v, err
	})
}

func (g *tRig) session(st *tState, caller invoke.Caller, p pl) {
	ctx := context.Background()
	h, err := mono.Map(caller.RequestResponse(ctx, p), transform.Uint64.Decode).Block()
	if err != nil {
		st.end("error " + err.Error())
		return
	}
	use := func(h uint64) (any, error) {
		a, err := transform.Uint64.Encode(h)
		if err != nil {
			fail("typed.encode", "a value could not be encoded | handle of op %d: %v", st.id, err)
		}
		return mono.Map(caller.RequestResponse(ctx, payload.New(a.Data(), reqMeta(g.index, 0, st.md()))), func(p pl) (any, error) { return st.take(true, 0, p) }).Block()
	}
	for i := 0; i < st.op.N; i++ {
		if _, err := use(h); err != nil {
			fail("typed.handle", "an instance that is still open was not found | op %d use %d: %v", st.id, i, err)
		}
		simrt.Stat("typed_handle_uses")
	}
	if _, err := use(h | 1<<50); err == nil {
		fail("typed.handle", "a handle nobody was given reached an instance | op %d", st.id)
	}
	if st.op.Mode%2 == 0 {
		if _, err := use(h | 1<<63); err != nil {
			fail("typed.handle", "an instance that is still open was not found | op %d close: %v", st.id, err)
		}
		for _, x := range []uint64{h, h | 1<<63} {
			if _, err := use(x); err == nil || err.Error() != invoke.ErrNoInstance.Error() {
				fail("typed.handle", "a closed instance was reached | op %d: %v", st.id, err)
			}
		}
	}
	st.end("complete")
}

func runTyped(plan any) {
	p := plan.(*TypedPlan)
	g := &tRig{rsRig: &rsRig{p: &RSPlan{Net: p.Net, Clients: p.Clients}}, plan: p, live: invoke.NewLiveInstances[*tObj](), index: 3}
	for i := range p.Ops {
		o := &p.Ops[i]
		g.st = append(g.st, &tState{g: g, op: o, id: i, t: &typs[o.T], t2: &typs[o.T2]})
	}
	rig = g.rsRig
	g.states()
	g.setup()
	invoke.ExportRequestResponse("typed", "op", g.rr)
	invoke.ExportFireAndForget("typed", "op", g.fnf)
	invoke.ExportRequestStream("typed", "op", g.rs)
	invoke.ExportRequestChannel("typed", "op", g.rc)
	if len(p.Ops) > 0 {
		nontrivial()
	}
	for _, st := range g.st {
		simrt.GoNamed(fmt.Sprintf("caller %d", st.id), func() {
			simrt.TimeSleep(time.Duration(st.op.At) * time.Millisecond)
			c := g.conns[st.op.C]
			var caller invoke.Caller = c.ch
			if st.op.D == 1 {
				caller = c.sh
			}
			g.call(st, caller)
		})
	}
	simrt.WaitQuiescent()
	for _, c := range g.conns {
		if c.broken() || c.ret {
			fail("typed.down", "a connection that only carried typed calls was closed | client %d: %v", c.i, c.retErr)
		}
	}
	for _, st := range g.st {
		o := st.op
		simrt.Stat(fmt.Sprintf("typed_calls_%d", o.K))
		if st.calls == 0 {
			fail("typed.calls", "a typed call never reached its handler | op %d", st.id)
		}
		if st.ended == 0 {
			fail("typed.hang", "a typed call never ended | op %d kind %d: %d items in, %d out", st.id, o.K, st.in, st.got)
		}
		if o.K == tFNF {
			continue
		}
		want := st.want
		if want == "" {
			want = "complete"
		}
		if st.outcome != want {
			fail("typed.outcome", "a typed call ended in another way than it should | op %d kind %d: %s, not %s", st.id, o.K, short(st.outcome), short(want))
		}
		if want == "complete" && (o.K == tRS || o.K == tRC || o.K == tPorts) && st.got != o.N {
			fail("typed.items", "fewer items arrived than were sent | op %d: %d of %d", st.id, st.got, o.N)
		}
	}
	for _, k := range g.kept {
		if canon(k.v) != k.text {
			fail("typed.changed", "a value handed to the application changed later | %s", k.what)
		}
	}
	simrt.StatN("typed_values_retained_and_compared", int64(len(g.kept)))
}

var famTyped = &Family{Name: "typed", Gen: genTyped, New: func() any { return &TypedPlan{} }, Run: runTyped, Tidy: tidyTyped}

func init() {
	register(&Check{ID: "C36", Variants: []Variant{{F: famTyped, Prof: "mix", Weight: 1, Steps: 3000000}}, Accept: []string{"typed."},
		Real:  "real iota code: msgpack, msgpack/convert, transform, invoke (exports, live instances, ports), rx/mono, rx/flux, handler, proxy, payload, internal/frames, internal/buffer, internal/socket, transport/rsocket",
		Stubs: "simulated: goroutine scheduling, sync, channels, clock, network, map iteration order; harness: typed services written as the code generator writes them, callers, damaged payloads",
		Rule:  "A run has one to three clients and a server make up to seven typed calls of each other at once (request/response, fire-and-forget, streams, channels, components with ports, instances named by handles) with values of 26 types, edge values first, and damages some of the payloads: cut short, changed, replaced, claiming absurd lengths, with impossible keys, nested absurdly, in known fields and in fields the reader skips; or gives records a field of any MessagePack format. Each value must arrive as it was sent and stay so, its encoding must be exactly one MessagePack value, damaged bytes must be refused where they cannot be an encoding of the type, fail only their own call, with the decoder's error, and cost no panic and no memory out of proportion; every call must end once, in the way that follows from that; a handle must reach its own instance until it is closed."})
}

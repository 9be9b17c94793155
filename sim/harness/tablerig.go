//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/nanobus/iota/go/internal/verifsim/gspec"
	"github.com/nanobus/iota/go/internal/verifsim/simrt"
	"github.com/nanobus/iota/go/internal/verifsim/simwz"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

// Modules tell their host what they export and import; calls go by the indexes so learned.

// TabName is a namespace or an operation's name.
type TabName struct {
	C, S int // class, seed
}

const (
	nameShort = iota // of few letters, so that pairs are alike
	nameEmpty
	nameUTF8
	nameBytes
	nameEdge // of 127, 128, 255, 256, 257 bytes
	nameLong
	nameHuge // of 65534 or 65535 bytes
	nameClasses
)

func oneOf[T any](r *simrt.Rand, l ...T) T { return l[r.Intn(len(l))] }

func (n TabName) text() string {
	r := simrt.NewRand(uint64(n.S)*31 + 7)
	fill := func(l int) string {
		b := make([]byte, l)
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyz"[r.Intn(26)]
		}
		return string(b)
	}
	switch n.C {
	case nameEmpty:
		return ""
	case nameUTF8:
		return oneOf(r, "größe", "名前空間", "\u202e", "a\u0301", "🜏", "nano.bus/ι", "a:b", "a b")
	case nameBytes:
		b := make([]byte, r.Intn(12))
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
		return string(b)
	case nameEdge:
		return fill(pick(r, 127, 128, 255, 256, 257, 258, 511, 512, 513))
	case nameLong:
		return fill(300 + r.Intn(4700))
	case nameHuge:
		return fill(pick(r, 32767, 32768, 65534, 65535))
	default:
		l := r.Intn(4)
		b := make([]byte, l)
		for i := range b {
			b[i] = "ab."[r.Intn(3)]
		}
		return string(b)
	}
}

// TabEntry is an operation a module declares.
type TabEntry struct {
	K      int
	Imp    bool
	Ns, Op TabName
	Index  uint32 // foreign modules choose their own
}

// TabCall is a call of an export (up: of an import) of a module, and what the handler calls in turn.
type TabCall struct {
	G   int
	Up  bool // foreign modules only: the module makes it
	E   int  // which of the exports (imports)
	Kid int  // real modules: which import the handler calls; -1: none
	Sz  int
	At  int
}

// TabGuest is a module.
type TabGuest struct {
	Foreign bool
	Entries []TabEntry
	At      int // ms, when it is instantiated
	Damage  int // foreign: what is wrong with its table
	Pos     int
	Edge    bool // the table ends where the memory ends
	Trash   bool // its memory is overwritten when it has announced
	Grow    bool // ... and moves
}

// TabPlan is a run.
type TabPlan struct {
	Guests []TabGuest
	Calls  []TabCall
	One    bool // one host for all
}

const (
	dmgNone = iota
	dmgCut
	dmgMagic
	dmgVersion
	dmgCount
	dmgLen
	dmgOut // beyond the memory
	dmgKinds
)

func genTab(r *simrt.Rand, prof string, thorough bool) any {
	p := &TabPlan{One: r.Bool(0.5)}
	name := func(share int) TabName {
		n := TabName{C: r.Pick(40, 4, 12, 12, 12, 6, 2), S: r.Intn(1 << 20)}
		if r.Bool(0.3) {
			n.S = r.Intn(4) + share
		}
		return n
	}
	for n := 1 + r.Intn(4); n > 0; n-- {
		g := TabGuest{Foreign: r.Bool(0.4), At: pick(r, 0, 0, 1, r.Intn(10)), Edge: r.Bool(0.3), Trash: r.Bool(0.6), Grow: r.Bool(0.3), Pos: r.Intn(1 << 20)}
		if g.Foreign && r.Bool(0.4) {
			g.Damage = 1 + r.Intn(dmgKinds-1)
		}
		m := pick(r, 0, 1, 1+r.Intn(6), 1+r.Intn(20), 1+r.Intn(60))
		if r.Bool(0.06) {
			m = 250 + r.Intn(250)
		}
		mostly := r.Bool(0.3)
		bias := r.Pick(4, 1, 1, 1, 1) - 1
		for i := 0; i < m; i++ {
			e := TabEntry{K: r.Intn(4), Imp: r.Bool(0.45), Ns: name(0), Op: name(100)}
			if bias >= 0 && r.Bool(0.95) {
				e.K = bias
			}
			if m > 60 {
				e.Ns, e.Op = TabName{nameShort, r.Intn(1 << 20)}, TabName{nameBytes, r.Intn(1 << 20)}
				e.Imp = (i%97 == 0) != mostly
			}
			e.Index = oneOf(r, uint32(i), uint32(r.Intn(1000)), uint32(r.U64()), 1<<32-1-uint32(i), 65536*uint32(1+r.Intn(9)), 256*uint32(1+r.Intn(300)), 0x80000000|uint32(i))
			g.Entries = append(g.Entries, e)
		}
		p.Guests = append(p.Guests, g)
	}
	for n := 1 + r.Intn(12); n > 0; n-- {
		p.Calls = append(p.Calls, TabCall{G: r.Intn(len(p.Guests)), Up: r.Bool(0.5), E: r.Intn(1 << 20), Kid: r.Intn(400) - 80, Sz: r.Intn(60), At: pick(r, 0, 0, r.Intn(20))})
	}
	return p
}

func tidyTab(x any) {
	p := x.(*TabPlan)
	if len(p.Guests) > len(guestMains) {
		p.Guests = p.Guests[:len(guestMains)]
	}
	for i := range p.Guests {
		g := &p.Guests[i]
		clamp(&g.Damage, 0, dmgKinds-1)
		clamp(&g.Pos, 0, 1<<30)
		clamp(&g.At, 0, 1000)
		if len(g.Entries) > 600 {
			g.Entries = g.Entries[:600]
		}
		huge := 0
		for j := range g.Entries {
			e := &g.Entries[j]
			clamp(&e.K, 0, 3)
			clamp(&e.Ns.C, 0, nameClasses-1)
			clamp(&e.Op.C, 0, nameClasses-1)
			for _, c := range []*int{&e.Ns.C, &e.Op.C} {
				if *c == nameHuge {
					if huge++; huge > 3 {
						*c = nameEdge
					}
				}
			}
		}
	}
	if len(p.Calls) > 60 {
		p.Calls = p.Calls[:60]
	}
	kept := p.Calls[:0]
	for _, c := range p.Calls {
		clamp(&c.Sz, 0, 4000)
		clamp(&c.At, 0, 1000)
		clamp(&c.E, 0, 1<<30)
		clamp(&c.Kid, -1, 1<<30)
		if c.G >= 0 && c.G < len(p.Guests) {
			kept = append(kept, c)
		}
	}
	p.Calls = kept
}

// tabOp is an operation as a module declared it.
type tabOp struct {
	gspec.Op
	imp   bool
	index uint32 // as the module knows it
	known bool
}

func (o *tabOp) String() string {
	d := "export"
	if o.imp {
		d = "import"
	}
	return fmt.Sprintf("%s %s %s %s", kindName[o.Kind], d, clip(o.Namespace), clip(o.Name))
}

func clip(s string) string {
	if len(s) > 30 {
		return fmt.Sprintf("%q...(%d bytes)", s[:24], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// tabCall is one call made.
type tabCall struct {
	id    int
	g     *tabGuest
	op    *tabOp
	kid   *tabOp
	sz    int
	calls int
	got   int
	ended string
	up    bool
	sid   uint32
}

type tabGuest struct {
	r         *tabRig
	k         int
	p         *TabGuest
	exp, imps []*tabOp
	inst      *host.Instance
	listed    map[*tabOp]uint32
	first     string // the list as it was at first
	mod       *simwz.Wild
	send      uint32
	recv      uint32
	out       []byte
	up        []*tabCall
	inside    bool
}

type tabRig struct {
	p      *TabPlan
	guests []*tabGuest
	hosts  []*host.Host
	calls  []*tabCall
}

func (c *tabCall) String() string {
	return fmt.Sprintf("call %d of %v of module %d", c.id, c.op, c.g.k)
}

// ---- a real guest ----

func (x *tabGuest) Exports() []gspec.Op { return opList(x.exp) }
func (x *tabGuest) Imports() []gspec.Op { return opList(x.imps) }

func opList(l []*tabOp) (out []gspec.Op) {
	for _, o := range l {
		out = append(out, o.Op)
	}
	return
}

func (x *tabGuest) Imported(op gspec.Op, index uint32) {
	for _, o := range x.imps {
		if o.Op == op {
			o.index, o.known = index, true
		}
	}
}

// reached is called when a request has reached a handler of op.
func (r *tabRig) reached(x *tabGuest, op gspec.Op, imp bool, data []byte) *tabCall {
	id := -1
	if len(data) >= 8 {
		id = int(binary.BigEndian.Uint16(data[1:]))
	}
	if id < 0 || id >= len(r.calls) || !bytes.Equal(data, body(id, 'q', 0, r.calls[id].sz)) {
		fail("tab.call", "a handler got a request nobody made | %s of module %d: %s", clip(op.Name), x.k, show(data))
	}
	c := r.calls[id]
	if c.g != x || c.op.Op != op || c.op.imp != imp {
		fail("tab.call", "a call reached another operation than the one its index was listed for | %v reached %s %s %s of module %d", c, kindName[op.Kind], clip(op.Namespace), clip(op.Name), x.k)
	}
	if c.calls++; c.calls > 1 {
		fail("tab.call", "one call reached its operation twice | %v", c)
	}
	simrt.Logf("%v arrives", c)
	return c
}

func (x *tabGuest) Serve(op gspec.Op, p gspec.Payload) *gspec.Served {
	c := x.r.reached(x, op, false, p.Data())
	s := &gspec.Served{RC: 2, Value: payload.New(body(c.id, 'r', 0, c.sz)), Done: func() {}, Out: &tabStream{c}}
	if c.kid != nil {
		s.Calls = append(s.Calls, x.r.kidCall(x, c.kid, c.sz))
	}
	return s
}

// kidCall is a call a real guest makes of one of its imports.
func (r *tabRig) kidCall(x *tabGuest, op *tabOp, sz int) *gspec.Call {
	c := r.newCall(x, op, sz)
	st := &tabStream{c}
	if !op.known {
		fail("tab.import", "an import was given no index | %v", c)
	}
	return &gspec.Call{Kind: op.Kind, Index: op.index, Data: body(c.id, 'q', 0, sz), Out: st, In: st,
		Value:  func(p gspec.Payload) { c.element(p.Data()); c.end("complete") },
		Failed: func(err error) { c.end("error " + err.Error()) }, Finally: func() {}}
}

func (r *tabRig) newCall(x *tabGuest, op *tabOp, sz int) *tabCall {
	c := &tabCall{id: len(r.calls), g: x, op: op, sz: sz}
	r.calls = append(r.calls, c)
	return c
}

// want is the only element of the answer.
func (c *tabCall) want() []byte {
	if c.op.Kind == 3 {
		return append([]byte{'!'}, body(c.id, 'i', 0, c.sz)...)
	}
	return body(c.id, 'r', 0, c.sz)
}

func (c *tabCall) element(b []byte) {
	if c.got++; c.got > 1 || c.ended != "" || !bytes.Equal(b, c.want()) {
		fail("tab.answer", "a call got an answer its operation did not give | %v: element %d is %s", c, c.got, show(b))
	}
}

func (c *tabCall) end(what string) {
	simrt.Logf("%v ends: %s", c, what)
	if c.ended != "" || what != "complete" || c.got != 1 {
		fail("tab.answer", "a call did not end as its operation ended it | %v: %q %q after %d elements", c, c.ended, what, c.got)
	}
	c.ended = what
}

// tabStream is a stream of one element, or its consumer.
type tabStream struct{ c *tabCall }

func (s *tabStream) Produce() (string, []gspec.Payload, error) {
	d := body(s.c.id, 'r', 0, s.c.sz)
	if s.c.op.Kind == 3 {
		d = body(s.c.id, 'i', 0, s.c.sz)
	}
	return "slice", []gspec.Payload{payload.New(d)}, nil
}
func (s *tabStream) Source(gspec.Sink, func([]gspec.Payload) func(int)) {}
func (s *tabStream) Mapped()                                            {}
func (s *tabStream) Consumer() gspec.Consumer {
	return gspec.Consumer{OnNext: func(p gspec.Payload) { s.c.element(p.Data()) }, OnComplete: func() { s.c.end("complete") },
		OnError: func(err error) { s.c.end("error " + err.Error()) }, Finally: func(int) {}}
}

// ---- a foreign guest ----

func (x *tabGuest) announce() {
	b := []byte{0, 'w', 'r', 's', 0, 1, 0, 0, 0, 0}
	all := append(append([]*tabOp(nil), x.exp...), x.imps...)
	r := simrt.NewRand(uint64(x.p.Pos))
	for i := range all {
		j := r.Intn(i + 1)
		all[i], all[j] = all[j], all[i]
	}
	binary.BigEndian.PutUint32(b[6:], uint32(len(all)))
	str := func(s string) { b = append(binary.BigEndian.AppendUint16(b, uint16(len(s))), s...) }
	last := 0
	for _, o := range all {
		last = len(b)
		d := byte(1 + b2i(o.imp))
		b = binary.BigEndian.AppendUint32(append(b, byte(o.Kind+1), d), o.index)
		str(o.Namespace)
		str(o.Name)
		str("")
	}
	pos := x.p.Pos
	dmg := x.p.Damage
	if dmg == dmgLen && len(all) == 0 {
		dmg = dmgCut
	}
	if dmg != dmgNone {
		note(fmt.Sprintf("fault_table_damage_%d", dmg))
	}
	switch dmg {
	case dmgCut:
		if pos%3 == 0 { // within the last entry
			b = b[:last+pos%(len(b)-last)]
		} else {
			b = b[:pos%len(b)]
		}
	case dmgMagic:
		b[pos%4] ^= byte(1 + pos%255)
	case dmgVersion:
		b[4+pos%2] ^= byte(1 + pos%255)
	case dmgCount:
		binary.BigEndian.PutUint32(b[6:], []uint32{uint32(len(all)) + 1, uint32(len(all)) + 256, 0xFFFFFFFF, uint32(len(all)) + 1<<16, uint32(len(all)) | 0x80000000}[pos%5])
	case dmgLen: // the last entry claims more than there is
		at := last + 6
		n := binary.BigEndian.Uint16(b[at:])
		if pos%2 == 0 {
			at += 2 + int(n)
			n = binary.BigEndian.Uint16(b[at:])
		}
		if int(n)+len(b)-at <= 65535 {
			binary.BigEndian.PutUint16(b[at:], n+uint16(len(b)-at))
		} else {
			b = b[:len(b)-1]
		}
	}
	ptr := uint32(0xB000)
	size := (int(ptr) + len(b) + 0x20000) &^ 0xFFFF
	if x.p.Edge {
		ptr = uint32(size - len(b))
	}
	mem := make([]byte, size)
	copy(mem[ptr:], b)
	x.mod.Mem = mem
	if dmg == dmgOut {
		ptr = []uint32{uint32(size-len(b)) + 1, uint32(size), 0xFFFFFFFF, 0x80000000}[pos%4]
	}
	simwz.HostCall(simwz.WildAt+x.k, "__op_list", ptr, uint32(len(b)))
	if x.p.Grow {
		note("foreign_memory_grows")
		x.mod.Mem = append(append([]byte(nil), mem...), make([]byte, 0x10000)...)
	}
	if x.p.Trash || x.p.Grow {
		for i := int(ptr); i >= 0xB000 && i < len(mem); i++ {
			mem[i] = 0xA5
		}
	}
}

func (x *tabGuest) buffers() {
	x.send, x.recv = 0x1000, 0x6000
	simwz.HostCall(simwz.WildAt+x.k, "__init_buffers", x.send, x.recv)
}

func (x *tabGuest) post(f wf) { x.out = append(x.out, f.wire()...) }

func (x *tabGuest) flush() {
	for len(x.out) > 0 {
		b := x.out
		x.out = nil
		if len(b) > 16*1024 {
			harness("the foreign guest has too much to say")
		}
		copy(x.mod.Mem[x.recv:], b)
		simwz.HostCall(simwz.WildAt+x.k, "__send", uint32(len(b)))
	}
}

func (x *tabGuest) deliver(pos uint32) {
	var ps frameParser
	ps.feed(append([]byte(nil), x.mod.Mem[x.send:x.send+pos]...))
	if ps.bad != nil || len(ps.buf) > 0 {
		fail("tab.wire", "the guest was given what is not a sequence of frames | %v, %d bytes left over", ps.bad, len(ps.buf))
	}
	for _, f := range ps.frames {
		x.frame(f)
	}
	// the calls of its own go out with the first delivery
	for _, c := range x.up {
		c.sid = uint32(2*c.id + 1)
		f := wf{T: wRR + c.op.Kind, ID: c.sid, HasMd: true, Md: reqMeta(c.op.index, 0, nil), Data: body(c.id, 'q', 0, c.sz)}
		if c.op.Kind >= 2 {
			f.N = 10
		}
		simrt.Logf("%v is made", c)
		x.post(f)
	}
	x.up = nil
	x.flush()
}

func (x *tabGuest) frame(f wf) {
	switch f.T {
	case wRR, wFNF, wRS, wRC:
		if len(f.Md) < 8 {
			fail("tab.call", "a request came without its operation | module %d: %v", x.k, f)
		}
		index := binary.BigEndian.Uint32(f.Md)
		if len(f.Data) == 0 && f.T == wFNF && string(f.Md[8:]) == "prod" {
			return
		}
		var op *tabOp
		for _, o := range x.exp {
			if o.Kind == f.T-wRR && o.index == index {
				op = o
			}
		}
		if op == nil {
			fail("tab.call", "a call went to an index nobody declared | module %d: %s %d", x.k, kindName[f.T-wRR], index)
		}
		c := x.r.reached(x, op.Op, false, f.Data)
		c.sid = f.ID
		switch f.T {
		case wRR:
			x.post(wf{T: wPayload, ID: f.ID, Flags: wNext | wComplete, Data: c.want()})
		case wRS:
			x.post(wf{T: wPayload, ID: f.ID, Flags: wNext | wComplete, Data: c.want()})
		case wRC:
			x.post(wf{T: wReqN, ID: f.ID, N: 10})
		}
	case wPayload, wError:
		for _, c := range x.r.calls {
			if c.g != x || c.sid != f.ID {
				continue
			}
			if f.T == wError {
				c.end("error " + string(f.Data))
				return
			}
			if c.up {
				if f.Flags&wNext != 0 {
					c.element(f.Data)
				}
				if f.Flags&wComplete != 0 {
					c.end("complete")
				}
			} else if f.Flags&wNext != 0 { // the input of a channel
				x.post(wf{T: wPayload, ID: f.ID, Flags: wNext | wComplete, Data: append([]byte{'!'}, f.Data...)})
			}
			return
		}
	case wReqN:
		for _, c := range x.r.calls {
			if c.g == x && c.sid == f.ID && c.up && c.op.Kind == 3 && c.calls < 100 {
				c.calls += 100 // once
				x.post(wf{T: wPayload, ID: f.ID, Flags: wNext | wComplete, Data: body(c.id, 'i', 0, c.sz)})
			}
		}
	}
}

// ---- the host ----

func (x *tabGuest) start() {
	r := x.r
	ctx := context.Background()
	hi := x.k
	if r.p.One {
		hi = 0
	}
	src := simwz.Source(x.k)
	if x.p.Foreign {
		src = simwz.Source(simwz.WildAt + x.k)
		x.mod = &simwz.Wild{Mem: make([]byte, 0x10000), Exports: map[string]any{
			"__wasmrs_init":            func(a, b, c uint64) { x.buffers() },
			"__wasmrs_send":            func(pos uint64) { x.deliver(uint32(pos)) },
			"__wasmrs_op_list_request": func() { x.announce() },
		}}
	}
	m, err := r.hosts[hi].Compile(ctx, src)
	if err != nil {
		fail("setup", "compiling a good module failed | %v", err)
	}
	inst, err := m.Instantiate(ctx)
	if err != nil {
		if x.damaged() { // may be refused altogether
			return
		}
		fail("wasm.start", "a module could not be instantiated | %v", err)
	}
	x.inst = inst
	x.first = x.check()
	x.link()
}

func (x *tabGuest) damaged() bool { return x.p.Foreign && x.p.Damage != dmgNone }

type tabKey struct {
	k      int
	imp    bool
	ns, op string
}

// check compares what the host knows with what the module declared.
func (x *tabGuest) check() string {
	t := x.inst.Operations()
	if x.damaged() {
		if len(t) > 0 {
			fail("tab.damaged", "operations were listed from a damaged table | module %d: %d of them", x.k, len(t))
		}
		return ""
	}
	want := map[tabKey]*tabOp{}
	for _, l := range [][]*tabOp{x.exp, x.imps} {
		for _, o := range l {
			want[tabKey{o.Kind, o.imp, o.Namespace, o.Name}] = o
		}
	}
	if len(t) != len(want) {
		fail("tab.list", "the host does not know as many operations as the module declared | module %d: %d of %d", x.k, len(t), len(want))
	}
	x.listed = map[*tabOp]uint32{}
	type slot struct {
		k   int
		imp bool
		i   uint32
	}
	slots := map[slot]bool{}
	var text strings.Builder
	for i, o := range t {
		fmt.Fprintf(&text, "%d %d %d %q %q\n", o.Type, o.Direction, o.Index, o.Namespace, o.Operation)
		key := tabKey{int(o.Type) - 1, o.Direction == operations.Import, o.Namespace, o.Operation}
		op := want[key]
		if op == nil || o.Direction != operations.Import && o.Direction != operations.Export {
			fail("tab.list", "the host lists an operation the module did not declare, or lists one twice | module %d, entry %d of %d: %v %v %s %s", x.k, i, len(t), o.Type, o.Direction, clip(o.Namespace), clip(o.Operation))
		}
		delete(want, key)
		if op.known && op.index != o.Index {
			fail("tab.index", "the host lists an operation under another index than its module | module %d: %v: %d, not %d", x.k, op, o.Index, op.index)
		}
		s := slot{key.k, key.imp, o.Index}
		if slots[s] {
			fail("tab.index", "two operations are listed under one index | module %d: %v", x.k, op)
		}
		slots[s] = true
		x.listed[op] = o.Index
	}
	return text.String()
}

// link gives every import the handler its name says.
func (x *tabGuest) link() {
	r := x.r
	for _, op := range x.imps {
		op := op.Op
		i, ok := x.listed[x.find(op)]
		if !ok {
			continue
		}
		switch op.Kind {
		case 0:
			x.inst.SetRequestResponseHandler(i, func(ctx context.Context, p pl) mono.Mono[pl] {
				c := r.reached(x, op, true, p.Data())
				return mono.Just[pl](payload.New(c.want()))
			})
		case 1:
			x.inst.SetFireAndForgetHandler(i, func(ctx context.Context, p pl) { r.reached(x, op, true, p.Data()) })
		case 2:
			x.inst.SetRequestStreamHandler(i, func(ctx context.Context, p pl) flux.Flux[pl] {
				c := r.reached(x, op, true, p.Data())
				return flux.FromSlice([]pl{payload.New(c.want())})
			})
		default:
			x.inst.SetRequestChannelHandler(i, func(ctx context.Context, p pl, in flux.Flux[pl]) flux.Flux[pl] {
				r.reached(x, op, true, p.Data())
				return flux.Map(in, func(p pl) (pl, error) { return payload.New(append([]byte{'!'}, p.Data()...)), nil })
			})
		}
	}
}

func (x *tabGuest) find(op gspec.Op) *tabOp {
	for _, o := range x.imps {
		if o.Op == op {
			return o
		}
	}
	return nil
}

// nth prefers the last ones.
func nth(l []*tabOp, i int) *tabOp {
	if i%3 == 0 {
		return l[len(l)-1-i/3%min(len(l), 8)]
	}
	return l[i%len(l)]
}

// make makes a call of an export.
func (c *tabCall) make() {
	x := c.g
	ctx := context.Background()
	p := payload.New(body(c.id, 'q', 0, c.sz), reqMeta(x.listed[c.op], 0, nil))
	simrt.Logf("%v is made", c)
	sub := flux.Subscribe[pl]{OnNext: func(p pl) { c.element(p.Data()) }, OnComplete: func() { c.end("complete") }, OnError: func(err error) { c.end("error " + err.Error()) }, Finally: func(rx.SignalType) {}}
	switch c.op.Kind {
	case 0:
		x.inst.RequestResponse(ctx, p).Subscribe(mono.Subscribe[pl]{OnSuccess: func(p pl) { c.element(p.Data()); c.end("complete") }, OnError: func(err error) { c.end("error " + err.Error()) }})
	case 1:
		x.inst.FireAndForget(ctx, p)
	case 2:
		x.inst.RequestStream(ctx, p).Subscribe(sub)
	default:
		x.inst.RequestChannel(ctx, p, flux.FromSlice([]pl{payload.New(body(c.id, 'i', 0, c.sz))})).Subscribe(sub)
	}
}

func runTab(plan any) {
	p := plan.(*TabPlan)
	r := &tabRig{p: p}
	keptBytes = nil
	for k := range p.Guests {
		x := &tabGuest{r: r, k: k, p: &p.Guests[k]}
		seen := map[tabKey]bool{}
		type slot struct {
			k   int
			imp bool
			i   uint32
		}
		slots := map[slot]bool{}
		for _, e := range x.p.Entries {
			o := &tabOp{Op: gspec.Op{Kind: e.K, Namespace: e.Ns.text(), Name: e.Op.text()}, imp: e.Imp}
			key := tabKey{e.K, e.Imp, o.Namespace, o.Name}
			s := slot{e.K, e.Imp, e.Index}
			if seen[key] || x.p.Foreign && slots[s] {
				continue
			}
			seen[key], slots[s] = true, true
			if x.p.Foreign {
				o.index, o.known = e.Index, true
			}
			if o.imp {
				x.imps = append(x.imps, o)
			} else {
				x.exp = append(x.exp, o)
			}
		}
		simrt.StatN("operations_declared", int64(len(x.exp)+len(x.imps)))
		r.guests = append(r.guests, x)
	}
	for k := range r.guests {
		if k > 0 && p.One {
			break
		}
		h, err := host.New(context.Background())
		if err != nil {
			fail("setup", "host.New failed | %v", err)
		}
		r.hosts = append(r.hosts, h)
	}
	simwz.StartGuest = func(k int) { guestMains[k](r.guests[k]) }
	simwz.Wilds = func(k int) *simwz.Wild { return r.guests[k-simwz.WildAt].mod }
	up := 0
	for _, x := range r.guests {
		x := x
		simrt.GoNamed(fmt.Sprintf("module %d", x.k), func() {
			simrt.TimeSleep(ms(x.p.At))
			x.start()
			up++
		})
	}
	simrt.WaitQuiescent()
	if up != len(r.guests) {
		fail("wasm.start", "a module could not be instantiated | %d of %d are up", up, len(r.guests))
	}
	for _, pc := range p.Calls {
		x := r.guests[pc.G]
		if x.damaged() {
			continue
		}
		nontrivial()
		if x.p.Foreign && pc.Up {
			if len(x.imps) > 0 {
				c := r.newCall(x, nth(x.imps, pc.E), pc.Sz)
				c.up = true
				x.up = append(x.up, c)
			}
			continue
		}
		if len(x.exp) == 0 {
			continue
		}
		c := r.newCall(x, nth(x.exp, pc.E), pc.Sz)
		if !x.p.Foreign && pc.Kid >= 0 && len(x.imps) > 0 {
			c.kid = nth(x.imps, pc.Kid)
		}
		at := pc.At
		simrt.GoNamed(fmt.Sprintf("caller %d", c.id), func() {
			simrt.TimeSleep(ms(at))
			c.make()
		})
	}
	for _, x := range r.guests {
		if len(x.up) > 0 {
			x := x
			simrt.GoNamed("prod", func() { x.inst.FireAndForget(context.Background(), payload.New(nil, reqMeta(99, 0, []byte("prod")))) })
		}
	}
	simrt.WaitQuiescent()
	for _, c := range r.calls {
		simrt.Stat(fmt.Sprintf("calls_by_listed_index_%s", kindCls[c.op.Kind]))
		if c.calls%100 != 1 {
			fail("tab.lost", "a call by a listed index never reached its operation | %v", c)
		}
		if c.op.Kind != 1 && c.ended == "" {
			fail("tab.answer", "a call never ended | %v", c)
		}
	}
	for _, x := range r.guests {
		if x.inst == nil {
			continue
		}
		if t := x.check(); t != x.first {
			fail("tab.changed", "what the host knows of a module changed later | module %d", x.k)
		}
	}
	if o := simwz.Concurrent(); len(o) > 0 {
		fail("wasm.concurrent", "two threads were inside one guest at the same time | %v", o)
	}
	if o := simwz.OutOfBounds(); len(o) > 0 {
		fail("wasm.oob", "the host used memory the guest did not give it | %v", o)
	}
	if o := simwz.Traps(); len(o) > 0 {
		fail("tab.trap", "a guest trapped | %v", o)
	}
}

var famTab = &Family{Name: "tables", Gen: genTab, New: func() any { return &TabPlan{} }, Run: runTab, Tidy: tidyTab}

func init() {
	register(&Check{ID: "C37", Variants: []Variant{{F: famTab, Prof: "mix", Weight: 1, Steps: 3000000}}, Accept: []string{"tab.", "wasm."}, Real: realWZ, Stubs: stubWZ + "; foreign guests are written by the harness, with tables encoded independently",
		Rule: "A run instantiates one to four modules at once, in one host or their own: real guests that declare 0 to 500 exports and imports with short, alike, empty, non-ASCII, binary and up to 65535 bytes long names, and foreign guests whose tables are encoded by the harness with sparse and large indexes, at the edge of their memory, or damaged (cut anywhere, wrong magic, version, count or length, beyond the memory), and which overwrite and grow their memory afterwards. The host must list exactly what each module declared, under distinct indexes, nothing from a damaged table, and the same later; then calls go in both directions by the listed indexes, and each must reach, once, the operation of its name, kind and module, and bring back its answer."})
}

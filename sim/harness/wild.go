//go:build go1.22

package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"runtime"

	"github.com/nanobus/iota/go/internal/verifsim/simrt"
	"github.com/nanobus/iota/go/internal/verifsim/simwz"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/tetratelabs/wazero/sys"
)

// A wild guest: a module whose memory, exports and behaviour the plan decides, next to well-behaved guests.

const (
	wildMem  = 0x30000
	wildSend = 0x1000 // where the host writes
	wildRecv = 0x8000
	wildList = 0x10000
)

const (
	initGood = iota
	initBadSend
	initBadRecv
	initNone
	initOverlap
	initTrap
	initExit
	initEdge // the buffers stick out of the memory
	initTwice
	initEarly // sends frames before it has told where its buffers are
	initKinds
)

const (
	listGood = iota
	listMagic
	listVersion
	listCut
	listCount
	listLen
	listPtr
	listNone
	listTrap
	listMutate
	listIndex
	listEmpty
	listReserved
	listTypes
	listExit
	listTwice
	listKinds
)

const (
	actTrap = iota
	actExit
	actSeg  // frames the protocol does not foresee
	actInit // other buffers
	actList // another operation table
	actPos  // __send with any position
	actKinds
)

const (
	missInit  = 1
	missSend  = 2
	missList  = 4
	arityInit = 8
	aritySend = 16
	arityList = 32
)

// WildAct is what a wild guest does in one delivery, or in every one.
type WildAct struct {
	On    int // -1: every
	K     int
	After bool // after its answers
	Mode  int
	Seg   HostSeg
}

type WildPlan struct {
	WPlan
	NoMem bool
	Miss  int
	Init  int
	List  int
	Pos   int
	Val   int
	Reply int  // 0 answers, 1 never, 2 every other request
	Alone bool // each answer in a __send of its own
	Acts  []WildAct
	Calls []HostOp
	Close int // ms; 0: at the end
	Retry int // requests made where a call is told that it failed
}

func genWild(r *simrt.Rand, prof string, thorough bool) any {
	p := &WildPlan{WPlan: WPlan{Guests: 1}}
	for n := r.Intn(4); n >= 0; n-- {
		o := genWOp(r, 1, [4]int{4, 2, 3, 3})
		o.Req, o.Sz, o.Md = o.Req%1000, o.Sz%1000, o.Md%500
		p.Ops = append(p.Ops, o)
	}
	p.Pos, p.Val = r.Intn(400), r.Intn(1<<16)
	odd := 0.25
	if prof == "load" {
		odd = 0.8
	}
	if r.Bool(odd) {
		p.Init = r.Intn(initKinds)
	}
	if r.Bool(odd) {
		p.List = r.Intn(listKinds)
	}
	if prof == "load" && r.Bool(0.25) {
		p.Miss = 1 << r.Intn(6)
	}
	p.Share = r.Bool(0.5)
	p.NoMem = prof == "load" && r.Bool(0.1)
	p.Reply = r.Pick(6, 1, 1)
	p.Alone = r.Bool(0.4)
	for n := 1 + r.Intn(7); n > 0; n-- {
		o := HostOp{K: r.Pick(4, 1, 4, 4), Via: r.Intn(4), Req: r.Intn(300), In: r.Intn(6), Grant: r.Intn(4)}
		if r.Bool(0.4) {
			o.Delay = r.Intn(10)
		}
		if r.Bool(0.1) {
			o.Cancel = 1 + r.Intn(3)
		}
		if r.Bool(0.1) {
			o.Req = 5000 + r.Intn(9000)
		}
		p.Calls = append(p.Calls, o)
	}
	if prof != "load" || r.Bool(0.3) {
		for n := 1 + r.Pick(4, 3, 2, 1); n > 0; n-- {
			a := WildAct{On: r.Intn(4), K: r.Pick(3, 1, 8, 1, 1, 2), After: r.Bool(0.5), Mode: r.Intn(64), Seg: genSeg(r)}
			if r.Bool(0.2) && a.K != actExit {
				a.On = -1
			}
			a.Seg.OnReq = r.Bool(0.7)
			if a.Seg.OnReq && r.Bool(0.6) {
				a.Seg.K = sFrame
				a.Seg.T = pick(r, wPayload, wPayload, wPayload, wError, wReqN, wCancel, wRR, wRC)
			}
			p.Acts = append(p.Acts, a)
		}
	}
	if r.Bool(0.04) { // many at once
		for n := 100 + r.Intn(150); n > 0; n-- {
			p.Calls = append(p.Calls, HostOp{K: 0, Via: 2, Delay: p.Calls[0].Delay})
		}
		if r.Bool(0.5) {
			p.Acts = append(p.Acts, WildAct{On: pick(r, -1, 0, 1), K: actTrap, Mode: r.Intn(64)})
		}
		p.Retry = 1 + r.Intn(2)
	} else if r.Bool(0.1) {
		p.Retry = 1
	}
	if r.Bool(0.2) {
		p.Close = 1 + r.Intn(12)
	}
	return p
}

func tidyWild(x any) {
	p := x.(*WildPlan)
	tidyWZ(&p.WPlan)
	clamp(&p.Init, 0, initKinds-1)
	clamp(&p.List, 0, listKinds-1)
	clamp(&p.Miss, 0, 63)
	clamp(&p.Reply, 0, 2)
	clamp(&p.Pos, 0, 1<<20)
	clamp(&p.Val, 0, 1<<20)
	clamp(&p.Close, 0, 10000)
	clamp(&p.Retry, 0, 3)
	if len(p.Calls) > 250 {
		p.Calls = p.Calls[:250]
	}
	for i := range p.Acts {
		a := &p.Acts[i]
		clamp(&a.On, -1, 100)
		clamp(&a.K, 0, actKinds-1)
		clamp(&a.Mode, 0, 1000)
		s := []HostSeg{a.Seg}
		tidySegs(s)
		a.Seg = s[0]
		clamp(&a.Seg.Sz, 0, 3000)
		clamp(&a.Seg.Md, 0, 3000)
		if a.Seg.K == sBurst {
			clamp(&a.Seg.Sz, 0, 300)
			clamp(&a.Seg.Md, 0, 300)
		}
	}
	for i := range p.Calls {
		clamp(&p.Calls[i].K, 0, 3)
		clamp(&p.Calls[i].Grant, 0, 1000)
	}
}

type wildRig struct {
	p     *WildPlan
	g     *wzRig
	inst  *host.Instance
	v     *victims
	calls []*wildCall

	mem        []byte
	send, recv uint32 // as last told to the host
	count      int    // deliveries
	half       int
	lastReq    uint32
	spent      int // frames of its own the guest has sent
	exited     bool
	closed     bool
	broke      bool // NewInstance must refuse it
	byID       map[uint32]*wildCall
	table      operations.Table
	lists      int // odd: the guest is telling the host its operations
}

type wildCall struct {
	hostCall
	issued, seen, must bool
}

const wildK = simwz.WildAt

func (x *wildRig) hostCall(name string, args ...any) { simwz.HostCall(wildK, name, args...) }

func (x *wildRig) buffers(mode int) {
	s, r := uint32(wildSend), uint32(wildRecv)
	switch mode {
	case initBadSend:
		s = []uint32{0xFFFFFF00, wildMem, 0x7FFFFFFF, wildMem - 16*1024 + 1}[x.p.Val%4]
	case initBadRecv:
		r = []uint32{0xFFFFFF00, wildMem, 0x7FFFFFFF, wildMem - 16*1024 + 1}[x.p.Val%4]
	case initOverlap:
		r = s + uint32(x.p.Val%16384)
	case initEdge:
		s, r = wildMem-uint32(x.p.Pos), wildMem-uint32(x.p.Pos)
	}
	if mode != initGood {
		note("fault_wild_buffers")
	}
	x.send, x.recv = s, r
	x.hostCall("__init_buffers", s, r)
}

func (x *wildRig) init() {
	switch x.p.Init {
	case initTrap:
		note("fault_wild_start_trap")
		panic("unreachable")
	case initExit:
		note("fault_wild_start_trap")
		panic(sys.NewExitError("wild", 1))
	case initNone:
		x.send, x.recv = 0, 0
	case initTwice:
		x.buffers(initBadSend)
		x.buffers(initGood)
	case initEarly:
		x.emit(wf{T: wRR, ID: 1, HasMd: true, Md: reqMeta(1, 0, nil), Data: []byte{0}}.wire())
		x.buffers(initGood)
		x.emit(wf{T: wRS, ID: 3, HasMd: true, Md: reqMeta(1, 0, nil), Data: []byte{43}, N: 5}.wire())
	default:
		x.buffers(x.p.Init)
	}
}

// oplist tells the host the operation table.
func (x *wildRig) oplist(mode int) {
	x.lists++
	defer func() { x.lists++ }()
	idx := func(i int) uint32 {
		if mode == listIndex {
			return []uint32{0xFFFFFFFF, 1 << 22, 0x80000000 >> 8, 5000, uint32(x.p.Val)}[(x.p.Val+i)%5]
		}
		return uint32(i)
	}
	var t operations.Table
	for k := 0; k < 4; k++ {
		t = append(t, operations.Operation{Type: operations.RequestType(k + 1), Direction: operations.Import, Namespace: "victim", Operation: "a", Index: idx(k)})
	}
	for k := 0; k < 4; k++ {
		t = append(t, operations.Operation{Type: operations.RequestType(k + 1), Direction: operations.Export, Namespace: "wild", Operation: "w", Index: idx(k)})
	}
	b := listBytes(t)
	if mode != listGood && mode != listTwice {
		note("fault_wild_table")
	}
	size, ptr := uint32(0), uint32(wildList)
	x.table = nil
	switch mode {
	case listGood, listTwice:
		x.table = t
	case listMagic:
		b[x.p.Pos%4] ^= byte(1 + x.p.Val%255)
	case listVersion:
		b[4+x.p.Pos%2] ^= byte(1 + x.p.Val%255)
	case listCut:
		b = b[:x.p.Pos%len(b)]
	case listCount:
		binary.BigEndian.PutUint32(b[6:], []uint32{9, 1000, 1 << 16, 1 << 22, 1 << 21}[x.p.Val%5])
	case listLen:
		off := 10
		for n := x.p.Pos % len(t); n > 0; n-- {
			off += 12 + int(binary.BigEndian.Uint16(b[off+6:]))
			off += int(binary.BigEndian.Uint16(b[off-4:]))
		}
		binary.BigEndian.PutUint16(b[off+6:], uint16(x.p.Val))
	case listPtr:
		ptr = []uint32{0xFFFFFF00, wildMem, wildMem - 20, 0x80000000}[x.p.Val%4]
	case listNone:
		return
	case listTrap:
		panic("unreachable")
	case listExit:
		panic(sys.NewExitError("wild", 1))
	case listMutate:
		b[x.p.Pos%len(b)] ^= byte(1 + x.p.Val%255)
	case listEmpty:
		b = nil
	case listReserved:
		binary.BigEndian.PutUint16(b[len(b)-2:], uint16(1+x.p.Val%65535))
	case listTypes:
		b[10+x.p.Val%2] = byte(x.p.Pos)
	}
	size = uint32(len(b))
	if x.mem != nil {
		copy(x.mem[wildList:], b)
	}
	x.hostCall("__op_list", ptr, size)
	if mode == listTwice {
		x.hostCall("__op_list", ptr, size)
	}
}

func listBytes(t operations.Table) []byte {
	b := append([]byte{0, 'w', 'r', 's', 0, 1}, 0, 0, 0, byte(len(t)))
	str := func(s string) { b = append(append(b, byte(len(s)>>8), byte(len(s))), s...) }
	for _, o := range t {
		b = append(b, byte(o.Type), byte(o.Direction), byte(o.Index>>24), byte(o.Index>>16), byte(o.Index>>8), byte(o.Index))
		str(o.Namespace)
		str(o.Operation)
		b = append(b, 0, 0)
	}
	return b
}

// emit sends bytes to the host.
func (x *wildRig) emit(b []byte) {
	n := min(len(b), 16*1024)
	if uint64(x.recv)+uint64(n) <= uint64(len(x.mem)) {
		copy(x.mem[x.recv:], b[:n])
	}
	x.hostCall("__send", uint32(n))
}

func (x *wildRig) act(d int, after bool) {
	for k, a := range x.p.Acts {
		if (a.On >= 0 && a.On != d) || a.After != after || d > 12 || x.spent > 250 { // not for ever: the host's answers are deliveries too
			continue
		}
		switch a.K {
		case actTrap:
			note("fault_wild_trap")
			panic("unreachable")
		case actExit:
			note("fault_wild_exit")
			panic(sys.NewExitError("wild", uint32(a.Mode%2)))
		case actSeg:
			note(fmt.Sprintf("fault_wild_frame_%d", a.Seg.K))
			id := uint32(a.Seg.ID)
			if a.Seg.OnReq {
				id = x.lastReq
			}
			b := a.Seg.bytes(k, id)
			var ps frameParser
			ps.feed(append([]byte(nil), b...))
			x.spent += len(ps.frames) // each of them may be a request
			x.emit(b)
		case actInit:
			x.buffers(a.Mode % initKinds)
		case actList:
			x.oplist(a.Mode % listKinds)
		case actPos:
			note("fault_wild_position")
			x.spent += 50
			for i := 0; i < 64 && uint64(x.recv)+64 < uint64(len(x.mem)); i++ {
				x.mem[int(x.recv)+i] = byte(a.Seg.Pos*i + a.Seg.Val)
			}
			x.hostCall("__send", []uint32{0, 1, 2, 3, 4, 8, 9, 16384, 16385, 1 << 20, 0xFFFFFFFF, 0x80000000}[a.Mode%12])
		}
	}
}

// deliver is __wasmrs_send.
func (x *wildRig) deliver(pos uint32) {
	d := x.count
	x.count++
	note("wild_deliveries")
	if pos > 16*1024 || uint64(x.send)+uint64(pos) > uint64(len(x.mem)) {
		fail("wild.delivery", "the host announces frames it cannot have written | position %d, buffer at %#x", pos, x.send)
	}
	var ps frameParser
	ps.feed(append([]byte(nil), x.mem[x.send:x.send+pos]...))
	if (ps.bad != nil || len(ps.buf) > 0) && x.send+16*1024 <= wildMem {
		fail("wild.delivery", "the host delivered what is not a sequence of frames | %v, %d bytes left over", ps.bad, len(ps.buf))
	}
	whole := false
	defer func() {
		if whole || simrt.Aborting() {
			return
		}
		for _, f := range ps.frames { // the delivery failed: what was in it cannot be answered any more
			if c := x.byID[f.ID]; c != nil && f.T != wCancel {
				c.must = true
				simrt.Logf("call %d was in a delivery that failed", c.i)
			}
		}
	}()
	for _, f := range ps.frames {
		simrt.Logf("the wild guest gets %s", wName[f.T])
		if f.T > wRC {
			continue
		}
		x.lastReq = f.ID
		if len(f.Data) > 0 && int(f.Data[0]) < len(x.calls) && f.ID&1 == 0 {
			c := x.calls[f.Data[0]]
			c.seen = true
			x.byID[f.ID] = c
		}
	}
	x.act(d, false)
	var out []byte
	answer := func(f wf) {
		b := f.wire()
		if x.p.Alone || len(out)+len(b) > 16*1024 {
			if len(out) > 0 {
				x.emit(out)
			}
			out = nil
		}
		out = append(out, b...)
	}
	for _, f := range ps.frames {
		if f.T > wRC {
			continue
		}
		x.half++
		if x.p.Reply == 1 || (x.p.Reply == 2 && x.half%2 == 0) {
			continue
		}
		switch f.T {
		case wRR:
			answer(wf{T: wPayload, ID: f.ID, Flags: wNext | wComplete, Data: f.Data})
		case wRS, wRC:
			for i := 0; i < x.p.Val%5; i++ {
				answer(wf{T: wPayload, ID: f.ID, Flags: wNext, Data: []byte{byte(i)}})
			}
			if x.p.Val%3 > 0 {
				answer(wf{T: wPayload, ID: f.ID, Flags: wComplete})
			}
			if f.T == wRC {
				answer(wf{T: wReqN, ID: f.ID, N: uint32(x.p.Val % 4)})
			}
		}
	}
	if len(out) > 0 {
		x.emit(out)
	}
	x.act(d, true)
	whole = true
}

func (x *wildRig) module() *simwz.Wild {
	guard := func(f func()) { // notes the end of the module
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(*sys.ExitError); ok {
					x.exited = true
				}
				panic(r)
			}
		}()
		f()
	}
	w := &simwz.Wild{Mem: x.mem, Exports: map[string]any{}}
	miss := x.p.Miss
	if miss&missInit == 0 {
		w.Exports["__wasmrs_init"] = func(a, b, c uint64) { guard(x.init) }
	}
	if miss&missSend == 0 {
		w.Exports["__wasmrs_send"] = func(pos uint64) { guard(func() { x.deliver(uint32(pos)) }) }
	}
	if miss&missList == 0 {
		w.Exports["__wasmrs_op_list_request"] = func() { guard(func() { x.oplist(x.p.List) }) }
	}
	if miss&arityInit != 0 {
		w.Exports["__wasmrs_init"] = func() {}
	}
	if miss&aritySend != 0 {
		w.Exports["__wasmrs_send"] = func(a, b uint64) {}
	}
	if miss&arityList != 0 {
		w.Exports["__wasmrs_op_list_request"] = func(a uint64) {}
	}
	x.broke = miss&^aritySend != 0 || x.p.Init == initTrap || x.p.Init == initExit || x.p.List == listTrap || x.p.List == listExit
	return w
}

// load instantiates the wild module.
func (x *wildRig) load() {
	simwz.Wilds = func(int) *simwz.Wild { return x.module() }
	ctx := context.Background()
	m, err := x.g.host().Compile(ctx, simwz.Source(wildK))
	if err != nil {
		harness("compile: %v", err)
	}
	inst, err := m.Instantiate(ctx)
	simrt.Logf("the wild module: %v", err)
	if err != nil {
		note("wild_modules_refused")
		return
	}
	if x.broke {
		fail("wild.accepted", "a module that cannot work was instantiated | missing %#x, init %d, list %d", x.p.Miss, x.p.Init, x.p.List)
	}
	note("wild_modules_running")
	x.inst = inst
	n, want := x.lists, x.table
	t := inst.Operations()
	if n%2 == 0 && n == x.lists && want != nil && fmt.Sprint(t) != fmt.Sprint(want) { // no list under way
		fail("ops.table", "the host's operation table does not list what the guest registered | %v", t)
	}
	set := func(kind operations.RequestType, at uint32) {
		switch kind {
		case operations.RequestResponse:
			inst.SetRequestResponseHandler(at, func(ctx context.Context, p pl) mono.Mono[pl] { return x.v.rr(ctx, p) })
		case operations.FireAndForget:
			inst.SetFireAndForgetHandler(at, func(ctx context.Context, p pl) { x.v.fnf(ctx, p) })
		case operations.RequestStream:
			inst.SetRequestStreamHandler(at, func(ctx context.Context, p pl) flux.Flux[pl] { return x.v.rs(ctx, p) })
		case operations.RequestChannel:
			inst.SetRequestChannelHandler(at, func(ctx context.Context, p pl, in flux.Flux[pl]) flux.Flux[pl] { return x.v.rc(ctx, p, in) })
		}
	}
	for _, op := range t { // what a host does with an operation table
		if op.Direction == operations.Import {
			set(op.Type, op.Index)
		}
	}
	for k := uint32(0); k < 4; k++ {
		set(operations.RequestType(k+1), k)
	}
}

func (x *wildRig) issue(c *wildCall) {
	c.issued = true
	c.run(x.inst)
}

// check judges the calls on the wild guest while its instance is open.
func (x *wildRig) check() {
	for _, c := range x.calls {
		if !c.issued || c.o.K == 1 || c.canc || len(c.terms) > 0 {
			continue
		}
		what := fmt.Sprintf("%s %d", kindName[c.o.K], c.i)
		if x.closed {
			fail("wild.closed", "the instance of a broken guest was closed but a call on it never ended | %s", what)
		}
		if !c.seen {
			fail("wild.undelivered", "a call was neither delivered to the guest nor ended | %s", what)
		}
		if x.exited {
			fail("wild.exited", "the guest's module has exited but a call on it never ended | %s", what)
		}
		if c.must {
			fail("wild.trapped", "the guest trapped while it was given a request but the call never ended | %s", what)
		}
	}
}

func runWild(plan any) {
	p := plan.(*WildPlan)
	g := &wzRig{p: &p.WPlan}
	wz = g
	x := &wildRig{p: p, g: g, v: &victims{}, byID: map[uint32]*wildCall{}}
	if !p.NoMem {
		x.mem = make([]byte, wildMem)
	}
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	g.states()
	g.setup()
	for i := range p.Calls {
		c := &wildCall{hostCall: hostCall{i: i, o: &p.Calls[i]}}
		c.after = func(err error) {
			for k := 0; k < p.Retry && err != nil; k++ {
				x.inst.FireAndForget(context.Background(), payload.New(nil, reqMeta(1, 0, nil)))
			}
		}
		x.calls = append(x.calls, c)
	}
	x.load()
	if x.inst != nil {
		for _, c := range x.calls {
			c := c
			simrt.GoNamed(fmt.Sprintf("call %d", c.i), func() {
				simrt.TimeSleep(ms(c.o.Delay))
				x.issue(c)
			})
		}
		if p.Close > 0 {
			simrt.GoNamed("close", func() {
				simrt.TimeSleep(ms(p.Close))
				x.inst.Close()
				x.closed = true
			})
		}
	}
	nontrivial()
	g.callers()
	simrt.WaitQuiescent()
	for {
		any1 := false
		for _, st := range g.ops {
			for _, l := range []*link{st.out, st.in} {
				if l != nil {
					l.stallCheck()
				}
			}
		}
		for _, st := range g.ops {
			for _, l := range []*link{st.out, st.in} {
				if l != nil && l.resume() {
					any1 = true
				}
			}
		}
		if !any1 {
			break
		}
		simrt.WaitQuiescent()
	}
	g.health()
	for _, st := range g.ops {
		g.judge(st)
	}
	if x.inst != nil {
		x.check()
		// the instance still takes requests
		c := &wildCall{hostCall: hostCall{i: len(x.calls), o: &HostOp{}}}
		x.calls = append(x.calls, c)
		simrt.GoNamed("probe", func() { x.issue(c) })
		simrt.WaitQuiescent()
		x.check()
		simrt.GoNamed("close at the end", func() {
			x.inst.Close()
			x.closed = true
		})
		simrt.WaitQuiescent()
		if !x.closed {
			fail("wild.close", "closing the instance of a broken guest never returned")
		}
		x.check()
	}
	checkKept()
	runtime.ReadMemStats(&after)
	if d := after.TotalAlloc - before.TotalAlloc; d > 64<<20 {
		fail("wild.memory", "a guest's operation table or frames made the host allocate more than its memory could describe | %d MiB", d>>20)
	}
}

var famWild = &Family{Name: "wildguest", Gen: genWild, New: func() any { return &WildPlan{} }, Run: runWild, Tidy: tidyWild}

func init() {
	v := func(prof string, w int) Variant { return Variant{F: famWild, Prof: prof, Weight: w, Steps: 1500000} }
	register(&Check{ID: "C35", Variants: []Variant{v("load", 2), v("frames", 3), {F: famFor, Prof: "foreign", Weight: 1, Steps: 600000}},
		Accept: []string{"wild.", "host.", "rr.", "rs.", "rc.", "fnf.", "err.", "dem.", "can.", "wasm.", "own.", "ops.", "wire."}, Real: realWZ, Stubs: stubWZ + "; the wild guest is written by the harness, its linear memory is raw bytes with wazero's bounds checks",
		Rule: "A run instantiates a well-behaved guest and a wild one, whose exports may be missing or trap, whose buffer addresses may lie anywhere, whose operation table may be cut, mutated or absurd, and which answers deliveries with well-formed, malformed, mutated and protocol-violating frames, requests of its own, new buffers, other tables, any position, traps and exits, while the host makes calls on both; the host may not panic, hang, touch memory outside the guest or allocate without bound, calls on the well-behaved guest must go as specified, and a call on the wild one must be delivered or end, end when its delivery failed or the module exited, end at most once, and have ended once the instance is closed."})
}

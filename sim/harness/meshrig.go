//go:build go1.22

package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/nanobus/iota/go/internal/verifsim/gspec"
	"github.com/nanobus/iota/go/internal/verifsim/simrt"
	"github.com/nanobus/iota/go/internal/verifsim/simwz"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh"
)

// MLoad loads (or reloads) a module; loads of one module run one after the other.
type MLoad struct {
	M    int
	At   int
	Fail int // 1: the file cannot be read, 2: it is not a module, 3: the module crashes when it starts
}

// MMod is what a module declares, besides what its calls need: a bit per kind, and per module and kind.
type MMod struct {
	Exp, Imp, Nobody, Extra int
}

// MPlan is a run over a mesh of guests. Ops: G is the exporting module, By < 0: the host calls through the mesh.
// Ops with T >= late are made when everything else has ended.
type MPlan struct {
	Mods    int
	Sparse  []MMod // what each module declares; all of it if empty
	Loads   []MLoad
	Ops     []WOp
	CloseAt int // 0 never
	Batch   bool
}

const late = 100

const grace = int64(5 * time.Second)

type meshCopy struct {
	wzGuest
	r        *meshRig
	load     *MLoad
	m, v     int
	imps     [8][4]uint32
	begun    int64 // events
	loaded   int64
	begunT   int64
	replaced int64 // time at which the next load began; 0 never
	by       *meshCopy
	dead     bool // its load failed
}

type meshRig struct {
	wzRig
	p      *MPlan
	m      *mesh.Mesh
	copies []*meshCopy
	byMod  [][]*meshCopy
	served []*meshCopy // per op
	from   []*meshCopy
	closed int64 // time of Mesh.Close
}

func modNS(m int) string { return fmt.Sprintf("m%d", m) }

func (x *meshCopy) declares() MMod {
	if x.m < len(x.r.p.Sparse) {
		return x.r.p.Sparse[x.m]
	}
	return MMod{-1, -1, -1, -1}
}

func (x *meshCopy) Exports() []gspec.Op {
	d := x.declares()
	var l []gspec.Op
	if d.Extra&1 != 0 {
		for i := 0; i < x.k%3; i++ {
			for k := 0; k < 4; k++ {
				l = append(l, gspec.Op{Kind: k, Namespace: modNS(x.m), Name: fmt.Sprintf("decoy%d", i)})
			}
		}
	}
	for k := 0; k < 4; k++ {
		if d.Exp>>k&1 != 0 {
			l = append(l, gspec.Op{Kind: k, Namespace: modNS(x.m), Name: "op"})
		}
	}
	if d.Extra&2 != 0 {
		l = append(l, gspec.Op{Kind: x.k % 4, Namespace: modNS(x.m), Name: "last"})
	}
	return l
}

func (x *meshCopy) Imports() []gspec.Op {
	d := x.declares()
	var l []gspec.Op
	for k := 0; k < 4; k++ {
		for m := 0; m < x.r.p.Mods; m++ {
			o := gspec.Op{Kind: (k + x.k) % 4, Namespace: modNS((m + x.k) % x.r.p.Mods), Name: "op"}
			if d.Imp>>((m+x.k)%x.r.p.Mods*4+o.Kind)&1 != 0 {
				l = append(l, o)
			}
		}
		if d.Nobody>>k&1 != 0 {
			l = append(l, gspec.Op{Kind: k, Namespace: "nobody", Name: "op"})
		}
	}
	return l
}

func (x *meshCopy) Imported(op gspec.Op, index uint32) {
	m := 7
	if op.Namespace != "nobody" {
		m = int(op.Namespace[1] - '0')
	}
	x.imps[m][op.Kind] = index
}

func (x *meshCopy) Serve(op gspec.Op, p gspec.Payload) *gspec.Served {
	if op.Name != "op" {
		fail("mesh.route", "a request reached an operation it did not name | module %d, %s", x.m, op.Name)
	}
	st := x.r.opOf(nil, p, op.Kind, &x.wzGuest, false)
	for _, k := range st.kids {
		x.r.from[k.id] = x
	}
	return st.serve(func(k *wzOp) *gspec.Call {
		m := k.w.G
		if k.op.Bad != 0 {
			m = 7
		}
		c := k.call(0, x.k)
		c.Index = x.imps[m][k.op.K]
		return c
	})
}

// arrived checks that the request reached a current instance of its module.
func (g *meshRig) arrived(st *wzOp, w *wzGuest) {
	x := g.copies[w.k]
	g.served[st.id] = x
	simrt.Logf("op %d arrived at module %d version %d (copy %d)", st.id, x.m, x.v, x.k)
	if st.op.Bad != 0 || st.w.G != x.m {
		fail("mesh.route", "a call reached another module than the one that exports its operation | op %d for module %d reached module %d", st.id, st.w.G, x.m)
	}
	for _, y := range g.byMod[x.m] {
		if y.v > x.v && y.loaded != 0 && y.loaded < st.issuedAt {
			fail("mesh.stale", "a call made after a reload reached the old instance | op %d reached version %d of module %d, version %d had been loaded", st.id, x.v, x.m, y.v)
		}
	}
	if x.v > 0 {
		simrt.Stat("calls_served_by_reloaded_module")
	}
}

type meshCaller struct {
	invoke.Caller
	m  *mesh.Mesh
	ns string
}

func (c meshCaller) RequestResponse(ctx context.Context, p pl) mono.Mono[pl] {
	return c.m.RequestResponse(ctx, c.ns, "op", p)
}
func (c meshCaller) FireAndForget(ctx context.Context, p pl) {
	c.m.FireAndForget(ctx, c.ns, "op", p)
}
func (c meshCaller) RequestStream(ctx context.Context, p pl) flux.Flux[pl] {
	return c.m.RequestStream(ctx, c.ns, "op", p)
}
func (c meshCaller) RequestChannel(ctx context.Context, p pl, in flux.Flux[pl]) flux.Flux[pl] {
	return c.m.RequestChannel(ctx, c.ns, "op", p, in)
}

// down makes a request through the mesh.
func (g *meshRig) down(st *wzOp) {
	o := st.op
	ns := modNS(st.w.G)
	if o.Bad != 0 {
		ns = "nobody"
	}
	var m []byte
	if o.Md > 0 || st.id%2 == 0 {
		m = make([]byte, 8, 8+o.Md)
		binary.BigEndian.PutUint32(m, 0xDEAD)
		m = append(m, meta(st.id, 'q', 0, o.Md)...)
	}
	st.issuedAt, st.issuedTime = int64(simrt.Event()), simrt.Now()
	st.request(context.Background(), meshCaller{m: g.m, ns: ns}, payload.New(body(st.id, 'q', 0, o.Req), m))
}

func (g *meshRig) states() {
	keptBytes = nil
	for i := range g.p.Ops {
		w := &g.p.Ops[i]
		o := &w.Op
		st := &wzOp{w: w}
		st.op, st.id = o, i
		if o.K >= 2 {
			st.out = &link{name: fmt.Sprintf("op %d (%s) answer stream", i, kindName[o.K]), cls: kindCls[o.K], op: i, dir: 'o', N: o.N, Err: o.Err, Size: o.Sz, Md: o.Md,
				PMode: o.P, CMode: o.CM, Page: o.Page, Ext: o.Ext, CancelK: o.Cancel - 1, CIn: o.CIn, pdelay: o.PD, cdelay: o.CD,
				inGuest: true, guestConsumer: w.Up, whenDone: st.kidDone, bad: o.Bad != 0}
			if o.K == 3 {
				st.in = &link{name: fmt.Sprintf("op %d (%s) input stream", i, kindName[o.K]), cls: "rc", op: i, dir: 'i', N: o.InN, Err: o.InErr, Size: o.Sz, Md: o.Md,
					PMode: o.InP, CMode: o.InCM, Page: o.InPage, Ext: o.InExt, CancelK: o.InCancel - 1, CIn: o.CIn, pdelay: o.PD, cdelay: o.CD,
					inGuest: w.Up, guestConsumer: true, bad: o.Bad != 0}
				st.in.peer, st.out.peer = st.out, st.in
				if o.RC == 2 {
					st.out.echo, st.in.by = st.in, st.out
				}
			}
		}
		g.ops = append(g.ops, st)
	}
	for _, st := range g.ops {
		if st.w.By >= 0 {
			p := g.ops[st.w.By]
			p.kids = append(p.kids, st)
		}
	}
	g.served = make([]*meshCopy, len(g.ops))
	g.from = make([]*meshCopy, len(g.ops))
}

func (x *meshCopy) stage() {
	name := x.file()
	switch x.load.Fail {
	case 1:
		if x.v == 0 && x.k%2 == 0 {
			simrt.Stat("fault_missing_file")
			return // no such file
		}
		simrt.SetFile(name, nil, errors.New("input/output error"))
	case 2:
		simrt.Stat("fault_corrupt_module")
		simrt.SetFile(name, []byte("not a module"), nil)
	default:
		simrt.SetFile(name, simwz.Source(x.k), nil)
	}
}

func (x *meshCopy) file() string {
	if x.load.Fail == 1 && x.v == 0 && x.k%2 == 0 {
		return "missing.wasm"
	}
	return fmt.Sprintf("m%d.wasm", x.m)
}

func (g *meshRig) loadOne(x *meshCopy) {
	x.stage()
	x.begun, x.begunT = int64(simrt.Event()), simrt.Now()
	if x.load.Fail == 0 {
		for _, y := range g.byMod[x.m] {
			if y.v < x.v && y.by == nil && y.loaded != 0 {
				y.replaced, y.by = x.begunT, x
			}
		}
	}
	simrt.Logf("loading copy %d: module %d version %d", x.k, x.m, x.v)
	inst, err := g.m.LoadModule(context.Background(), x.file())
	if x.load.Fail != 0 {
		x.dead = true
		note("failed_loads")
		if err == nil {
			fail("mesh.load", "a module that cannot be loaded was reported as loaded | failure kind %d", x.load.Fail)
		}
		return
	}
	if err != nil {
		fail("mesh.load", "a good module could not be loaded | module %d version %d: %v", x.m, x.v, err)
	}
	x.inst = inst
	x.loaded = int64(simrt.Event())
	note("module_loads")
	if x.v > 0 {
		note("module_reloads")
	}
	simrt.Logf("loaded copy %d: module %d version %d", x.k, x.m, x.v)
}

// maybeClosed: the copy may have been closed at time t.
func (g *meshRig) maybeClosed(x *meshCopy, t int64) bool {
	if g.closed != 0 && t >= g.closed {
		return true
	}
	return x != nil && x.by != nil && t >= x.replaced+grace
}

func (st *wzOp) endedAt() int64 {
	const never = 1 << 62
	if !st.over() {
		return never
	}
	if st.op.K == 1 {
		if st.calls > 0 {
			return st.issuedTime
		}
		return never
	}
	if st.op.K == 0 {
		return st.endTime
	}
	t := st.out.doneTime
	if st.in != nil && st.in.attached {
		if !st.in.done {
			return never
		}
		t = max(t, st.in.doneTime)
	}
	return t
}

func (g *meshRig) expired(st *wzOp) bool {
	t := st.endedAt()
	if st.out != nil && (st.out.cancelStart != 0 || st.in != nil && st.in.cancelStart != 0) {
		t = simrt.Now() // the news of the cancel may be on its way
	}
	if g.maybeClosed(g.served[st.id], t) || g.maybeClosed(g.from[st.id], t) {
		return true
	}
	for _, k := range st.kids { // its answer may wait for calls that died
		if k.issued && k.w.By == st.id && st.w.Kids && g.expired(k) {
			return true
		}
	}
	if st.calls == 0 {
		for _, y := range g.byMod[st.w.G] {
			if g.maybeClosed(y, t) && y.by != nil && (y.by.loaded == 0 || st.issuedAt <= y.by.loaded) {
				return true
			}
		}
	}
	return false
}

func runMesh(plan any) {
	g := &meshRig{p: plan.(*MPlan)}
	wz = &g.wzRig
	g.states()
	g.byMod = make([][]*meshCopy, g.p.Mods)
	for i := range g.p.Loads {
		l := &g.p.Loads[i]
		x := &meshCopy{r: g, load: l, m: l.M, v: len(g.byMod[l.M])}
		x.k, x.g = i, &g.wzRig
		g.copies = append(g.copies, x)
		g.byMod[l.M] = append(g.byMod[l.M], x)
	}
	g.route = g.arrived
	simwz.StartGuest = func(k int) {
		if g.copies[k].load.Fail == 3 {
			simrt.Stat("fault_module_start_crash")
			panic("planned crash")
		}
		guestMains[k](g.copies[k])
	}
	connTrouble = func(op int) bool {
		now := simrt.Now()
		return g.maybeClosed(g.served[op], now) || g.maybeClosed(g.from[op], now) || g.ops[op].calls == 0
	}
	g.m = mesh.New()
	if len(g.p.Ops) > 0 && len(g.p.Loads) > 0 {
		nontrivial()
	}
	skip := map[int]bool{}
	if g.p.Batch {
		var files []string
		var batch []*meshCopy
		for _, x := range g.copies {
			if x.v == 0 && x.load.Fail == 0 {
				x.stage()
				files = append(files, x.file())
				batch = append(batch, x)
				x.begun, x.begunT = int64(simrt.Event()), simrt.Now()
				skip[x.k] = true
			}
		}
		if err := g.m.LoadModules(context.Background(), files...); err != nil {
			fail("mesh.load", "good modules could not be loaded | %v", err)
		}
		for _, x := range batch {
			x.loaded = int64(simrt.Event())
			note("module_loads")
		}
	}
	for m := range g.byMod {
		m := m
		simrt.GoNamed(fmt.Sprintf("loader of module %d", m), func() {
			for _, x := range g.byMod[m] {
				if skip[x.k] {
					continue
				}
				simrt.TimeSleep(time.Duration(x.load.At) * time.Millisecond)
				g.loadOne(x)
			}
		})
	}
	if g.p.CloseAt > 0 {
		simrt.GoNamed("close", func() {
			simrt.TimeSleep(time.Duration(g.p.CloseAt) * time.Millisecond)
			g.closed = simrt.Now()
			note("mesh_closes")
			g.m.Close()
		})
	}
	g.callers(func(t int) bool { return t < late })
	g.rest()
	g.callers(func(t int) bool { return t >= late })
	g.rest()
	g.health()
	for _, st := range g.ops {
		g.judge(st)
		simrt.Stat("ops_" + kindCls[st.op.K])
	}
	checkKept()
}

func (g *meshRig) callers(which func(int) bool) {
	groups := map[int][]*wzOp{}
	var order []int
	for _, st := range g.ops {
		t := st.op.T
		if st.w.By >= 0 || !which(t) {
			continue
		}
		if groups[t] == nil {
			order = append(order, t)
		}
		groups[t] = append(groups[t], st)
	}
	for _, t := range order {
		t := t
		simrt.GoNamed(fmt.Sprintf("caller %d", t), func() {
			for _, st := range groups[t] {
				if st.op.Delay > 0 {
					simrt.TimeSleep(time.Duration(st.op.Delay) * time.Millisecond)
				}
				if t >= late {
					simrt.Stat("calls_after_all_loads")
				}
				g.down(st)
				if st.w.Wait {
					simrt.Block(fmt.Sprintf("the end of op %d", st.id), st.over)
				}
			}
		})
	}
}

// rest runs the system until nothing is left to do.
func (g *meshRig) rest() {
	simrt.WaitQuiescent()
	for {
		any1 := false
		for _, st := range g.ops {
			for _, l := range []*link{st.out, st.in} {
				if l != nil && !connTrouble(st.id) {
					l.stallCheck()
				}
			}
		}
		for _, st := range g.ops {
			for _, l := range []*link{st.out, st.in} {
				if l != nil && l.resume() {
					any1 = true
				}
			}
		}
		if !any1 {
			return
		}
		simrt.WaitQuiescent()
	}
}

func (g *meshRig) health() {
	for _, t := range simwz.Traps() {
		if g.copies[t.Guest].load.Fail == 3 && strings.Contains(t.Msg, "planned") {
			continue
		}
		fail("wasm.trap", "iota's guest code crashed inside the module: %s | guest %d, %s", t.Msg, t.Guest, t.Fn)
	}
	if o := simwz.OutOfBounds(); len(o) > 0 {
		fail("wasm.oob", "the host touched memory outside the guest's buffer | %s", strings.Join(o, "; "))
	}
	if o := simwz.Concurrent(); len(o) > 0 {
		fail("wasm.concurrent", "two threads were inside one guest at the same time | %s", strings.Join(o, "; "))
	}
}

func (g *meshRig) judge(st *wzOp) {
	o := st.op
	if !st.issued {
		return
	}
	if g.expired(st) {
		simrt.Stat("calls_cut_off_by_close")
		if g.from[st.id] != nil {
			return
		}
		switch o.K {
		case 0:
			if len(st.outcomes) == 0 {
				fail("mesh.silent", "a call on an instance that was closed never ended | request/response %d", st.id)
			}
		case 2, 3:
			st.out.lossVerdict()
		}
		return
	}
	if o.Bad == 0 && st.calls == 0 {
		// nobody exported the operation, or not before the call
		sure := false
		possible := false
		x := g.from[st.id]
		for _, y := range g.byMod[st.w.G] {
			if y.dead || y.begun == 0 {
				continue
			}
			if y.begunT <= st.endedAt() {
				possible = true
			}
			if y.loaded != 0 && y.loaded < st.issuedAt && (x == nil || x.loaded != 0 && x.loaded < st.issuedAt || y.loaded < x.begun) {
				sure = true
			}
		}
		if sure {
			if o.K >= 2 && st.out.cancelStart != 0 {
				return
			}
			fail("mesh.unlinked", "a call of an operation that a loaded module exports did not reach it | %s %d for module %d, made by %s, ended with %s", kindName[o.K], st.id, st.w.G, g.maker(st), st.end())
		}
		_ = possible
		simrt.Stat("calls_before_export")
		bad := *o
		bad.Bad = 1
		st.op = &bad
	}
	g.judgeOp(st)
}

func (st *wzOp) end() string {
	if st.out != nil {
		return fmt.Sprint(shorts(st.out.terms))
	}
	return fmt.Sprint(shorts(st.outcomes))
}

func (g *meshRig) maker(st *wzOp) string {
	if x := g.from[st.id]; x != nil {
		return fmt.Sprintf("module %d version %d", x.m, x.v)
	}
	return "the host"
}

var _ = host.New

// ---- generation ----

func genMesh(r *simrt.Rand, prof string, thorough bool) any {
	p := &MPlan{Mods: 1 + r.Pick(2, 5, 3)}
	nl := p.Mods + r.Pick(3, 4, 3)
	if nl > numGuests {
		nl = numGuests
	}
	at := func() int { return pick(r, 0, 0, r.Intn(5), r.Intn(100), r.Intn(3000), 4990+r.Intn(20), r.Intn(7000)) }
	for m := 0; m < p.Mods; m++ {
		p.Loads = append(p.Loads, MLoad{M: m, At: at()})
	}
	for len(p.Loads) < nl {
		p.Loads = append(p.Loads, MLoad{M: r.Intn(p.Mods), At: at()})
	}
	for i := len(p.Loads) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p.Loads[i], p.Loads[j] = p.Loads[j], p.Loads[i]
	}
	if r.Bool(0.25) {
		p.Loads[r.Intn(len(p.Loads))].Fail = 1 + r.Intn(3)
	}
	p.Batch = r.Bool(0.4)
	if r.Bool(0.1) {
		p.CloseAt = 1 + at()
	}
	n := 2 + r.Intn(8)
	sparse := r.Bool(0.4)
	var kindOf []int
	if sparse {
		n = 1 + r.Intn(4)
		for m := 0; m < p.Mods; m++ {
			kindOf = append(kindOf, r.Intn(4))
			d := MMod{}
			if r.Bool(0.3) {
				d.Exp = r.Intn(16) & r.Intn(16)
			}
			if r.Bool(0.3) {
				d.Imp = int(r.U64()) & int(r.U64()) & int(r.U64()) & (1<<(4*p.Mods) - 1)
			}
			if r.Bool(0.3) {
				d.Nobody = 1 << r.Intn(4)
			}
			d.Extra = r.Pick(6, 1, 1, 1)
			p.Sparse = append(p.Sparse, d)
		}
	}
	for i := 0; i < n; i++ {
		mk := func() WOp {
			to := r.Intn(p.Mods)
			kinds := [4]int{5, 2, 3, 3}
			if sparse && r.Bool(0.9) {
				kinds = [4]int{}
				kinds[kindOf[to]] = 1
			}
			o := genWOp(r, 1, kinds)
			o.G = to
			o.Bad = 0
			if r.Bool(0.1) {
				o.Bad = 1
			}
			o.N, o.InN = min(o.N, 12), min(o.InN, 12)
			o.Req, o.Sz, o.Md = min(o.Req, 300), min(o.Sz, 300), min(o.Md, 100)
			o.HWait = r.Pick(5, 1) * r.Intn(10)
			if o.K >= 2 && r.Bool(0.1) {
				o.Cancel = 1 + r.Intn(o.N+2)
				o.CIn = true
			}
			return o
		}
		o := mk()
		o.T = r.Intn(4)
		o.Delay = at()
		if r.Bool(0.3) {
			o.T = late + r.Intn(3)
			o.Delay = 0
		}
		p.Ops = append(p.Ops, o)
		by := len(p.Ops) - 1
		for j := r.Pick(4, 4, 2); j > 0; j-- {
			k := mk()
			k.By = by
			k.Par = r.Pick(2, 7, 2)
			p.Ops = append(p.Ops, k)
			if r.Bool(0.3) {
				by = len(p.Ops) - 1
			}
		}
		p.Ops[len(p.Ops)-1].Kids = false
		if r.Bool(0.6) {
			p.Ops[by].Kids = true
		}
	}
	return p
}

func tidyMesh(x any) {
	p := x.(*MPlan)
	clamp(&p.Mods, 1, 7)
	if len(p.Loads) > numGuests {
		p.Loads = p.Loads[:numGuests]
	}
	seen := map[int]bool{}
	for i := range p.Loads {
		clamp(&p.Loads[i].M, 0, p.Mods-1)
		clamp(&p.Loads[i].At, 0, 100000)
		clamp(&p.Loads[i].Fail, 0, 3)
		seen[p.Loads[i].M] = true
	}
	for i := range p.Ops {
		w := &p.Ops[i]
		o := &w.Op
		clamp(&o.K, 0, 3)
		clamp(&w.G, 0, p.Mods-1)
		clamp(&o.Page, 1, 1<<30)
		clamp(&o.InPage, 1, 1<<30)
		clamp(&o.N, 0, 1000)
		clamp(&o.InN, 0, 1000)
		clamp(&o.Bad, 0, 1)
		clamp(&o.T, 0, 1000)
		if w.By >= i || (w.By >= 0 && p.Ops[w.By].Bad != 0) {
			w.By = -1
		}
		w.Up = w.By >= 0
		if o.K != 0 {
			w.Kids = false
		}
		if !w.Up || (w.Par == 1 && p.Ops[w.By].K == 1) {
			w.Par = 0
		}
		o.ErrPad = 0
		if o.Ext > 0 && o.CM == cWindow {
			o.Ext = 0
		}
		if o.InExt > 0 && o.InCM == cWindow {
			o.InExt = 0
		}
		if o.P == pSliceResponse && o.N == 0 {
			o.P = pFromSlice
		}
		if w.Up {
			fitGuest(w)
		}
		w.Up = false
		fitGuest(w)
		w.Up = w.By >= 0
	}
	if len(p.Sparse) == 0 {
		return
	}
	for len(p.Sparse) < p.Mods {
		p.Sparse = append(p.Sparse, MMod{})
	}
	p.Sparse = p.Sparse[:p.Mods]
	for i := range p.Ops {
		w := &p.Ops[i]
		if w.Bad == 0 {
			p.Sparse[w.G].Exp |= 1 << w.K
		}
		if w.By < 0 {
			continue
		}
		by := &p.Sparse[p.Ops[w.By].G]
		if w.Bad == 0 {
			by.Imp |= 1 << (w.G*4 + w.K)
		} else {
			by.Nobody |= 1 << w.K
		}
	}
}

var famMesh = &Family{Name: "mesh", Gen: genMesh, New: func() any { return &MPlan{} }, Run: runMesh, Tidy: tidyMesh}

func init() {
	register(&Check{ID: "C23", Variants: []Variant{{F: famMesh, Prof: "mesh", Weight: 1, Steps: 600000}}, Accept: []string{"mesh.", "rr.", "rs.", "rc.", "fnf.", "err.", "dem.", "can.", "wasm.", "own.", "loss."},
		Real: "real iota code: transport/wasmrs/mesh, and everything listed for the wasmRS checks: " + realWZ, Stubs: stubWZ + "; simulated: os.ReadFile, time.Sleep",
		Rule: "A run loads 1-3 modules, some with many operations and some with hardly any, into a real mesh in any order, at once or spread over simulated seconds, reloads some (up to the number of guest copies), fails some loads (unreadable or missing file, not a module, crash at start), closes the mesh in some runs, and calls all kinds of operations through the mesh and from module to module, before, during and after the loads and across the five-second grace period; every call must reach a current instance of the exporting module and end like a call over RSocket, calls of operations nobody exports must fail."})
}

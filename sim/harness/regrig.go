//go:build go1.22

package main

import (
	"context"
	"fmt"
	"slices"

	"github.com/nanobus/iota/go/internal/verifsim/simrt"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// ---------------------------------------------------------------- the operation tables

const (
	raExport = iota
	raImport
	raGet
	raList
)

// RegOp is one thing a task does with the tables; Kind is the interaction, Name one of regNames.
type RegOp struct {
	Act, Kind, Name int
	At              int // the index looked up; 1000: one that an import gave, 1001: a huge one
	Wait            int // ms before
}

type RegPlan struct {
	Tasks  [][]RegOp
	Before int // operations of each interaction registered before the tasks start
}

// regNames has names that a comparison of parts of them takes for each other.
var regNames = []invoke.HandlerInfo{{"a", "b"}, {"a", "c"}, {"b", "a"}, {"b", "b"}, {"", "ab"}, {"ab", ""}, {"a", ""}, {"", ""}, {"a.b", "c"}, {"a", "b.c"}, {"A", "b"}, {"a/b", "c"}}

func regName(k int) invoke.HandlerInfo {
	if k < len(regNames) {
		return regNames[k]
	}
	return invoke.HandlerInfo{Namespace: fmt.Sprintf("a%d", k/3), Operation: fmt.Sprintf("b%d", k%3)}
}

func genReg(r *simrt.Rand, prof string, thorough bool) any {
	p := &RegPlan{Before: pick(r, 0, 0, r.Intn(5), 17+r.Intn(6))}
	w := []int{pick(r, 1, 6), pick(r, 1, 6), pick(r, 1, 4), pick(r, 1, 2)}
	kinds := pick(r, 1, 1, 2, 4)
	first := r.Intn(4)
	names := pick(r, 2, 4, len(regNames), 60)
	for t := 2 + r.Intn(4); t > 0; t-- {
		var ops []RegOp
		most := pick(r, 3, 8, 8, 16)
		if r.Bool(0.1) {
			most = 40
		}
		for n := 1 + r.Intn(most); n > 0; n-- {
			ops = append(ops, RegOp{Act: r.Pick(w...), Kind: (first + r.Intn(kinds)) % 4, Name: r.Intn(names), At: pick(r, r.Intn(4), p.Before+r.Intn(6), r.Intn(40), 1000, 1001), Wait: pick(r, 0, 0, 0, 0, r.Intn(3))})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	tidyReg(p)
	return p
}

func tidyReg(x any) {
	p := x.(*RegPlan)
	clamp(&p.Before, 0, 60)
	for _, t := range p.Tasks {
		for i := range t {
			clamp(&t[i].Act, 0, raList)
			clamp(&t[i].Kind, 0, 3)
			clamp(&t[i].Name, 0, 100)
			clamp(&t[i].At, 0, 1001)
			clamp(&t[i].Wait, 0, 10)
		}
	}
}

type regExport struct {
	name       invoke.HandlerInfo
	id         int
	begin, end uint64
}

type regImport struct {
	name       invoke.HandlerInfo
	index      uint32
	begin, end uint64
}

type regSnap struct {
	kept       []invoke.HandlerInfo // what the list was
	list       []invoke.HandlerInfo // the list itself
	begin, end uint64
}

type regGet struct {
	index      uint32
	id         int // -1: no handler
	begin, end uint64
}

// regTable is what happened to one interaction's tables.
type regTable struct {
	exports []*regExport
	imports []*regImport
	gets    []regGet
	exp     []regSnap
	imp     []regSnap
}

// regAll is one listing of all tables: how long each was.
type regAll struct {
	n          [8]int
	begin, end uint64
}

type regRig struct {
	t      [4]regTable
	all    []regAll
	called int // by the handler that was called last
	n      int
}

func (g *regRig) export(kind int, name invoke.HandlerInfo) {
	g.n++
	e := &regExport{name: name, id: g.n}
	t := &g.t[kind]
	t.exports = append(t.exports, e)
	e.begin = simrt.Event()
	switch kind {
	case 0:
		invoke.ExportRequestResponse(name.Namespace, name.Operation, func(context.Context, payload.Payload) mono.Mono[payload.Payload] {
			g.called = e.id
			return nil
		})
	case 1:
		invoke.ExportFireAndForget(name.Namespace, name.Operation, func(context.Context, payload.Payload) { g.called = e.id })
	case 2:
		invoke.ExportRequestStream(name.Namespace, name.Operation, func(context.Context, payload.Payload) flux.Flux[payload.Payload] {
			g.called = e.id
			return nil
		})
	case 3:
		invoke.ExportRequestChannel(name.Namespace, name.Operation, func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			g.called = e.id
			return nil
		})
	}
	e.end = simrt.Event()
}

// lookup returns which export's handler the index has, -1 for none.
func (g *regRig) lookup(kind int, index uint32) (id int) {
	ctx, p := context.Background(), payload.Payload(nil)
	g.called = -1
	switch kind {
	case 0:
		if h := invoke.GetRequestResponseHandler(index); h != nil {
			g.called = -1
			h(ctx, p)
		}
	case 1:
		if h := invoke.GetFireAndForgetHandler(index); h != nil {
			g.called = -1
			h(ctx, p)
		}
	case 2:
		if h := invoke.GetRequestStreamHandler(index); h != nil {
			g.called = -1
			h(ctx, p)
		}
	case 3:
		if h := invoke.GetRequestChannelHandler(index); h != nil {
			g.called = -1
			h(ctx, p, nil)
		}
	}
	id, g.called = g.called, -1
	return id
}

func (g *regRig) imports(kind int, name invoke.HandlerInfo) uint32 {
	im := &regImport{name: name, begin: simrt.Event()}
	g.t[kind].imports = append(g.t[kind].imports, im)
	fn := []func(string, string) uint32{invoke.ImportRequestResponse, invoke.ImportFireAndForget, invoke.ImportRequestStream, invoke.ImportRequestChannel}[kind]
	im.index = fn(name.Namespace, name.Operation)
	im.end = simrt.Event()
	for _, o := range g.t[kind].imports {
		if o.end == 0 {
			continue
		}
		if (o.name == im.name) != (o.index == im.index) {
			fail("reg.import", "an import gave another index than before, or that of another operation | %d for %v, %d for %v", im.index, im.name, o.index, o.name)
		}
	}
	return im.index
}

func pickKind(h invoke.Handlers, kind int) []invoke.HandlerInfo {
	return [][]invoke.HandlerInfo{h.RequestResponse, h.FireAndForget, h.RequestStream, h.RequestChannel}[kind]
}

func (g *regRig) list() {
	begin := simrt.Event()
	ops := invoke.GetOperations()
	end := simrt.Event()
	all := regAll{begin: begin, end: end}
	for k := range g.t {
		all.n[k], all.n[4+k] = len(pickKind(ops.Exported, k)), len(pickKind(ops.Imported, k))
	}
	g.all = append(g.all, all)
	for k := range g.t {
		e, i := pickKind(ops.Exported, k), pickKind(ops.Imported, k)
		g.t[k].exp = append(g.t[k].exp, regSnap{append([]invoke.HandlerInfo(nil), e...), e, begin, end})
		g.t[k].imp = append(g.t[k].imp, regSnap{append([]invoke.HandlerInfo(nil), i...), i, begin, end})
	}
}

// prefix checks a listing taken while operations were added against the one at the end.
func prefix(what string, s regSnap, last []invoke.HandlerInfo, done, begun int) {
	if len(s.kept) < done || len(s.kept) > begun {
		fail("reg.list", "a listing lacks operations that were registered before it, or has too many | %s: %d, registered before it began %d, before it returned %d", what, len(s.kept), done, begun)
	}
	for i := range s.kept {
		if s.kept[i] != last[i] || s.list[i] != s.kept[i] {
			fail("reg.list", "an operation in a listing changed afterwards | %s %d: %v, later %v, %v", what, i, s.kept[i], s.list[i], last[i])
		}
	}
}

func (g *regRig) check() {
	ops := invoke.GetOperations()
	var begins, ends [8][]uint64 // of what is at each index of each table
	for k := range g.t {
		t := &g.t[k]
		last := pickKind(ops.Exported, k)
		if len(last) != len(t.exports) {
			fail("reg.lost", "the list of exported operations has another length than there are | interaction %d: %d, want %d", k, len(last), len(t.exports))
		}
		byID := map[int]*regExport{}
		for _, e := range t.exports {
			byID[e.id] = e
		}
		at := map[int]int{}
		order := make([]*regExport, len(last))
		for i := range last {
			id := g.lookup(k, uint32(i))
			e := byID[id]
			if e == nil {
				fail("reg.lost", "there is no handler, or an alien one, at the index of an operation | interaction %d index %d: %d", k, i, id)
			}
			if _, twice := at[id]; twice {
				fail("reg.lost", "two indexes have the same handler | interaction %d index %d", k, i)
			}
			at[id] = i
			order[i] = e
			begins[k], ends[k] = append(begins[k], e.begin), append(ends[k], e.end)
			if e.name != last[i] {
				fail("reg.swapped", "an operation's index has the handler of another operation | interaction %d index %d: %v, want %v", k, i, e.name, last[i])
			}
		}
		var latest uint64
		for i := len(order) - 1; i >= 0; i-- {
			// Nothing at a later index was registered before this one began.
			if latest != 0 && order[i].begin > latest {
				fail("reg.order", "an operation got an index before that of one registered earlier | interaction %d index %d", k, i)
			}
			if latest == 0 || order[i].end < latest {
				latest = order[i].end
			}
		}
		for _, i := range []uint32{uint32(len(last)), uint32(len(last)) + 1, 1 << 31, ^uint32(0)} {
			if g.lookup(k, i) != -1 {
				fail("reg.alien", "there is a handler at an index past the end | interaction %d index %d", k, i)
			}
		}
		count := func(at uint64, begun bool) (n int) {
			for _, e := range t.exports {
				if begun && e.begin < at || !begun && e.end < at {
					n++
				}
			}
			return n
		}
		for _, q := range t.gets {
			switch {
			case q.id == -1 && int64(q.index) < int64(count(q.begin, false)):
				fail("reg.lost", "a lookup did not find an operation registered before it | interaction %d index %d", k, q.index)
			case q.id != -1 && (int(q.index) >= len(order) || order[q.index].id != q.id):
				fail("reg.swapped", "a lookup gave another handler than the index has | interaction %d index %d", k, q.index)
			}
		}
		for _, s := range t.exp {
			prefix("exports", s, last, count(s.begin, false), count(s.end, true))
		}
		last = pickKind(ops.Imported, k)
		names := map[invoke.HandlerInfo]uint32{}
		for _, im := range t.imports {
			names[im.name] = im.index
			if int64(im.index) >= int64(len(last)) || last[im.index] != im.name {
				fail("reg.import", "the list of imports has another operation at the index that the import gave | interaction %d index %d: %v", k, im.index, im.name)
			}
		}
		if len(last) != len(names) {
			fail("reg.import", "the list of imports has another length than there are | interaction %d: %d, want %d", k, len(last), len(names))
		}
		distinct := func(at uint64, begun bool) int {
			m := map[invoke.HandlerInfo]bool{}
			for _, im := range t.imports {
				if begun && im.begin < at || !begun && im.end < at {
					m[im.name] = true
				}
			}
			return len(m)
		}
		for _, s := range t.imp {
			prefix("imports", s, last, distinct(s.begin, false), distinct(s.end, true))
		}
		for _, name := range last {
			begin, end := ^uint64(0), ^uint64(0)
			for _, im := range t.imports {
				if im.name == name {
					begin, end = min(begin, im.begin), min(end, im.end)
				}
			}
			begins[4+k], ends[4+k] = append(begins[4+k], begin), append(ends[4+k], end)
		}
	}
	// Each listing shows the tables as they were at one moment.
	for _, s := range g.all {
		lo, hi := s.begin, s.end
		for k, n := range s.n {
			for i := range begins[k] {
				if i < n {
					lo = max(lo, begins[k][i])
				} else {
					hi = min(hi, ends[k][i])
				}
			}
		}
		if lo > hi {
			fail("reg.list", "a listing has an operation but not another one that was registered before | %v", s.n)
		}
	}
}

func runReg(x any) {
	p := x.(*RegPlan)
	g := &regRig{called: -1}
	if ops := invoke.GetOperations(); len(ops.Exported.RequestResponse)+len(ops.Exported.FireAndForget)+len(ops.Exported.RequestStream)+len(ops.Exported.RequestChannel) > 0 {
		fail("setup", "the operation tables are not empty at the start of a run")
	}
	nontrivial()
	for i := 0; i < p.Before; i++ {
		for k := 0; k < 4; k++ {
			g.export(k, regNames[i%len(regNames)])
		}
	}
	for i, ops := range p.Tasks {
		ops := ops
		simrt.GoNamed(fmt.Sprintf("registrar %d", i), func() {
			var lastImport uint32
			for _, op := range ops {
				if op.Wait > 0 {
					sleepJitter(op.Wait)
				}
				switch op.Act {
				case raExport:
					g.export(op.Kind, regName(op.Name))
				case raImport:
					lastImport = g.imports(op.Kind, regName(op.Name))
				case raGet:
					at := uint32(op.At)
					if op.At == 1000 {
						at = lastImport
					} else if op.At == 1001 {
						at = ^uint32(0)
					}
					q := regGet{index: at, begin: simrt.Event()}
					q.id = g.lookup(op.Kind, at)
					q.end = simrt.Event()
					g.t[op.Kind].gets = append(g.t[op.Kind].gets, q)
				default:
					g.list()
				}
			}
		})
	}
	simrt.WaitQuiescent()
	g.check()
	for k := range g.t {
		simrt.StatN("exports", int64(len(g.t[k].exports)))
		simrt.StatN("imports", int64(len(g.t[k].imports)))
		simrt.StatN("lookups", int64(len(g.t[k].gets)))
		simrt.StatN("listings", int64(len(g.t[k].exp)))
	}
}

var famReg = &Family{Name: "reg", Gen: genReg, New: func() any { return &RegPlan{} }, Run: runReg, Tidy: tidyReg}

// ---------------------------------------------------------------- live instances

// LiveOp is one use of a table of live instances. Pick says which handle: of the task's own newest one (0), of a known
// one by rank (1..100), 101 zero, 102 the handle after the newest known one, 103 a huge one.
type LiveOp struct {
	Act  int // put, get, remove
	Pick int
	Inst int // put: which instance; several puts may store one
}

type LivePlan struct {
	Tasks [][]LiveOp
	Nil   bool // instance 0 is nil
}

func genLive(r *simrt.Rand, prof string, thorough bool) any {
	p := &LivePlan{Nil: r.Bool(0.2)}
	w := []int{pick(r, 2, 5), pick(r, 2, 5), pick(r, 1, 3, 5)}
	insts := pick(r, 1, 3, 50)
	for t := 2 + r.Intn(4); t > 0; t-- {
		var ops []LiveOp
		for n := 1 + r.Intn(pick(r, 3, 8, 20, 20, 60)); n > 0; n-- {
			ops = append(ops, LiveOp{Act: r.Pick(w...), Pick: pick(r, 0, 0, 1+r.Intn(3), 1+r.Intn(20), 101+r.Intn(3)), Inst: r.Intn(insts)})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	return p
}

func tidyLive(x any) {
	p := x.(*LivePlan)
	for _, t := range p.Tasks {
		for i := range t {
			clamp(&t[i].Act, 0, 2)
			clamp(&t[i].Pick, 0, 103)
			clamp(&t[i].Inst, 0, 60)
		}
	}
}

type liveInst struct{ n int }

type liveSeen struct {
	remove, ok bool
	begin, end uint64
}

// liveHandle is the history of one handle.
type liveHandle struct {
	inst       *liveInst
	begin, end uint64 // of its Put; 0 for a handle nobody was given
	seen       []*liveSeen
	gone       *liveSeen
}

func runLive(x any) {
	p := x.(*LivePlan)
	nontrivial()
	t := invoke.NewLiveInstances[*liveInst]()
	insts := map[int]*liveInst{}
	inst := func(n int) *liveInst {
		if n == 0 && p.Nil {
			return nil
		}
		if insts[n] == nil {
			insts[n] = &liveInst{n}
		}
		return insts[n]
	}
	hs := map[uint64]*liveHandle{}
	var known []uint64
	handle := func(id uint64) *liveHandle {
		if hs[id] == nil {
			hs[id] = &liveHandle{}
		}
		return hs[id]
	}
	use := func(id uint64, remove bool) {
		o := &liveSeen{remove: remove, begin: simrt.Event()}
		var got *liveInst
		var ok bool
		if remove {
			got, ok = t.Remove(id)
		} else {
			got, ok = t.Get(id)
		}
		o.ok, o.end = ok, simrt.Event()
		h := handle(id)
		h.seen = append(h.seen, o)
		simrt.Logf("handle %d, remove %v: %v", id, remove, ok)
		switch {
		case !ok && got != nil:
			fail("live.absent", "a lookup that reports absence returned an instance | handle %d", id)
		case ok && h.end != 0 && got != h.inst:
			fail("live.swapped", "a handle gave another instance than was stored under it | handle %d", id)
		}
		if remove && ok {
			if h.gone != nil {
				fail("live.twice", "an instance was removed twice | handle %d", id)
			}
			h.gone = o
			note("removals")
		}
	}
	put := func(in *liveInst) uint64 {
		begin := simrt.Event()
		id := t.Put(in)
		h := handle(id)
		if h.begin != 0 {
			fail("live.handle", "two instances were given the same handle | handle %d", id)
		}
		h.inst, h.begin, h.end = in, begin, simrt.Event()
		known = append(known, id)
		note("puts")
		return id
	}
	for i, ops := range p.Tasks {
		ops := ops
		simrt.GoNamed(fmt.Sprintf("user %d", i), func() {
			var own uint64
			for _, op := range ops {
				if op.Act == 0 {
					own = put(inst(op.Inst))
					continue
				}
				id := own
				switch {
				case op.Pick == 101:
					id = 0
				case op.Pick == 102 && len(known) > 0:
					id = known[len(known)-1] + 1
				case op.Pick == 103:
					id = ^uint64(0)
				case op.Pick > 0 && len(known) > 0:
					id = known[(op.Pick-1)%len(known)]
				}
				use(id, op.Act == 2)
			}
		})
	}
	simrt.WaitQuiescent()
	rest := append([]uint64(nil), known...)
	for _, id := range rest {
		use(id, false)
	}
	for i, id := range rest {
		if i%2 == 0 {
			use(id, true)
			use(id, false)
			use(id, true)
		}
	}
	ids := make([]uint64, 0, len(hs))
	for id := range hs {
		ids = append(ids, id)
	}
	slices.Sort(ids)
	for _, id := range ids {
		h := hs[id]
		for _, o := range h.seen {
			switch {
			case o.ok && (h.begin == 0 || o.end < h.begin):
				fail("live.alien", "a handle that nobody was given has an instance | handle %d", id)
			case o.ok && h.gone != nil && h.gone.end < o.begin:
				fail("live.gone", "a lookup found an instance that was removed before | handle %d", id)
			case !o.ok && h.end != 0 && h.end < o.begin && (h.gone == nil || h.gone.begin > o.end):
				fail("live.lost", "a lookup did not find an instance that is there | handle %d", id)
			}
			if o.ok {
				continue
			}
			for _, b := range h.seen {
				if h.end != 0 && h.end < o.begin && o.end < b.begin && b.ok {
					fail("live.back", "an instance came back | handle %d", id)
				}
			}
		}
	}
}

var famLive = &Family{Name: "live", Gen: genLive, New: func() any { return &LivePlan{} }, Run: runLive, Tidy: tidyLive}

func init() {
	register(&Check{ID: "C24", Variants: []Variant{{F: famReg, Prof: "mix", Weight: 1, Steps: 100000}}, Accept: []string{"reg."},
		Real:  "real iota code: invoke (Export*, Import*, Get*Handler, GetOperations)",
		Stubs: "simulated: goroutine scheduling, sync; harness: registrars",
		Rule:  "A run has two to five tasks that export, import, look up and list operations of one to four interactions with names that differ in little, on tables that are empty or about to grow; results are checked as they come against those before, and the whole history against the tables at rest: each export at one index with its own handler, in an order that agrees with the history, lookups and listings that hold all registered before them and stay as they were."})
	register(&Check{ID: "C25", Variants: []Variant{{F: famLive, Prof: "mix", Weight: 1, Steps: 100000}}, Accept: []string{"live."},
		Real:  "real iota code: invoke.LiveInstances",
		Stubs: "simulated: goroutine scheduling, sync; harness: users",
		Rule:  "A run has two to five tasks that put, look up and remove instances, under their own handles, others', removed, never given and next ones; the history of each handle must be that of a linearizable table with handles of its own, and at rest each handle is tried again."})
}

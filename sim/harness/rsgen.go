//go:build go1.22

package main

import (
	"github.com/nanobus/iota/go/internal/verifsim/simrt"
)

func pick(r *simrt.Rand, v ...int) int { return v[r.Intn(len(v))] }

func genSize(r *simrt.Rand) int {
	switch r.Pick(50, 30, 12, 6, 2) {
	case 0:
		return r.Intn(12)
	case 1:
		return r.Intn(300)
	case 2:
		return r.Intn(5000)
	case 3:
		return 8100 + r.Intn(200)
	default:
		return 20000 + r.Intn(60000)
	}
}

// genDemand is a large demand, at and around the widths it might be cut to.
func genDemand(r *simrt.Rand) int {
	return pick(r, 1<<8, 1<<15, 1<<16, 1<<24, 1<<30, 1<<(8+r.Intn(22))) + pick(r, -1, 0, 0, 1)*r.Intn(2)
}

func genOp(r *simrt.Rand, clients int, kinds [4]int) Op {
	o := Op{K: r.Pick(kinds[0], kinds[1], kinds[2], kinds[3]), C: r.Intn(clients), D: r.Pick(65, 35), T: r.Intn(3), Wait: r.Bool(0.5)}
	if r.Bool(0.3) {
		o.Delay = r.Intn(20)
	}
	o.Req = genSize(r)
	if r.Bool(0.4) {
		o.Md = genSize(r)
	}
	o.H = r.Intn(hModes)
	if r.Bool(0.3) {
		o.HWait = r.Intn(15)
	}
	o.Via = r.Pick(4, 3, 2, 2, 2, 2)
	if o.K >= 2 {
		o.Via = r.Pick(10, 3, 2, 2, 2)
	}
	o.Err = r.Bool(0.2)
	o.Sz = genSize(r)
	if o.K >= 2 && r.Bool(0.8) {
		o.Sz = r.Intn(40)
	}
	o.N = r.Pick(1, 2, 2, 4, 4, 3, 3, 2, 2, 1, 1, 1)
	if r.Bool(0.08) {
		o.N = 20 + r.Intn(60)
	}
	o.P = pick(r, pSync, pSync, pAsync, pAsync, pAsync, pFromSlice, pSliceResponse, pPush, pMapped, pErrorFlux, pEmptyNow, pErrorNow)
	o.CM = r.Pick(4, 4, 3, 2)
	o.Page = 1 + r.Intn(4)
	if o.CM == cPage || o.CM == cStall {
		if r.Bool(0.25) {
			o.Ext = 1 + r.Intn(4)
		}
	}
	if r.Bool(0.3) {
		o.PD = r.Intn(6)
	}
	if r.Bool(0.2) {
		o.CD = r.Intn(6)
	}
	if o.K == 3 {
		o.RC = r.Pick(5, 2, 3, 1)
		o.InN = r.Pick(1, 2, 2, 3, 3, 3, 2, 1)
		o.InP = pick(r, pSync, pSync, pAsync, pAsync, pAsync, pFromSlice, pSliceResponse, pPush, pMapped)
		o.InCM = r.Pick(4, 4, 3, 2)
		o.InPage = 1 + r.Intn(4)
		o.InErr = r.Bool(0.15)
		if r.Bool(0.2) {
			o.InExt = 1 + r.Intn(3)
		}
	}
	return o
}

func genRS(r *simrt.Rand, prof string, thorough bool) any {
	p := &RSPlan{Net: genNet(r), Clients: 1 + r.Pick(6, 3, 1)}
	n := 1 + r.Intn(7)
	if r.Bool(0.15) {
		n = 8 + r.Intn(12)
	}
	kinds := [4]int{1, 1, 1, 1}
	switch prof {
	case "rr":
		kinds = [4]int{20, 2, 2, 1}
		n += 2
	case "rs":
		kinds = [4]int{2, 1, 20, 1}
	case "dem":
		kinds = [4]int{0, 0, 10, 6}
	case "rc":
		kinds = [4]int{1, 0, 1, 20}
	case "can":
		kinds = [4]int{2, 0, 8, 5}
	case "bad":
		kinds = [4]int{5, 6, 4, 4}
		n += 2
	case "loss":
		kinds = [4]int{5, 1, 5, 5}
		n += 2
	case "own":
		kinds = [4]int{6, 3, 4, 3}
		n += 2
	case "leak", "stray":
		kinds = [4]int{5, 2, 5, 5}
		n += 4
	case "ids":
		kinds = [4]int{5, 3, 2, 2}
		n += 6 + r.Intn(10)
	}
	for i := 0; i < n; i++ {
		o := genOp(r, p.Clients, kinds)
		switch prof {
		case "dem":
			o.CM = r.Pick(1, 4, 4, 4)
			o.InCM = r.Pick(1, 4, 4, 4)
			o.Err = r.Bool(0.1)
			o.InErr = false
			o.N = 1 + r.Intn(9)
			o.InN = 1 + r.Intn(9)
			if r.Bool(0.5) {
				o.Ext = 1 + r.Intn(5)
			}
			o.P = pick(r, pSync, pAsync, pAsync, pFromSlice, pSliceResponse, pMapped)
			o.Sz = r.Intn(20)
			// demands of any width
			if r.Bool(0.2) {
				o.Page = genDemand(r)
			}
			if r.Bool(0.2) {
				o.InPage = genDemand(r)
			}
		case "rc":
			o.N = r.Intn(8)
			o.InN = r.Intn(8)
			if r.Bool(0.1) {
				o.InCancel = 1 + r.Intn(3)
			}
		case "can":
			if o.K >= 2 && r.Bool(0.7) {
				o.Cancel = 1 + r.Intn(o.N+2)
				o.CIn = r.Bool(0.4)
			} else if o.K == 3 && r.Bool(0.4) {
				o.InCancel = 1 + r.Intn(o.InN+2)
				o.CIn = r.Bool(0.4)
			}
		case "bad":
			if r.Bool(0.5) {
				o.Bad = 1 + r.Intn(9)
			} else if o.K == 1 && r.Bool(0.6) {
				o.Hold = 1 + r.Intn(n)
			}
		case "leak", "stray":
			if r.Bool(0.12) {
				o.Bad = 1 + r.Intn(9)
			}
			if o.K >= 2 && r.Bool(0.2) {
				o.Cancel = 1 + r.Intn(o.N+2)
				o.CIn = r.Bool(0.4)
			} else if o.K == 3 && r.Bool(0.2) {
				o.InCancel = 1 + r.Intn(o.InN+2)
				o.CIn = r.Bool(0.4)
			}
		case "ids":
			o.T = r.Intn(6)
			o.Wait = r.Bool(0.2)
			o.Req, o.Sz, o.Md = o.Req%60, o.Sz%60, 0
			o.N, o.InN = o.N%4, o.InN%4
		case "own":
			if o.K < 2 {
				o.Err = false
			}
			o.Wait = r.Bool(0.7)
		}
		if prof != "loss" && prof != "own" && prof != "ids" && r.Bool(0.1) {
			o.Hold = 1 + r.Intn(n)
		}
		p.Ops = append(p.Ops, o)
	}
	if prof == "loss" {
		nf := 1
		if r.Bool(0.2) {
			nf = 2
		}
		for i := 0; i < nf; i++ {
			f := Fault{T: r.Pick(3, 3, 2, 2, 2, 2, 2, 2), C: r.Intn(p.Clients), S: r.Intn(2)}
			if f.T <= 2 {
				f.At = pick(r, r.Intn(20), r.Intn(200), r.Intn(2000))
			} else {
				f.At = pick(r, 0, r.Intn(10), r.Intn(60))
			}
			p.Faults = append(p.Faults, f)
		}
		p.After = r.Bool(0.5)
	}
	switch prof {
	case "leak", "stray":
		p.Leak = true
		p.Middle = prof == "stray"
		if p.Middle {
			p.Stray = []int{0, 5, 20, 60}[r.Intn(4)]
		}
		for i := range p.Ops {
			p.Ops[i].Late = r.Bool(0.3)
		}
	case "ids":
		p.Middle = true
		if r.Bool(0.6) {
			p.Start = [2]int64{0x40000000 - int64(r.Intn(12)), 0x40000000 - int64(r.Intn(12))}
		}
	}
	switch prof {
	case "rr", "rs", "dem", "rc", "can", "bad":
		if r.Bool(0.3) {
			p.Middle = true
			p.Spell = []int{20, 60, 100}[r.Intn(3)]
		}
	}
	if prof == "own" && r.Bool(0.3) {
		p.Net.Short = 0
	}
	if r.Bool(0.012) {
		crowd(r, p, prof, kinds)
	}
	return p
}

// crowd makes many small requests of a plan's few, most of them open at the same time.
func crowd(r *simrt.Rand, p *RSPlan, prof string, kinds [4]int) {
	few := len(p.Ops)
	p.Net.Window = 0
	p.Spell = 0
	p.Stray = min(p.Stray, 5)
	for n := 30 + r.Intn(120); n > 0; n-- {
		p.Ops = append(p.Ops, p.Ops[r.Intn(few)])
	}
	for i := range p.Ops {
		o := &p.Ops[i]
		o.T = r.Intn(12)
		o.Wait = o.Wait && r.Bool(0.1)
		o.Late = false
		o.Hold = 0
		o.Req, o.Md, o.Sz = o.Req%30, o.Md%30, o.Sz%30
		o.N, o.InN = o.N%4, o.InN%4
		if o.Cancel > 0 {
			clamp(&o.Cancel, 1, o.N+1)
		}
		if o.InCancel > 0 {
			clamp(&o.InCancel, 1, o.InN+1)
		}
		o.HWait = 5 + r.Intn(10)
	}
}

func clamp(v *int, lo, hi int) {
	if *v < lo {
		*v = lo
	}
	if *v > hi {
		*v = hi
	}
}

func tidyRS(x any) {
	p := x.(*RSPlan)
	clamp(&p.Clients, 1, 4)
	if p.Net.Window != 0 {
		clamp(&p.Net.Window, 4, 1<<20)
	}
	for i := range p.Ops {
		o := &p.Ops[i]
		clamp(&o.K, 0, 3)
		clamp(&o.C, 0, p.Clients-1)
		clamp(&o.D, 0, 1)
		clamp(&o.Page, 1, 1<<30)
		clamp(&o.InPage, 1, 1<<30)
		clamp(&o.N, 0, 500)
		clamp(&o.Hold, 0, len(p.Ops))
		if k := o.Hold - 1; k >= 0 {
			w := p.Ops[k]
			// A handler may wait for an earlier request, and that of a
			// fire-and-forget, which nothing waits for, also for a later one.
			if w.K == 1 || k == i || w.Late || len(p.Faults) > 0 || k > i && (o.K != 1 || o.Late) {
				o.Hold = 0
			}
		}
		clamp(&o.InN, 0, 500)
		if o.Ext > 0 && o.CM == cWindow {
			o.Ext = 0
		}
		if o.InExt > 0 && o.InCM == cWindow {
			o.InExt = 0
		}
		if o.P == pSliceResponse && o.N == 0 {
			o.P = pFromSlice
		}
	}
	if p.Net.Window > 0 {
		// a tiny window with much data only makes a run long
		total := 0
		for _, o := range p.Ops {
			total += o.Req + o.Md + 64 + (o.N+o.InN+1)*(o.Sz+o.Md+32)
		}
		clamp(&p.Net.Window, total/(60-p.Net.Seg/2), 1<<20)
	}
	for i := range p.Faults {
		clamp(&p.Faults[i].C, 0, p.Clients-1)
		clamp(&p.Faults[i].S, 0, 1)
		clamp(&p.Faults[i].At, 0, 1<<20)
	}
}

var famRS = &Family{Name: "rsocket", Gen: genRS, New: func() any { return &RSPlan{} }, Run: runRS, Tidy: tidyRS}

const realRS = "real iota code: handler, proxy, invoke, payload, rx/flux, rx/mono, internal/frames, internal/buffer, internal/socket, transport/rsocket (client transport, server transport, TCPConn, frame decoder), standard library bufio and context"
const stubRS = "simulated: goroutine scheduling, sync, channels, clock, TCP network (net.Listen/Dial/Conn with segmentation, latency, stalls, short reads, windows, resets); harness: applications (handlers, callers, consumers), wire peers"

func init() {
	v := func(prof string, w int) Variant { return Variant{F: famRS, Prof: prof, Weight: w, Steps: 3000000} }
	register(&Check{ID: "C02", Variants: []Variant{v("own", 1)}, Accept: []string{"own."}, Real: realRS, Stubs: stubRS,
		Rule: "A run connects 1-3 real clients to a real server over a simulated network, issues requests of all four kinds in both directions, keeps every metadata and data slice handed to a handler, caller or subscriber, and compares each with a copy taken at delivery once everything is at rest."})
	register(&Check{ID: "C05", Variants: []Variant{v("rr", 1)}, Accept: []string{"rr.", "conn.down"}, Real: realRS, Stubs: stubRS,
		Rule: "A run issues request/response calls in both directions over 1-3 connections from several tasks, observed through Subscribe, Block and Notify/Get, also by two of them in turn, against handlers that answer at once, later, from other tasks, with values and with errors; every call must end exactly once with its own handler's outcome."})
	register(&Check{ID: "C06", Variants: []Variant{v("rs", 1)}, Accept: []string{"rs.", "conn.down"}, Real: realRS, Stubs: stubRS,
		Rule: "A run issues request/stream calls against producers of nine kinds (synchronous, asynchronous, slice, processor, mapped, immediately failed or empty) with paging, windowed, stalled and unlimited consumers that subscribe, block, register for a notice or only await; items and the terminal signal are compared with what the producer emitted."})
	register(&Check{ID: "C07", Variants: []Variant{v("dem", 1)}, Accept: []string{"dem."}, Real: realRS, Stubs: stubRS,
		Rule: "A run drives request/stream and request/channel with consumers that page, keep windows, stall and resume, and grant extra demand from other tasks at arbitrary moments; the demand each producer sees is compared with what its consumer granted at every request and at rest."})
	register(&Check{ID: "C08", Variants: []Variant{v("rc", 1)}, Accept: []string{"rc.", "conn.down"}, Real: realRS, Stubs: stubRS,
		Rule: "A run drives request/channel with independent, late, echoing and input-ignoring handlers and independent lengths, demands and errors per direction; both directions' items and terminal signals are compared with what was emitted."})
	register(&Check{ID: "C09", Variants: []Variant{v("can", 1)}, Accept: []string{"can.", "conn.down", "rr.", "rs.", "rc."}, Real: realRS, Stubs: stubRS,
		Rule: "A run cancels streams and channel inputs at a chosen item from inside the callback or from another task, at subscription, between items, while completing and after the end, next to bystander requests; no signal may follow the cancel, the producer must be told once, and every other request must be unaffected."})
	register(&Check{ID: "C10", Variants: []Variant{v("bad", 1)}, Accept: []string{"err.", "fnf.", "conn.down", "rr.", "rs.", "rc."}, Real: realRS, Stubs: stubRS,
		Rule: "A run mixes unknown operations, metadata of 0-7 bytes, failing handlers and fire-and-forgets (valid and invalid) with valid requests in both directions; invalid requests must fail alone and everything else must be unaffected."})
	register(&Check{ID: "C13", Variants: []Variant{v("stray", 3), v("leak", 1)}, Accept: []string{"leak.", "conn.down", "rr.", "rs.", "rc.", "fnf.", "can.", "dem.", "err."}, Real: realRS, Stubs: stubRS,
		Rule: "A run serves requests of all kinds, ended in every way (completion, error, cancel, invalid), through a man in the middle that adds frames of every kind for streams that have ended or never existed, during the traffic and at rest; every request must be unaffected, later ones must work, and at rest neither peer's handler may reach (by a walk over everything it references) any stream, nor more pieces than before the requests. In a fifth of the plans the requests go into and out of wasm guests, and the stream tables of the host's instances and of the guests are looked into."})
	register(&Check{ID: "C14", Variants: []Variant{v("ids", 1)}, Accept: []string{"ids.", "rr.", "rs.", "rc.", "fnf."}, Real: realRS, Stubs: stubRS,
		Rule: "A run opens requests of all kinds from many tasks at once in both directions over connections watched by a man in the middle, with id counters starting anywhere, also just before the wrap-around; every id seen on the wire must be new, non-zero and of its opener's parity."})
	register(&Check{ID: "C11", Variants: []Variant{v("loss", 1)}, Accept: []string{"loss.", "rr.twice", "rs.terms", "rc.terms", "rs.finally", "rc.finally", "conn.down"}, Real: realRS, Stubs: stubRS,
		Rule: "A run breaks connections under load: end of stream, reset or write error at a chosen byte in either direction, reset or half-close at a chosen time, transport close, context cancellation, server close; at rest every pending request and handler input on a dead connection must have ended exactly once, and later requests must fail."})
}

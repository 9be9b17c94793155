//go:build go1.22

package main

import (
	"github.com/nanobus/iota/go/internal/verifsim/simrt"
)

// guestOp fits the streams of an op to what a single-threaded guest can do; tidy enforces it.
func fitGuest(w *WOp) {
	o := &w.Op
	o.C, o.D = 0, 0
	sync := func(p *int) {
		if *p == pAsync || *p == pPush {
			*p = pSync
		}
	}
	cons := func(cm, ext, cancel *int) {
		if *cm == cStall {
			*cm = cWindow
		}
		*ext = 0
		if *cancel > 0 {
			o.CIn = true
		}
	}
	if w.Up {
		cons(&o.CM, &o.Ext, &o.Cancel)
		sync(&o.InP)
		if o.RC == 1 {
			o.CIn = o.CIn || o.Cancel > 0
		}
	} else {
		sync(&o.P)
		cons(&o.InCM, &o.InExt, &o.InCancel)
		if o.RC == 1 {
			o.RC = 0
		}
	}
}

func genWOp(r *simrt.Rand, guests int, kinds [4]int) WOp {
	o := WOp{Op: genOp(r, 1, kinds), G: r.Intn(guests), By: -1, Wait: r.Bool(0.5)}
	if o.Req > 14000 {
		o.Req = r.Intn(3000)
	}
	if o.Sz > 14000 {
		o.Sz = r.Intn(3000)
	}
	if o.Md > 2000 {
		o.Md = r.Intn(1000)
	}
	return o
}

func genWZ(r *simrt.Rand, prof string, thorough bool) any {
	p := &WPlan{Guests: 1 + r.Pick(5, 3, 1)}
	n := 1 + r.Intn(6)
	kinds := [4]int{4, 3, 4, 4}
	if r.Bool(0.15) {
		n += 8
	}
	switch prof {
	case "big":
		kinds = [4]int{6, 2, 4, 3}
	case "flood":
		p.Guests = 1 + r.Pick(6, 2)
	case "ctx":
		n = 2 + r.Intn(5)
	case "leak":
		p.Leak = true
		n += 4
	case "own":
		p.Guests = 1
		n += 3
	}
	near := func() int {
		switch r.Pick(5, 3, 2, 1) {
		case 0:
			return 16300 + r.Intn(100)
		case 1:
			return 8000 + r.Intn(9000)
		case 2:
			return 16384 - r.Intn(40)
		}
		return 17000 + r.Intn(60000)
	}
	mk := func() WOp {
		o := genWOp(r, p.Guests, kinds)
		switch prof {
		case "big":
			if r.Bool(0.6) {
				switch r.Intn(4) {
				case 0:
					o.Req = near()
				case 1:
					o.Sz = near()
					o.N = min(o.N, 4)
					o.InN = min(o.InN, 4)
				case 2:
					o.Md = near()
					o.Sz = min(o.Sz, 100)
					o.Req = min(o.Req, 100)
					o.N = min(o.N, 4)
					o.InN = min(o.InN, 4)
				default:
					o.Err, o.ErrPad = true, near()
				}
			}
		case "flood":
			o.Req, o.Sz, o.Md = min(o.Req, 40), min(o.Sz, 40), 0
			o.HWait, o.Delay, o.PD, o.CD = 0, 0, 0, 0
		case "close":
			if o.K >= 2 && r.Bool(0.5) {
				o.PD = 3 + r.Intn(10)
				o.CD = r.Intn(4)
			}
			o.Wait = r.Bool(0.3)
		case "mix":
			if r.Bool(0.2) {
				o.Bad = 1 + r.Intn(9)
			}
			if o.K >= 2 && r.Bool(0.2) {
				o.Cancel = 1 + r.Intn(o.N+2)
				o.CIn = true
			}
		}
		return o
	}
	for i := 0; i < n; i++ {
		o := mk()
		// every upward request is made by a handler
		if prof == "ctx" {
			o.K = r.Pick(4, 1, 3, 2)
			o.Bad = 0
		}
		p.Ops = append(p.Ops, o)
		top := len(p.Ops) - 1
		kids := 0
		switch prof {
		case "ctx":
			kids = 1 + r.Intn(3)
		case "flood":
			kids = r.Pick(3, 2, 1) * r.Intn(20)
		default:
			kids = r.Pick(4, 4, 2)
		}
		if o.Bad != 0 {
			kids = 0
		}
		for j := 0; j < kids; j++ {
			k := mk()
			k.Up, k.By, k.G = true, top, o.G
			k.Par = r.Pick(2, 7, 2)
			p.Ops = append(p.Ops, k)
			if r.Bool(0.3) && k.Bad == 0 {
				d := mk()
				d.By, d.G = len(p.Ops)-1, o.G
				p.Ops = append(p.Ops, d)
				if d.Bad == 0 && r.Bool(0.5) {
					u := mk()
					u.Up, u.By, u.G = true, len(p.Ops)-1, o.G
					u.Par = r.Pick(2, 7, 2)
					p.Ops = append(p.Ops, u)
				}
			}
		}
		if kids > 0 && r.Bool(0.5) {
			p.Ops[top].Kids = true
		}
	}
	if prof == "flood" {
		// one kind of load beyond any fixed queue
		switch r.Pick(3, 3, 3, 2) {
		case 0: // many at once from many tasks
			m := 120 + r.Intn(250)
			for i := 0; i < m; i++ {
				o := genWOp(r, p.Guests, [4]int{5, 3, 1, 0})
				o.Req, o.Sz, o.Md, o.N, o.HWait, o.PD, o.CD, o.Delay, o.Wait = 4, 4, 0, min(o.N, 3), 0, 0, 0, 0, false
				o.T = 10 + r.Intn(40)
				p.Ops = append(p.Ops, o)
			}
		case 1: // one handler that makes more requests than a queue holds
			top := len(p.Ops)
			o := genWOp(r, p.Guests, [4]int{3, 1, 1, 0})
			o.Sz, o.Req = 4, 4
			p.Ops = append(p.Ops, o)
			m := 100 + r.Intn(200)
			kd := [4]int{4, 4, 1, 0}
			if r.Bool(0.4) {
				kd = [4]int{0, 1, 0, 0}
			}
			for i := 0; i < m; i++ {
				k := genWOp(r, p.Guests, kd)
				k.Up, k.By, k.G, k.Par = true, top, o.G, r.Pick(2, 5, 1)
				k.Req, k.Sz, k.Md, k.N, k.HWait, k.PD, k.CD = 4, 4, 0, min(k.N, 3), 0, 0, 0
				p.Ops = append(p.Ops, k)
			}
			p.Ops[top].Kids = r.Bool(0.5)
		case 2: // long streams
			o := genWOp(r, p.Guests, [4]int{0, 0, 4, 4})
			o.N, o.InN = 150+r.Intn(300), 150+r.Intn(300)
			o.Sz, o.Md, o.PD, o.CD = 4, 0, 0, 0
			o.CM, o.InCM = pick(r, cUnlimited, cUnlimited, cPage), pick(r, cUnlimited, cUnlimited, cPage)
			if o.P == pEmptyNow || o.P == pErrorNow || o.P == pErrorFlux {
				o.P = pSync
			}
			o.Page, o.InPage = pick(r, 1, 3, 50, 200, genDemand(r)), pick(r, 1, 3, 50, 200, genDemand(r))
			o.Bad = 0
			if r.Bool(0.5) {
				p.Ops = append(p.Ops, o)
			} else {
				top := len(p.Ops)
				f := genWOp(r, p.Guests, [4]int{3, 1, 1, 0})
				p.Ops = append(p.Ops, f)
				o.Up, o.By, o.G, o.Par = true, top, f.G, r.Pick(2, 5, 1)
				p.Ops = append(p.Ops, o)
			}
		default:
		}
	}
	p.Share = p.Guests > 1 && r.Bool(0.5)
	if prof == "close" {
		for k := 0; k < p.Guests; k++ {
			if k > 0 && r.Bool(0.5) {
				continue
			}
			p.Closes = append(p.Closes, WClose{G: k, At: pick(r, 0, 0, r.Intn(10), r.Intn(60)), Spin: pick(r, 0, 5, 60, 300), Twice: r.Bool(0.3)})
		}
		p.After = r.Bool(0.6)
	}
	return p
}

func tidyWZ(x any) {
	p := x.(*WPlan)
	clamp(&p.Guests, 1, numGuests)
	for i := range p.Ops {
		w := &p.Ops[i]
		o := &w.Op
		clamp(&o.K, 0, 3)
		clamp(&w.G, 0, p.Guests-1)
		clamp(&o.Page, 1, 1<<30)
		clamp(&o.InPage, 1, 1<<30)
		clamp(&o.N, 0, 1000)
		clamp(&o.InN, 0, 1000)
		if w.By >= i || (w.By >= 0 && (p.Ops[w.By].Up == w.Up || p.Ops[w.By].Bad != 0)) {
			w.By = -1
		}
		if w.By < 0 {
			w.Up = false
		} else {
			w.G = p.Ops[w.By].G
		}
		if !w.Up {
			w.Par = 0
		}
		if o.K != 0 {
			w.Kids = false
		}
		if w.Up && w.Par == 1 && p.Ops[w.By].K == 1 {
			w.Par = 0 // a fire-and-forget is over when its handler runs
		}
		if o.Ext > 0 && o.CM == cWindow {
			o.Ext = 0
		}
		if o.InExt > 0 && o.InCM == cWindow {
			o.InExt = 0
		}
		if o.P == pSliceResponse && o.N == 0 {
			o.P = pFromSlice
		}
		if !o.Err {
			o.ErrPad = 0
		}
		fitGuest(w)
	}
}

var famWZ = &Family{Name: "wasmrs", Gen: genWZ, New: func() any { return &WPlan{} }, Run: runWZ, Tidy: tidyWZ}

const realWZ = "real iota code: transport/wasmrs/host (Module, Instance, receive loop, host imports), transport/wasmrs/guest (export side, HostInvoker, registries; one instrumented copy per guest), proxy, invoke, operations, payload, rx/flux, rx/mono, internal/frames, internal/buffer, internal/socket"
const stubWZ = "simulated: goroutine scheduling, sync, clock; wazero replaced by simwz: a guest instance with linear memory, bounds-checked host access, asynchronous completion semantics of exported functions, traps and unwinding; guests are Go programs compiled from the guest sources with pointers mapped into the simulated memory; harness: applications on both sides"

func init() {
	v := func(prof string, w int) Variant { return Variant{F: famWZ, Prof: prof, Weight: w, Steps: 1500000} }
	c2 := checks["C02"]
	c2.Variants[0].Weight = 3
	c2.Variants = append(c2.Variants, v("own", 1))
	c13 := checks["C13"]
	c13.Variants = append(c13.Variants, v("leak", 1))
	c13.Accept = append(c13.Accept, "wasm.")
	c13.Real += "; " + realWZ
	c13.Stubs += "; " + stubWZ
	all := []string{"rr.", "rs.", "rc.", "fnf.", "err.", "dem.", "can.", "wasm.", "own.", "ops."}
	register(&Check{ID: "C19", Variants: []Variant{v("mix", 1)}, Accept: all, Real: realWZ, Stubs: stubWZ,
		Rule: "A run instantiates 1-3 guests through the real host package and makes requests of all four kinds from several host tasks; guest handlers make requests back to the host, whose handlers may call the guest again; valid, invalid, failing and cancelled requests are mixed, with all kinds of producers and consumers, and every request is judged like one over RSocket, plus: no trap, no access outside the guest's memory, never two threads inside one guest."})
	register(&Check{ID: "C20", Variants: []Variant{v("big", 1)}, Accept: append([]string{"big."}, all...), Real: realWZ, Stubs: stubWZ,
		Rule: "A run makes requests whose data, metadata, items or error texts lie around and beyond the 16 KiB a frame can hold; what fits must arrive intact, what does not must end with an error, and neither may corrupt memory, trap or disturb other requests."})
	register(&Check{ID: "C21", Variants: []Variant{v("flood", 1)}, Accept: all, Real: realWZ, Stubs: stubWZ,
		Rule: "A run floods an instance: hundreds of concurrent requests, handlers that make hundreds of requests in one call, streams of hundreds of items with unlimited demand, re-entrant chains; everything must still end as specified, without deadlock."})
	register(&Check{ID: "C22", Variants: []Variant{v("close", 1)}, Accept: []string{"close.", "loss.", "rr.twice", "rs.terms", "rc.terms", "rs.finally", "rc.finally", "wasm."}, Real: realWZ, Stubs: stubWZ,
		Rule: "A run closes instances at arbitrary points of their traffic, once or twice at the same time, and probes closed ones; every call on a closed instance must end exactly once and closing must not disturb other instances, trap or hang."})
	register(&Check{ID: "C26", Variants: []Variant{v("ctx", 1)}, Accept: []string{"ctx.", "wasm.", "rr.", "rs.", "rc.", "fnf."}, Real: realWZ, Stubs: stubWZ,
		Rule: "A run nests calls host -> guest -> host -> guest -> host with several callers at once, each with its own context value; while the outer call is unanswered a nested call naming it must run in its context, and no call may ever run in another caller's."})
}

//go:build go1.22

package main

import (
	"fmt"

	"github.com/nanobus/iota/go/internal/buffer"
	"github.com/nanobus/iota/go/internal/verifsim/simrt"
)

// ---------------------------------------------------------------- the unbounded queue

type QProd struct {
	N     int
	Delay []int // ms before a put, repeated
}

type QPlan struct {
	Prods   []QProd
	Dispose []int // ms at which another task disposes; -1: after all producers are done
	After   []int // puts tried by the disposing task after its disposal
	Start   int   // the reader starts late, ms
	Slow    []int // reader delays between receiving and Load, and between Load and the next receive
	Ptr     bool
}

type qItem struct{ prod, seq int }

func genQ(r *simrt.Rand, prof string, thorough bool) any {
	p := &QPlan{Start: pick(r, 0, 0, 0, r.Intn(10)), Ptr: r.Bool(0.3)}
	for i := 1 + r.Intn(4); i > 0; i-- {
		q := QProd{N: 1 + r.Intn(12)}
		if r.Bool(0.05) {
			q.N += r.Intn(200)
		}
		for k := r.Intn(5); k > 0; k-- {
			q.Delay = append(q.Delay, pick(r, 0, 0, r.Intn(4)))
		}
		p.Prods = append(p.Prods, q)
	}
	for i := r.Pick(20, 60, 20); i > 0; i-- {
		p.Dispose = append(p.Dispose, pick(r, -1, 0, r.Intn(10), r.Intn(30)))
		p.After = append(p.After, r.Intn(3))
	}
	for k := r.Intn(6); k > 0; k-- {
		p.Slow = append(p.Slow, pick(r, 0, 0, r.Intn(3)))
	}
	return p
}

func runQ(plan any) {
	p := plan.(*QPlan)
	q := buffer.NewUnbounded[*qItem]()
	type putRec struct {
		it  *qItem
		ok  bool
		end uint64 // when Put returned
	}
	accepted := map[*qItem]bool{}
	var puts []*putRec
	var got []*qItem
	disposeStart, disposeEnd := uint64(0), uint64(0)
	closed := false
	put := func(prod, seq int) {
		it := &qItem{prod, seq}
		begin := simrt.Event()
		rec := &putRec{it: it}
		puts = append(puts, rec)
		early := disposeStart == 0
		ok := q.Put(it)
		rec.ok, rec.end = ok, simrt.Event()
		accepted[it] = ok
		if !ok && disposeStart == 0 {
			fail("q.refused", "a put was refused before disposal | producer %d item %d", prod, seq)
		}
		if ok && !early && disposeEnd != 0 && begin > disposeEnd {
			fail("q.accepted", "a put was accepted after disposal | producer %d item %d", prod, seq)
		}
		if !ok {
			note("puts_refused")
		}
	}
	simrt.GoNamed("reader", func() {
		if p.Start > 0 {
			simrt.TimeSleep(ms(p.Start))
		}
		last := map[int]int{}
		c := q.Get()
		for k := 0; ; k++ {
			it, ok := simrt.Recv2(c)
			if !ok {
				closed = true
				return
			}
			if it == nil {
				fail("q.alien", "the queue delivered something that was not put into it")
			}
			if l, seen := last[it.prod]; seen && it.seq <= l {
				fail("q.order", "items of one producer came out in another order, or twice | producer %d: item %d after %d", it.prod, it.seq, l)
			}
			last[it.prod] = it.seq
			got = append(got, it)
			if len(p.Slow) > 0 {
				if d := p.Slow[k%len(p.Slow)]; d > 0 {
					simrt.TimeSleep(ms(d))
				}
			}
			q.Load()
			simrt.Yield()
		}
	})
	running := 0
	for i, pr := range p.Prods {
		i, pr := i, pr
		running++
		simrt.GoNamed(fmt.Sprintf("producer %d", i), func() {
			for k := 0; k < pr.N; k++ {
				if len(pr.Delay) > 0 {
					if d := pr.Delay[k%len(pr.Delay)]; d > 0 {
						simrt.TimeSleep(ms(d))
					}
				}
				put(i, k)
			}
			running--
		})
	}
	nontrivial()
	dispose := func(after, id int) {
		if disposeStart == 0 {
			disposeStart = simrt.Event()
		}
		q.Dispose()
		if disposeEnd == 0 {
			disposeEnd = simrt.Event()
		}
		note("fault_dispose")
		for k := 0; k < after; k++ {
			put(100+id, k)
		}
	}
	for i, at := range p.Dispose {
		if at < 0 {
			continue
		}
		i, at := i, at
		simrt.GoNamed("disposer", func() {
			simrt.TimeSleep(ms(at))
			for k := simrt.Choose(10); k > 0; k-- {
				simrt.Gosched()
			}
			dispose(p.After[i], i)
		})
	}
	simrt.WaitQuiescent()
	if running > 0 {
		fail("q.hang", "a put never returned")
	}
	for i, at := range p.Dispose {
		if at < 0 {
			dispose(p.After[i], i)
			simrt.WaitQuiescent()
		}
	}
	seen := map[*qItem]bool{}
	for _, it := range got {
		ok, put := accepted[it]
		if !put {
			fail("q.alien", "the queue delivered something that was not put into it")
		}
		if !ok {
			fail("q.refuseddelivered", "a refused item was delivered | producer %d item %d", it.prod, it.seq)
		}
		if seen[it] {
			fail("q.twice", "an item was delivered twice | producer %d item %d", it.prod, it.seq)
		}
		seen[it] = true
	}
	for _, r := range puts {
		if r.ok && !seen[r.it] {
			fail("q.lost", "an accepted item was never delivered | producer %d item %d of %d accepted", r.it.prod, r.it.seq, len(accepted))
		}
	}
	if disposeEnd != 0 && !closed {
		fail("q.open", "the queue was disposed and is empty but its reader still waits")
	}
	if disposeStart == 0 && closed {
		fail("q.closed", "the queue was closed without disposal")
	}
	simrt.StatN("items", int64(len(got)))
}

var famQ = &Family{Name: "queue", Gen: genQ, New: func() any { return &QPlan{} }, Run: runQ, Tidy: func(x any) {
	p := x.(*QPlan)
	for len(p.After) < len(p.Dispose) {
		p.After = append(p.After, 0)
	}
	for i := range p.Prods {
		clamp(&p.Prods[i].N, 0, 400)
	}
}}

func init() {
	register(&Check{ID: "C15", Variants: []Variant{{F: famQ, Prof: "mix", Weight: 1, Steps: 200000}}, Accept: []string{"q."},
		Real:  "real iota code: internal/buffer.Unbounded",
		Stubs: "simulated: goroutine scheduling, sync, channels, clock; harness: producers, the reader, disposers",
		Rule:  "A run has one to four producers put items, one reader follow the receive-then-Load protocol with arbitrary delays, and none to two tasks dispose of the queue at arbitrary moments (also twice, also with late puts); every accepted item must come out exactly once, in its producer's order, refusals only after disposal, and the reader must then finish."})
}

//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/nanobus/iota/go/internal/verifsim/gspec"
	"github.com/nanobus/iota/go/internal/verifsim/simrt"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
)

type pl = payload.Payload

// body is the deterministic content of item i of stream (op, dir); every item of a run is different.
func body(op int, dir byte, i, size int) []byte {
	if size < 0 {
		size = 0
	}
	b := make([]byte, 8+size)
	b[0] = dir
	binary.BigEndian.PutUint16(b[1:], uint16(op))
	binary.BigEndian.PutUint32(b[3:], uint32(i))
	b[7] = 0x5A
	r := simrt.NewRand(uint64(op)<<40 ^ uint64(dir)<<32 ^ uint64(i))
	for j := 8; j < len(b); j += 8 {
		x := r.U64()
		for k := 0; k < 8 && j+k < len(b); k++ {
			b[j+k] = byte(x >> (8 * k))
		}
	}
	return b
}

func meta(op int, dir byte, i, size int) []byte {
	if size <= 0 {
		return nil
	}
	return body(op, dir|0x80, i, size)[8:]
}

func show(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x...(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// keep remembers bytes handed to the application, to be compared again at the end of the run.
type kept struct {
	what string
	live []byte
	copy []byte
}

var keptBytes []kept

func keep(what string, b []byte) {
	if len(b) == 0 {
		return
	}
	keptBytes = append(keptBytes, kept{what, b, append([]byte(nil), b...)})
}

func checkKept() {
	for _, k := range keptBytes {
		if !bytes.Equal(k.live, k.copy) {
			fail("own.changed", "bytes handed to the application changed later | %s: was %s, now %s", k.what, show(k.copy), show(k.live))
		}
	}
	if len(keptBytes) > 1 {
		simrt.StatN("payloads_retained_and_compared", int64(len(keptBytes)))
	}
}

func errText(op int, dir byte) string { return fmt.Sprintf("boom-%c-%d", dir, op) }

func errPad(op int, dir byte, pad int) string {
	return errText(op, dir) + strings.Repeat("x", max(0, pad))
}

// link is one direction of one stream: its producer and its consumer.
type link struct {
	name   string // for messages
	cls    string // violation class prefix
	op     int
	dir    byte
	N      int
	Err    bool
	ErrPad int
	Size   int
	Md     int
	echo   *link // items are those of another link, transformed
	by     *link // the link whose consumer drives this one's demand (nil: its own)

	// producer side
	PMode   int
	made    int
	reqSum  int64
	reqSeen bool // requests are observable
	emitted int
	cancels int
	ended   bool // the producer signalled its terminal
	subbed  bool
	sinkErr string

	// consumer side
	CMode                   int
	Page                    int
	Ext                     int
	CancelK                 int  // -1 never; cancel once k items have been seen
	CIn                     bool // from inside the callback
	granted                 int64
	items                   int
	terms                   []string
	finals                  []int
	sub                     gspec.Subscription
	cancelStart, cancelDone uint64
	afterCancel             int
	inCb                    int
	attached                bool
	stalled                 bool
	done                    bool
	awaited                 bool // followed by Async and Notify alone
	notifying               bool // has a Notify callback as well
	notified                []int
	resumed                 bool
	pdelay, cdelay          int
	raced                   bool // the cancel may overlap a delivery
	noDemand                bool
	bad                     bool  // the request is invalid
	peer                    *link // the other direction of a channel
	inGuest                 bool  // the producer runs inside a guest: only synchronous modes
	guestConsumer           bool
	big                     bool // items may be too large: the stream may end early with an error
	whenDone                func()
	doneTime                int64
}

const (
	pSync = iota
	pAsync
	pFromSlice
	pSliceResponse
	pPush
	pErrorFlux
	pEmptyNow
	pErrorNow
	pMapped
	pModes
)

func (l *link) item(i int) pl {
	return payload.New(body(l.op, l.dir, i, l.Size), meta(l.op, l.dir, i, l.Md))
}

func (l *link) emit(sink gspec.Sink, i int) {
	l.emitted++
	if l.reqSeen && int64(l.emitted) > l.reqSum {
		harness("%s emits more than requested", l.name)
	}
	simrt.Logf("%s: emit item %d", l.name, i)
	p := l.item(i)
	sink.Next(p.Data(), p.Metadata())
}

func (l *link) finish(sink gspec.Sink) {
	if l.ended {
		return
	}
	l.ended = true
	simrt.Logf("%s: producer ends (error=%v)", l.name, l.Err)
	if l.Err {
		sink.Error(errors.New(errPad(l.op, l.dir, l.ErrPad)))
	} else {
		sink.Complete()
	}
}

func (l *link) request(n int) {
	if n < 0 || n > math.MaxInt32 {
		fail("dem.value", "producer was asked for a nonsensical number of items | %s: Request(%d)", l.name, n)
	}
	l.reqSum += int64(n)
	g := l.driver().granted
	simrt.Logf("%s: producer asked for %d (total %d, granted %d)", l.name, n, l.reqSum, g)
	if l.reqSum > g && !l.noDemand {
		fail("dem.exceeded", "a producer was asked for more than its consumer requested | %s: asked for %d in total, consumer requested %d", l.name, l.reqSum, g)
	}
}

func (l *link) driver() *link {
	if l.by != nil {
		return l.by
	}
	return l
}

func (l *link) cancelled() {
	l.cancels++
	simrt.Logf("%s: producer cancelled", l.name)
	if l.cancels > 1 {
		fail("can.twice", "a producer's cancel callback ran more than once | %s", l.name)
	}
	if l.driver().cancelStart == 0 && !l.noCancelCheck() && !l.peerBroke() {
		fail("can.spurious", "a producer was cancelled although its consumer did not cancel | %s", l.name)
	}
}

// peerBroke tells whether the other direction of the channel was cancelled or failed, which may take this one along.
func (l *link) peerBroke() bool {
	p := l.peer
	return l.bad || l.big || p != nil && (p.cancelStart != 0 || p.big || p.Err && (p.ended || p.echo != nil))
}

func (l *link) noCancelCheck() bool { return l.noDemand || connTrouble(l.op) }

// flux builds the producer with the host's packages.
func (l *link) flux() flux.Flux[pl] {
	how, items, err := l.Produce()
	conv := func(in []gspec.Payload) []pl {
		var out []pl
		for _, p := range in {
			out = append(out, p)
		}
		return out
	}
	switch how {
	case "error":
		return flux.Error[pl](err)
	case "slice", "mapped":
		return flux.Map(flux.FromSlice(conv(items)), func(p pl) (pl, error) {
			l.Mapped()
			return p, nil
		})
	case "push":
		return l.push()
	default:
		return flux.Create(func(sink flux.Sink[pl]) {
			l.Source(gspec.Sink{
				OnSubscribe: func(request func(n int), cancel func()) {
					sink.OnSubscribe(flux.OnSubscribe{Request: request, Cancel: cancel})
				},
				Next:     func(data, md []byte) { sink.Next(payload.New(data, md)) },
				Complete: sink.Complete,
				Error:    sink.Error,
			}, func(items []gspec.Payload) func(n int) { return flux.SliceResponse(sink, conv(items)) })
		})
	}
}

// Produce implements gspec.Stream.
func (l *link) Produce() (how string, items []gspec.Payload, err error) {
	l.made++
	if l.PMode == pPush && (l.CMode != 0) {
		l.PMode = pAsync
	}
	if l.inGuest && (l.PMode == pPush || l.PMode == pAsync) {
		l.PMode = pSync
	}
	switch l.PMode {
	case pErrorFlux:
		l.N, l.Err, l.ended = 0, true, true
		return "error", nil, errors.New(errPad(l.op, l.dir, l.ErrPad))
	case pEmptyNow:
		l.N, l.Err = 0, false
	case pErrorNow:
		l.N, l.Err = 0, true
	case pFromSlice, pMapped:
		l.Err = false
		return "mapped", l.all(), nil
	case pSliceResponse:
		l.Err = false
	case pPush:
		return "push", nil, nil
	}
	return "source", nil, nil
}

func (l *link) all() []gspec.Payload {
	var s []gspec.Payload
	for i := 0; i < l.N; i++ {
		s = append(s, l.item(i))
	}
	return s
}

// Mapped is called for every item a slice producer emits.
func (l *link) Mapped() {
	l.emitted++
	if int64(l.emitted) > l.driver().granted && !l.noDemand {
		fail("dem.exceeded", "a producer emitted more than its consumer requested | %s: item %d, consumer requested %d", l.name, l.emitted, l.driver().granted)
	}
}

// push emits without waiting for demand.
func (l *link) push() flux.Flux[pl] {
	p := flux.NewProcessor[pl]()
	p.OnSubscribe(flux.OnSubscribe{Request: func(n int) {
		l.request(n)
		if l.subbed {
			return
		}
		l.subbed = true
		simrt.GoNamed("push "+l.name, func() {
			for i := 0; i < l.N && l.cancels == 0; i++ {
				if l.pdelay > 0 {
					simrt.TimeSleep(ms(simrt.Choose(l.pdelay + 1)))
				}
				simrt.Yield()
				if l.cancels > 0 {
					break
				}
				l.emitted++
				p.Next(l.item(i))
			}
			if l.cancels == 0 && !l.ended {
				l.ended = true
				if l.Err {
					p.Error(errors.New(errPad(l.op, l.dir, l.ErrPad)))
				} else {
					p.Complete()
				}
			}
		})
	}, Cancel: l.cancelled})
	return p
}

// Source implements gspec.Stream.
func (l *link) Source(sink gspec.Sink, slice func([]gspec.Payload) func(int)) {
	l.subbed = true
	switch l.PMode {
	case pEmptyNow, pErrorNow:
		l.finish(sink)
	case pSliceResponse:
		items := l.all()
		resp := slice(items)
		sink.OnSubscribe(func(n int) {
			l.request(n)
			if l.ended {
				return
			}
			k := len(items) - l.emitted
			if n < k {
				k = n
			}
			l.emitted += k
			if l.emitted == len(items) {
				l.ended = true
			}
			resp(n)
		}, l.cancelled)
	case pSync:
		busy := false
		var want int64
		sink.OnSubscribe(func(n int) {
			l.reqSeen = true
			l.request(n)
			want += int64(n)
			if busy {
				return
			}
			busy = true
			for want > 0 && l.emitted < l.N && l.cancels == 0 {
				want--
				l.emit(sink, l.emitted)
			}
			if l.emitted == l.N && l.cancels == 0 {
				l.finish(sink)
			}
			busy = false
		}, l.cancelled)
	default: // pAsync
		l.reqSeen = true
		sink.OnSubscribe(l.request, l.cancelled)
		simrt.GoNamed("produce "+l.name, func() {
			for l.emitted < l.N {
				simrt.Block("demand for "+l.name, func() bool { return l.reqSum > int64(l.emitted) || l.cancels > 0 })
				if l.pdelay > 0 {
					simrt.TimeSleep(ms(simrt.Choose(l.pdelay + 1)))
				}
				simrt.Yield()
				if l.cancels > 0 {
					return
				}
				l.emit(sink, l.emitted)
			}
			simrt.Yield()
			if l.cancels == 0 {
				l.finish(sink)
			}
		})
	}
}

// ---- consumer ----

const (
	cUnlimited = iota
	cPage      // OnRequest callback, Page items at a time
	cWindow    // NoRequest, manual window of Page items
	cStall     // asks for Page items, then nothing until main resumes it
	cModes
)

func (l *link) grant(s gspec.Subscription, n int) {
	if n <= 0 || s == nil {
		return
	}
	l.granted += int64(n)
	simrt.Logf("%s: consumer requests %d (total %d)", l.name, n, l.granted)
	s.Request(n)
}

func (l *link) onNext(p gspec.Payload) {
	simrt.Yield()
	if l.inCb > 0 {
		fail(l.cls+".overlap", "two signals were delivered at the same time | %s", l.name)
	}
	l.inCb++
	defer func() { l.inCb-- }()
	i := l.items
	l.items++
	simrt.Logf("%s: consumer got item %d", l.name, i)
	if len(l.terms) > 0 {
		fail(l.cls+".after_end", "an item arrived after the terminal signal | %s: item %d after %v", l.name, i, shorts(l.terms))
	}
	if l.cancelDone != 0 {
		l.afterCancel++
		if !l.raced || l.afterCancel > 1 {
			fail("can.item_after", "an item was delivered after the consumer had cancelled | %s: item %d, cancelled at item %d", l.name, i, l.CancelK)
		}
	}
	src := l
	if l.echo != nil {
		src = l.echo
	}
	want := body(src.op, src.dir, i, src.Size)
	if l.echo != nil {
		want = append([]byte{'!'}, want...)
	}
	if !bytes.Equal(p.Data(), want) {
		fail(l.cls+".item", "a stream item is wrong: lost, duplicated, out of order, foreign or corrupted | %s: item %d has data %s, want %s", l.name, i, show(p.Data()), show(want))
	}
	if !bytes.Equal(p.Metadata(), meta(src.op, src.dir, i, src.Md)) {
		fail(l.cls+".item", "a stream item is wrong: lost, duplicated, out of order, foreign or corrupted | %s: item %d has metadata %s, want %s", l.name, i, show(p.Metadata()), show(meta(src.op, src.dir, i, src.Md)))
	}
	keep(fmt.Sprintf("%s item %d data", l.name, i), p.Data())
	keep(fmt.Sprintf("%s item %d metadata", l.name, i), p.Metadata())
	if l.cdelay > 0 {
		simrt.TimeSleep(ms(simrt.Choose(l.cdelay + 1)))
	}
	if l.CIn && l.CancelK == l.items && l.CancelK > 0 {
		l.cancel()
		return
	}
	if l.CMode == cWindow && l.cancelStart == 0 {
		l.grant(l.sub, 1)
	}
	simrt.Yield()
}

func (l *link) term(s string) {
	simrt.Yield()
	simrt.Logf("%s: consumer got %s", l.name, short(s))
	if l.inCb > 0 && !(l.CIn && l.cancelStart != 0) {
		fail(l.cls+".overlap", "two signals were delivered at the same time | %s: %s", l.name, short(s))
	}
	if l.cancelDone != 0 {
		l.afterCancel++
		if !l.raced || l.afterCancel > 1 {
			fail("can.term_after", "a terminal signal was delivered after the consumer had cancelled | %s: %s", l.name, short(s))
		}
	}
	l.terms = append(l.terms, s)
	if len(l.terms) > 1 {
		fail(l.cls+".terms", "more than one terminal signal | %s: %v", l.name, shorts(l.terms))
	}
	l.done = true
}

func (l *link) cancel() {
	if l.cancelStart != 0 {
		return
	}
	sub := l.sub
	if sub == nil {
		return
	}
	l.cancelStart = simrt.Event()
	simrt.Logf("%s: consumer cancels", l.name)
	note("cancels")
	if len(l.terms) > 0 {
		note("cancels_after_end")
	}
	sub.Cancel()
	l.cancelDone = simrt.Event()
	simrt.Logf("%s: cancel returned", l.name)
}

// attach subscribes the consumer with the host's packages.
func (l *link) attach(f flux.Flux[pl]) { l.attachVia(f, viaSubscribe) }

// How a consumer follows a flux.
const (
	viaSubscribe = iota
	viaBlock     // Block, in the caller's task
	viaBefore    // Subscribe, with a Notify callback registered before
	viaAfter     // Subscribe, with a Notify callback registered afterwards
	viaAwait     // nothing but Async and a Notify callback, as an awaiting flow does
	vias
)

func (l *link) attachVia(f flux.Flux[pl], via int) {
	if via == viaAwait && (l.CMode != cUnlimited || l.CancelK >= 0 || l.Ext > 0 || l.whenDone != nil) {
		via = viaAfter
	}
	if via == viaAwait {
		simrt.Logf("%s: awaited", l.name)
		note("streams_awaited")
		l.awaited = true
		l.granted = math.MaxInt64 / 4
		if l.Page%2 == 0 {
			f.Notify(l.notify)
			f.Async()
		} else {
			f.Async()
			f.Notify(l.notify)
		}
		return
	}
	c := l.Consumer()
	sub := flux.Subscribe[pl]{
		OnNext:     func(p pl) { c.OnNext(p) },
		OnComplete: c.OnComplete,
		OnError:    c.OnError,
		Finally:    func(s rx.SignalType) { c.Finally(int(s)) },
		NoRequest:  c.NoRequest,
	}
	if c.OnRequest != nil {
		sub.OnRequest = func(s rx.Subscription) { c.OnRequest(s) }
	}
	switch {
	case via == viaBlock && c.After == nil:
		simrt.Logf("%s: the caller blocks", l.name)
		note("streams_blocked_on")
		err := f.Block(sub)
		simrt.Logf("%s: Block returned %v", l.name, err)
		want := ""
		if len(l.terms) == 1 && l.terms[0] != "complete" {
			want = l.terms[0]
		}
		got := ""
		if err != nil {
			got = "error " + err.Error()
		}
		if err != nil && len(l.finals) == 0 && len(l.terms) == 0 && l.items == 0 {
			// A flux that is nothing but an error returns it and leaves it at that.
			c.OnError(err)
			c.Finally(int(rx.SignalError))
			return
		}
		if len(l.finals) == 0 {
			fail(l.cls+".block", "Block on a stream returned before the stream had ended | %s: it returned %v", l.name, err)
		}
		if got != want {
			fail(l.cls+".block", "Block on a stream did not return how the stream ended | %s: it returned %q, the consumer saw %q", l.name, short(got), short(want))
		}
		return
	case via == viaBefore:
		l.notifying = true
		f.Notify(l.notify)
	}
	f.Subscribe(sub)
	if via == viaAfter {
		if simrt.ChooseP(0.3) {
			simrt.TimeSleep(ms(simrt.Choose(20)))
		}
		simrt.Yield()
		l.notifying = true
		f.Notify(l.notify)
	}
	if c.After != nil {
		c.After(f.Subscription())
	}
}

// notify is a callback registered with Notify.
func (l *link) notify(s rx.SignalType) {
	simrt.Yield()
	simrt.Logf("%s: notified of %v", l.name, s)
	l.notified = append(l.notified, int(s))
	if len(l.notified) > 1 {
		fail(l.cls+".notify", "a Notify callback of a stream ran more than once | %s: %v", l.name, l.notified)
	}
	if l.awaited {
		l.done = true
		l.doneTime = simrt.Now()
	}
}

// notifyVerdict: at rest, a stream that has ended has told so to those who wait for it.
func (l *link) notifyVerdict(loss bool) {
	if l.awaited {
		cls := l.cls
		if loss {
			cls = "loss"
		}
		if len(l.notified) == 0 {
			fail(cls+".notify", "whoever awaits a stream was never told of its end | %s: producer emitted %d of %d, ended=%v", l.name, l.emitted, l.total(), l.ended)
		}
		return
	}
	if !l.notifying || len(l.finals) == 0 {
		return
	}
	if len(l.notified) != 1 || l.notified[0] != l.finals[0] {
		fail(l.cls+".notify", "a Notify callback was not told once how the stream ended | %s: told %v, Finally got %v", l.name, l.notified, l.finals)
	}
}

// Consumer implements gspec.Stream.
func (l *link) Consumer() gspec.Consumer {
	l.attached = true
	sub := gspec.Consumer{
		OnNext:     func(p gspec.Payload) { l.onNext(p) },
		OnComplete: func() { l.term("complete") },
		OnError:    func(e error) { l.term("error " + e.Error()) },
		Finally: func(s int) {
			l.finals = append(l.finals, s)
			if len(l.finals) > 1 {
				fail(l.cls+".finally", "Finally ran more than once | %s: %v", l.name, l.finals)
			}
			l.done = true
			l.doneTime = simrt.Now()
			if l.whenDone != nil {
				l.whenDone()
			}
		},
	}
	if l.Page < 1 {
		l.Page = 1
	}
	switch l.CMode {
	case cUnlimited:
		// the default: unlimited demand, renewed whenever it is used up
		if l.CancelK >= 0 || l.Ext > 0 {
			sub.OnRequest = func(s gspec.Subscription) {
				l.sub = s
				l.grant(s, rx.RequestMax)
			}
		} else {
			l.granted = math.MaxInt64 / 4
		}
	case cPage:
		sub.OnRequest = func(s gspec.Subscription) {
			simrt.Yield()
			l.sub = s
			if l.cancelStart != 0 {
				return
			}
			l.grant(s, l.Page)
		}
	case cStall:
		sub.OnRequest = func(s gspec.Subscription) {
			simrt.Yield()
			first := l.sub == nil
			l.sub = s
			if first {
				l.grant(s, l.Page)
			} else if l.resumed {
				l.grant(s, l.Page)
			} else {
				l.stalled = true
			}
		}
	case cWindow:
		sub.NoRequest = true
	}
	if l.CIn && l.CancelK == 0 {
		// cancel right at subscription
		if l.dir == 'i' { // the other direction may be ending this one at the same time
			l.raced = true
		}
		old := sub.OnRequest
		sub.OnRequest = func(s gspec.Subscription) {
			l.sub = s
			if l.cancelStart == 0 {
				l.cancel()
				return
			}
			if old != nil {
				old(s)
			}
		}
		if l.CMode == cWindow {
			sub.NoRequest = false
		}
	}
	ext := l.Ext
	if ext > 0 {
		simrt.GoNamed("extra demand "+l.name, func() {
			simrt.Block("subscription of "+l.name, func() bool { return l.sub != nil || l.done })
			for i := 0; i < ext && l.cancelStart == 0; i++ {
				if simrt.ChooseP(0.5) {
					simrt.TimeSleep(ms(simrt.Choose(8)))
				}
				simrt.Yield()
				if l.cancelStart == 0 && l.sub != nil {
					if l.Page > 100 {
						l.grant(l.sub, l.Page)
					} else {
						l.grant(l.sub, 1+i%3)
					}
				}
			}
		})
	}
	if l.CancelK >= 0 && !l.CIn {
		l.raced = true
		simrt.GoNamed("cancel "+l.name, func() {
			simrt.Block("items before cancel of "+l.name, func() bool { return (l.sub != nil && l.items >= l.CancelK) || l.done })
			if simrt.ChooseP(0.3) {
				simrt.TimeSleep(ms(simrt.Choose(30)))
			}
			simrt.Yield()
			l.cancel()
		})
	}
	if l.CMode == cWindow && !(l.CIn && l.CancelK == 0) {
		sub.After = func(s gspec.Subscription) {
			l.sub = s
			l.grant(s, l.Page)
		}
	}
	return sub
}

// resume lets a stalled consumer go on; the caller waits for quiescence afterwards.
func (l *link) resume() bool {
	if l.CMode != cStall || l.resumed || l.sub == nil || l.done || l.cancelStart != 0 {
		return false
	}
	l.resumed = true
	note("resumed_after_stall")
	l.grant(l.sub, l.N+2)
	return true
}

func (l *link) wantTerm() string {
	src := l
	if l.echo != nil {
		src = l.echo
	}
	if src.Err {
		return "error " + errPad(src.op, src.dir, src.ErrPad)
	}
	return "complete"
}

func (l *link) total() int {
	if l.echo != nil {
		return l.echo.N
	}
	return l.N
}

// stallCheck: at quiescence everything granted so far must have been delivered.
func (l *link) stallCheck() {
	if !l.attached || l.done || l.cancelStart != 0 || l.peerBroke() || l.CMode != cStall || l.resumed {
		return
	}
	want := int64(l.total())
	if l.granted < want {
		want = l.granted
	}
	if int64(l.items) < want {
		fail("dem.lost", "demand granted by a consumer never reached the producer | %s: %d requested, %d of %d items delivered at rest (producer was asked for %d)", l.name, l.granted, l.items, l.total(), l.reqSum)
	}
}

// verdict judges a stream at rest on a healthy connection.
func (l *link) verdict() {
	l.notifyVerdict(false)
	if !l.attached {
		if l.awaited && !l.big && (l.echo == nil || !l.echo.big) {
			want, got := rx.SignalComplete, rx.SignalType(l.notified[0])
			if l.wantTerm() != "complete" {
				want = rx.SignalError
			}
			if got != want {
				fail(l.cls+".notify", "whoever awaits a stream was told the wrong end | %s: %v, not %v", l.name, got, want)
			}
			if want == rx.SignalComplete && l.echo == nil && l.PMode != pFromSlice && l.PMode != pSliceResponse && l.PMode != pMapped && l.emitted != l.N {
				fail(l.cls+".notify", "an awaited stream was over before its producer had ended | %s: %d of %d items made", l.name, l.emitted, l.N)
			}
		}
		return
	}
	src := l
	if l.echo != nil {
		src = l.echo
	}
	if l.cancelStart != 0 {
		if src.made > 0 && src.subbed && !src.ended && src.cancels == 0 && l.echo == nil && src.PMode != pFromSlice && src.PMode != pMapped {
			fail("can.lost", "the producer of a cancelled stream was not told | %s: cancelled after %d items, producer emitted %d of %d and still waits", l.name, l.items, src.emitted, src.N)
		}
		if len(l.finals) != 1 {
			fail("can.finally", "a cancelled stream did not report exactly one end to its consumer | %s: Finally ran %d times", l.name, len(l.finals))
		}
		return
	}
	if len(l.terms) == 0 && len(l.finals) == 0 {
		cls := l.cls + ".silent"
		if l.granted > src.reqSum && src.reqSeen && !src.ended {
			cls = "dem.lost"
			fail(cls, "demand granted by a consumer never reached the producer | %s: %d requested, producer was asked for %d, delivered %d of %d", l.name, l.granted, src.reqSum, l.items, l.total())
		}
		fail(cls, "a stream got no terminal signal | %s: %d of %d items, want %q; producer emitted %d, ended=%v", l.name, l.items, l.total(), short(l.wantTerm()), src.emitted, src.ended)
	}
	if l.big || src.big {
		simrt.Stat("oversized_streams")
		if len(l.terms) == 1 && strings.HasPrefix(l.terms[0], "error ") && len(l.finals) == 1 {
			return
		}
	}
	if l.items != l.total() {
		fail(l.cls+".item", "a stream item is wrong: lost, duplicated, out of order, foreign or corrupted | %s: %d items delivered, %d emitted, then %v", l.name, l.items, l.total(), shorts(l.terms))
	}
	if len(l.terms) != 1 || !sameTerm(l.terms[0], l.wantTerm()) {
		fail(l.cls+".term", "a stream ended with the wrong terminal signal | %s: got %v, want %q", l.name, shorts(l.terms), short(l.wantTerm()))
	}
	if len(l.finals) != 1 {
		fail(l.cls+".finally", "Finally did not run exactly once | %s: %v", l.name, l.finals)
	}
}

func short(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%s...(%d bytes)", s[:40], len(s))
	}
	return s
}

func shorts(s []string) []string {
	var r []string
	for _, x := range s {
		r = append(r, short(x))
	}
	return r
}

func sameTerm(got, want string) bool {
	if got == want {
		return true
	}
	if strings.HasPrefix(got, "error ") && strings.HasPrefix(want, "error ") {
		return strings.Contains(got, strings.TrimPrefix(want, "error "))
	}
	return false
}

// lossVerdict judges a stream at rest whose connection broke.
func (l *link) lossVerdict() {
	l.notifyVerdict(true)
	if !l.attached || l.cancelStart != 0 {
		return
	}
	if len(l.terms) == 0 {
		fail("loss.silent", "the connection is gone but a stream was never ended | %s: %d items, no terminal signal", l.name, l.items)
	}
	t := l.terms[0]
	if t == "complete" && (l.items != l.total() || l.wantTerm() != "complete") {
		fail("loss.complete", "a stream cut off by the loss of its connection was reported as complete | %s: %d of %d items", l.name, l.items, l.total())
	}
	if len(l.finals) > 1 {
		fail("loss.twice", "Finally ran more than once | %s", l.name)
	}
}

//go:build go1.22

package main

// The rx programs run over both builds of rx: the host's and, inline, a WebAssembly guest's. The g_ names are those of
// the copies that simgen makes of the rig files for the guest build.

func init() {
	register(&Check{ID: "C16", Variants: []Variant{{F: famFlux, Prof: "mix", Weight: 85, Steps: 100000}, {F: g_famFlux, Prof: "guest", Weight: 15, Steps: 100000}}, Accept: []string{"flux."},
		Real:  "real iota code: rx/flux (Create, FromSlice, SliceResponse, Error, Processor, Map, Block), rx, as built for the host and for a WebAssembly guest",
		Stubs: "simulated: goroutine scheduling, sync, channels, clock; harness: sources, subscribers",
		Rule:  "A run has one flux of one of eight kinds of source (task-driven, emitting inside Request, FromSlice, SliceResponse, Error, Processor used before and after the subscription, eager, late), up to two Map stages that may fail at an item, a subscriber through Subscribe or Block with unlimited, paged or external demand from several tasks, a cancel at an arbitrary moment, Notify callbacks at arbitrary moments; signals are checked as they come and against the program at rest."})
	register(&Check{ID: "C17", Variants: []Variant{{F: famMono, Prof: "mix", Weight: 88, Steps: 50000}, {F: g_famMono, Prof: "guest", Weight: 12, Steps: 50000}}, Accept: []string{"mono."},
		Real:  "real iota code: rx/mono (Just, Error, Create, Processor, Map, Block, Get), rx, as built for the host and for a WebAssembly guest",
		Stubs: "simulated: goroutine scheduling, sync, channels, clock; harness: sources, subscribers",
		Rule:  "A run has one mono of one of five kinds of source (Just, Error, settled while being subscribed to, settled by a task, Processor settled before, during or after the subscription), possibly with a second outcome that must not count or two outcomes racing, up to two Map stages that may fail, one subscription through Subscribe or Block, Notify callbacks registered at arbitrary moments, Get inside them and at rest, Block at rest; every report must be the one outcome."})
	register(&Check{ID: "C18", Variants: []Variant{{F: famFlow, Prof: "mix", Weight: 85, Steps: 50000}, {F: g_famFlow, Prof: "guest", Weight: 15, Steps: 50000}}, Accept: []string{"flow."},
		Real:  "real iota code: rx/flow, rx/await, rx/mono, rx/flux, rx, as built for the host and for a WebAssembly guest",
		Stubs: "simulated: goroutine scheduling, sync, channels, clock; harness: steps, awaitables, observers",
		Rule:  "A run has one flow, with a mono or a flux as its result, of up to six steps awaiting up to five things each, of eleven kinds: complete already, inside Async, inside Notify, or by tasks at arbitrary moments around the registration; steps go on, fail, end the flow or give its result, and a task may end the flow while the step waits. Each start of a step is checked for order, overlap, open awaitables and an end before it, the result against what the steps gave, and at rest that no flow is stuck."})
}

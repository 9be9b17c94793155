#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": " ".join(qtext.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe or [], "hook_needed": hook}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

H="go/handler/handler.go"; HC="go/handler/caller.go"; PF="go/proxy/flux.go"; PM="go/proxy/mono.go"; PL="go/proxy/lookup.go"
TR="go/transport/rsocket/transport.go"; TC="go/transport/rsocket/tcp_conn.go"; TT="go/transport/rsocket/tcp_transport.go"; TD="go/transport/rsocket/decoder.go"
FX="go/rx/flux/flux.go"; FXH="go/rx/flux/flux_host.go"; FXP="go/rx/flux/processor.go"; MO="go/rx/mono/mono.go"; MOH="go/rx/mono/mono_host.go"; MOP="go/rx/mono/processor.go"
HI="go/transport/wasmrs/host/instance.go"; HCA="go/transport/wasmrs/host/caller.go"; GG="go/transport/wasmrs/guest/guest.go"; GC="go/transport/wasmrs/guest/caller.go"; ME="go/transport/wasmrs/mesh/mesh.go"
UB="go/internal/buffer/unbounded.go"; IV="go/invoke/handlers.go"; LI="go/invoke/instances.go"; SI="go/internal/socket/stream_id.go"

NOUNIT="The repository has no test of this component: its 19 tests cover the buffer, u24, stream ids, frame codecs and msgpack one call at a time in one goroutine."

prop("C01","RSocket frames from concurrent senders arrive whole, unmixed and in order",
 """Whatever a peer receives on an RSocket TCP connection is exactly the sequence of frames that were successfully sent on it: no matter how many goroutines send on the connection at once, every frame arrives whole with the stream, type, flags, metadata and data it was sent with, nothing is lost, duplicated or mixed into another frame.
 Frames sent by one goroutine arrive in the order it sent them, and a frame whose send was reported as successful is on its way without waiting for a later send.""",
 ["schedules","inputs","histories"],"every interleaving of any number of senders with each other and with the network taking the bytes in pieces; every frame kind, payload size and metadata size up to the frame limit",
 NOUNIT+" Interleavings inside a buffered write need a controlled scheduler.",
 [TC,TR],[("TCPConn.Write/Flush over one bufio.Writer",TC),("Transport.Send",TR)],["Transport.Send","peer's frame handler"])

prop("C02","Payload bytes handed to the application never change afterwards",
 """The metadata and data of any payload delivered to a request handler, a subscriber or a caller stay exactly the bytes the sender put there, for as long as the application keeps them, whatever else the connection or module instance receives or sends later.""",
 ["schedules","inputs","histories"],"every interleaving of the receive loop with the dispatch of earlier frames and with later traffic, every frame size, RSocket and wasmRS",
 NOUNIT+" Buffer reuse shows only when dispatch lags behind the reader.",
 [TC,TD,TR,HI,GG],[("frame buffers of the decoder and of the receive queue",TD),("receive buffer pool",HI),("RequestPayload/Payload Decode aliasing","go/internal/frames/payload.go")],["request handlers","OnNext/OnSuccess subscribers"])

prop("C03","Frame boundaries do not depend on how the byte stream is segmented",
 """The frames dispatched from an RSocket connection depend only on the bytes received, not on how the network splits, merges or delays them: every frame whose last byte arrived is dispatched exactly once and in order, including those that arrive in the same read as the end of the stream.
 An incomplete trailing frame is never dispatched.""",
 ["schedules","inputs","fault_sequences"],"every segmentation, delay and truncation point of every frame sequence, end of stream signalled together with or after the last bytes",
 NOUNIT+" No test reads from a segmented stream.",
 [TD,TC,TR,UB],[("doSplit / LengthBasedFrameDecoder",TD),("Start read loop and frame queue",TR)],["frame handler of the receiving transport"])

prop("C04","Malformed or hostile wire input never takes the process down",
 """No byte sequence a peer can send over an RSocket connection makes the receiving process panic or hang; at worst that one connection is closed.
 Other connections to the same server keep being served correctly.""",
 ["inputs","fault_sequences","schedules"],"every byte sequence: truncated, bit-flipped, reordered or invented frames, wrong stream ids, frames that are illegal in the state of the stream, on otherwise healthy traffic",
 "Codec tests only decode what the codec encoded; nothing feeds corrupt frames or illegal sequences.",
 [TC,TD,H,"go/internal/frames/payload.go","go/internal/frames/request_payload.go","go/internal/frames/request_n.go","go/internal/frames/error.go"],
 [("frame Decode functions","go/internal/frames/"),("Handler.HandleFrame",H),("Transport.Start error handling",TR)],["process liveness","calls on other connections"])

prop("C05","Every request/response call gets exactly one outcome, and its own",
 """Every request/response call over RSocket ends exactly once: with the payload its handler produced for that very request, or with the handler's error message, never with another request's answer, a second outcome, or silence while the connection is up.
 The handler runs exactly once per call with the data and metadata the caller sent, in both directions of the connection.""",
 ["schedules","inputs","histories"],"every number of concurrent callers on both peers, handler completion order (synchronous, asynchronous, out of order) and network timing",
 NOUNIT,[H,HC,PM,PL,MOP,MOH],[("stream id correlation through Lookup",PL),("handleRequestResponse",H),("streamMono",PM)],["mono Block/Subscribe at the caller","handler invocations"])

prop("C06","Request streams deliver every item once, in order, then one terminal signal",
 """A request/stream subscriber sees exactly the items the handler's flux emitted, each once and in emission order, followed by exactly one terminal signal that matches how the flux ended (completion, or its error message), and nothing after it.
 A handler's flux that fails immediately, is empty, or ends before any demand is granted still terminates the call.""",
 ["schedules","inputs","histories"],"every number of concurrent streams and items, synchronous and asynchronous producers, every interleaving of producer, dispatch and demand",
 NOUNIT,[H,PF,FX,FXH,FXP],[("handleRequestStream",H),("streamFlux over flux.Processor",PF),("flux subscriber",FX)],["OnNext/OnComplete/OnError/Finally at the subscriber"])

prop("C07","Stream demand is honoured: never exceeded and never lost",
 """Over a connection a producer is never asked for more items than its consumer has requested in total, and so a handler that emits only what it is asked for never sends more.
 Every item of demand a consumer grants reaches the producer, whenever it is granted: a consumer that keeps requesting always gets the whole stream.""",
 ["schedules","inputs","histories"],"every pattern of request(n) calls, including before the response stream has started, concurrently with emission and with other streams, in both directions of a channel",
 NOUNIT+" Demand accounting is wrong only under particular interleavings of grant and emission.",
 [H,PF,FX,FXH],[("RequestN frames and requestStream.DoRequest",H),("subscriber.n and doRequest",FXH),("streamFlux.Request",PF)],["Request(n) callbacks at the producer","items at the consumer"])

prop("C08","Request channels carry both directions independently and completely",
 """On a request/channel each direction delivers its items exactly once and in order and ends with its own terminal signal.
 Completion of one direction leaves the other working, demand included, until it ends by itself; an error in either direction, or from the handler, reaches the peer.""",
 ["schedules","inputs","histories"],"every item count and demand pattern on each direction, every relative order of the two completions, synchronous and asynchronous handlers",
 NOUNIT,[H,PF,FX],[("handleRequestChannel",H),("streamFlux input subscription and DoRequest",PF)],["handler's input flux","caller's output flux"])

prop("C09","Cancelling a stream stops its producer and disturbs nothing else",
 """After a consumer cancels a stream it receives no further items or terminal signals from it beyond its cancel notification, the producer's cancel callback runs once, and the connection and every other stream carry on.
 This holds whenever the cancel is issued: before the first item, between items, while the stream is completing, or after it ended.""",
 ["schedules","inputs","histories"],"every cancel point relative to the request, its items and its completion; cancelling either direction of a channel",
 NOUNIT,[H,PF,FX],[("Cancel frame handling in HandleFrame",H),("streamFlux.Cancel",PF),("subscriber.Cancel",FX)],["subscriber callbacks after cancel","producer OnSubscribe.Cancel","other streams"])

prop("C10","A failing request fails alone, with its own error",
 """A request that names an unknown operation, carries too little metadata, is answered with an error or fails part-way produces an error at its own caller with the responder's message, and has no effect on any other request, stream or the connection.
 A fire-and-forget runs its handler exactly once with the bytes sent and can never disturb the connection, even when it is invalid.""",
 ["inputs","schedules","histories"],"every mix of valid and failing requests of the four kinds, in every order and interleaving, on both peers",
 NOUNIT,[H,PF,PM,FX],[("checkMetadata / not_found Error frames",H),("error flux and mono",FX)],["caller's OnError","other concurrent calls"])

prop("C11","Losing the connection ends every pending request with an error",
 """When an RSocket connection ends, for whatever reason and at whatever byte, every request still pending on it is terminated exactly once with an error, on both peers; input streams being consumed by handlers are terminated too.
 Requests made on a dead connection fail instead of waiting for ever.""",
 ["crash_points","fault_sequences","schedules"],"every instant and byte offset at which the connection is closed, reset or half-closed by either side or the network, relative to any set of in-flight requests",
 NOUNIT+" No test ever drops a connection.",
 [TR,H,PF,PM],[("Transport.Start exit path",TR),("Handler.Close",H)],["callers blocked on pending requests","Start's return"])

prop("C12","Server and client shut down cleanly on Close or context cancellation",
 """After a server is closed or its context is cancelled, at any moment of its life, Listen returns, the listener and every accepted connection are closed and no new connection is served; a client transport whose context is cancelled or which is closed returns from Start.
 A connection that has ended is forgotten by the server.""",
 ["schedules","crash_points","histories"],"every moment of close or cancel relative to listen, accept, connection set-up and traffic, repeated and concurrent closes, accept errors",
 NOUNIT,[TT,TR],[("tcpServerTransport.Listen/Close/putTransport",TT),("Transport.Start",TR)],["Listen and Start returns","peer connections seeing end of stream","goroutines left behind"])

prop("C13","Finished streams leave no trace and late frames are ignored",
 """Once a request has ended, both peers have released everything they held for it, so a connection or wasm instance that has served any number of requests and is idle holds no stream state.
 A frame that arrives for a stream that has ended or never existed is ignored and has no effect on other streams or the connection.""",
 ["histories","schedules"],"every history of requests of the four kinds ending by completion, error, cancel or failure, followed by late or stray frames",
 NOUNIT+" Leaks need long histories; stray frames need races between the two peers.",
 [H,PL,PF,PM,"go/transport/wasmrs/host/instance.go","go/transport/wasmrs/guest/guest.go"],[("Lookup Add/Get/Remove",PL),("removeStream calls",H)],["stream table size","continued service after stray frames"],
 [("guestStreams/hostStreams","live streams of one connection",H)])

prop("C14","Stream ids are unique, non-zero and of the peer's parity",
 """Every request opened on a connection gets a stream id different from those of all other requests opened by either peer in the same id cycle, never zero, odd on the client/guest side and even on the server/host side, under any concurrency and across wrap-around of the id space.""",
 ["schedules","inputs"],"every number of concurrent requesters and every starting position of the id counter including the wrap-around of 31-bit ids",
 "The existing test calls Next a few times from one goroutine near the start of the sequence.",
 [SI,HC,HCA,GC],[("ServerStreamIDs/ClientStreamIDs atomic counter",SI)],["stream ids on the wire"])

prop("C15","The unbounded queue loses, duplicates and reorders nothing, and ends",
 """Items put in the unbounded queue by one producer come out exactly once and in order, a put is refused only after disposal, every accepted item is still delivered after disposal, and then the channel is closed so that the reader finishes.""",
 ["schedules","histories"],"every interleaving of puts, loads, reads and disposal by concurrent goroutines",
 "The existing test reads and writes with free-running goroutines and checks only the sum, and never disposes concurrently.",
 [UB],[("Unbounded Put/Load/Dispose",UB)],["values received from Get","closing of the channel"])

prop("C16","Flux signals follow the reactive-stream protocol",
 """Every subscription to a flux gets the emitted items in order, at most one terminal signal, and nothing after it; Finally runs exactly once after the terminal signal or cancel with the matching signal, Notify callbacks run exactly once whether registered before or after the end, Map applies its function to every item and turns its failure into the only terminal signal, and Block returns once the flux has ended, with its error.
 Requested demand reaches the source exactly, also when requests come from several goroutines while items are emitted.""",
 ["schedules","inputs","programs"],"every flux built from Create, Error, FromSlice, Processor and Map, every subscriber behaviour (paging, cancel, unbounded), every interleaving of request, emission, completion and registration",
 NOUNIT,[FX,FXH,FXP,"go/rx/flux/slice.go","go/rx/flux/response.go"],[("subscriber Next/Complete/Error/Request/Cancel",FX),("Block",FXH),("mapper",FX)],["subscriber callbacks","Block result","source Request/Cancel callbacks"])

prop("C17","Mono signals exactly one outcome to every observer",
 """A mono delivers exactly one of success or error to its subscriber, then Finally once with the matching signal; Notify callbacks run exactly once whether registered before or after the outcome; Block and Get return that same outcome, and Map transforms the value or turns its own failure into the error.
 A processor completed before, during or after subscription delivers its outcome all the same.""",
 ["schedules","inputs","programs"],"every mono built from Just, Error, Create, Processor and Map, every interleaving of completion with subscription, blocking and registration",
 NOUNIT,[MO,MOH,MOP],[("subscriber Success/Error",MO),("ProcessorImpl",MOP),("Block",MOH)],["OnSuccess/OnError/Finally/Notify","Block and Get"])

prop("C18","Flow runs each step once, in order, after what the previous step awaits",
 """A flow runs its steps in order and each exactly once; a step starts only after every awaitable returned by the step before it has completed; and the flow's result is signalled exactly once.
 This holds whether awaitables are already complete, complete synchronously, or complete concurrently from several goroutines, and after an error or End no further step runs.""",
 ["schedules","inputs","programs"],"every list of steps and awaitables with every completion timing and interleaving",
 NOUNIT,["go/rx/flow/flow.go","go/rx/await/await.go"],[("next/check",  "go/rx/flow/flow.go")],["step invocations","result mono/flux"])

prop("C19","wasmRS calls between host and guest are delivered intact, once and in order",
 """Every request of the four kinds between a wasmRS host and a guest, in either direction, is served exactly once by the operation it names with the bytes sent, and its items and terminal signal come back complete, in order and to the right caller, however frames are batched into the shared buffers.
 An unknown operation or a handler error reaches the caller as an error. A host holds any number of modules and instances at a time, each served as if it were alone.""",
 ["schedules","inputs","histories"],"every number of instances and concurrent callers, payload sizes that fit the buffers, batching patterns of the shared buffers, nested guest-to-host calls",
 "The wasmRS packages have only benchmarks that need a compiled wasm module; none runs here.",
 [HI,HCA,GG,GC,PF,PM],[("sendLoop batching",HI),("hostSend/recvLoop",HI),("GuestSend/doSendFrame",GG)],["handlers on both sides","callers on both sides"])

prop("C20","A frame too large for the shared wasm buffers fails alone and corrupts nothing",
 """A payload of any size passed to a wasmRS call or returned by a handler either arrives intact or makes that one call end with an error; it never crashes the host, never makes the host read outside the guest's buffer, and never corrupts or blocks other calls.""",
 ["inputs","schedules"],"every payload and metadata size around and above the shared buffer sizes, in requests, responses and stream items, in either direction, mixed with other traffic",
 "No test drives the shared buffers at all.",
 [HI,GG],[("sendLoop buffer-full test",HI),("doSendFrame",GG),("hostSend length parsing",HI)],["call outcomes","memory ranges read by the host"])

prop("C21","Host and guest never deadlock, however much traffic is in flight",
 """Whatever number of requests and stream items are in flight between a wasmRS host and its guest, in either direction and nested, every call makes progress and completes: bursts beyond any internal queue length only slow things down.""",
 ["schedules","inputs"],"every burst size on both sides and every interleaving of callers, send loop, receive loop and guest execution",
 "No test drives more than one request at a time, and the deadlock needs both queues full.",
 [HI],[("sendCh/recvCh queues, sendLoop and recvLoop",HI)],["completion of every call"])

prop("C22","Closing a module instance is safe at any moment and ends pending calls",
 """A wasmRS instance can be closed at any moment, also twice or while calls are being made or answered, without a panic; every call pending on it ends exactly once with an error, and calls made after the close fail promptly.""",
 ["schedules","crash_points","histories"],"every moment of close relative to in-flight calls of all kinds, queued frames and guest execution",
 "No test closes an instance.",
 [HI],[("Instance.Close, SendFrame, sendLoop, recvLoop",HI)],["call outcomes after close","process liveness"])

prop("C23","The mesh links imports to exports in any load order and follows reloads",
 """Once modules are loaded, in any order, every import that some loaded module exports is callable and reaches that export; after a module is reloaded, calls from other modules and from the mesh reach the new instance, and keep working after the old instance has been closed.
 Calls to operations nobody exports fail with an error.""",
 ["histories","schedules","configurations"],"every set of modules and every order of loading, reloading and calling, including calls across the five-second grace period and failing loads",
 "The mesh has no test; it needs compiled modules and real time.",
 [ME,HI],[("linkOperations/linkOperation/unsatisfied",ME),("delayed close in LoadModule",ME)],["results of calls through imports and through the mesh"])

prop("C24","Operation registration is safe and stable under concurrency",
 """Exporting and importing operations from any number of goroutines while requests are being served loses nothing: every registered operation is reachable under its own index with its own handler, importing the same name twice gives the same index, different names get different indexes, and the operation list agrees.""",
 ["schedules","histories"],"every interleaving of registrations, imports, lookups and listings",
 "No test registers operations, and none uses more than one goroutine.",
 [IV],[("global handler tables",IV)],["GetXxxHandler","GetOperations","ImportXxx results"])

prop("C25","Live-instance handles are unique and valid exactly until removed",
 """Each stored instance has its own handle, looking it up returns that instance until it is removed, removal returns it exactly once, and afterwards lookups report absence, for any concurrent use.""",
 ["schedules","histories"],"every interleaving of Put, Get and Remove, including handles of removed instances",
 "No test covers it; linearizability is a property of concurrent histories.",
 [LI],[("LiveInstances under its RWMutex",LI)],["results of Get/Put/Remove"])

prop("C26","Nested calls run in the context of the call that made them",
 """A call a guest makes while serving a call, naming it as parent, runs its host handler with the context the original caller supplied; calls without a live parent run with a valid background context, never with another caller's.""",
 ["schedules","histories"],"every nesting and interleaving of concurrent host-to-guest calls with distinct contexts and guest-to-host calls made by their handlers",
 "No test drives nested calls.",
 [HI,H,"go/proxy/stream.go"],[("parent stream id lookup",HI),("proxy.WithContext/FromContext","go/proxy/stream.go")],["context values seen by handlers"])

# Pure, sequential parts: listed for completeness, outside the reach of this technique.
prop("C27","UUIDs are never made twice, whatever the concurrency, randomness or clock",
 """Every random UUID handed out, with or without the randomness pool and from any number of goroutines, is a version 4 UUID made of bytes that the randomness source really gave and that no other UUID contains; when the source fails only the calls that needed it fail, and nothing stays blocked. Readings of the UUID clock never repeat a pair of time and clock sequence, however the wall clock is set.""",
 ["schedules", "histories", "fault_sequences"],"every interleaving of the makers of UUIDs, every sequence of short, slow and failing reads of the source, every sequence of jumps of the wall clock, the pool switched on or off between phases",
 "The module has no test at all; reuse of random bytes needs a refill of the pool at a particular moment, a repeated clock reading needs two calls within 100 ns or a clock that goes back.",
 ["go/types/uuid/version4.go", "go/types/uuid/time.go", "go/types/uuid/uuid.go", "go/types/uuid/util.go"],[["randomness pool under poolMu", "go/types/uuid/version4.go"], ["lasttime and clockSeq under timeMu", "go/types/uuid/time.go"]],["UUIDs and errors returned", "what the reader given to SetRand handed out", "GetTime results"])

WS="rust/crates/wasmrs/src/socket.rs"; RXR="rust/crates/wasmrs-rx/src/flux/receiver.rs"; RXF="rust/crates/wasmrs-rx/src/flux.rs"; RRT="rust/crates/wasmrs-runtime/src/runtime.rs"
RGG="rust/crates/wasmrs-guest/src/guest.rs"; RGS="rust/crates/wasmrs-guest/src/server.rs"; RHH="rust/crates/wasmrs-host/src/host.rs"; RHC="rust/crates/wasmrs-host/src/context.rs"
WEP="rust/crates/wasmrs-wasmtime/src/engine_provider.rs"; WME="rust/crates/wasmrs-wasmtime/src/memory.rs"; WWW="rust/crates/wasmrs-wasmtime/src/wasmrs_wasmtime.rs"; WST="rust/crates/wasmrs-wasmtime/src/store.rs"
RFR="rust/crates/wasmrs/src/frames/mod.rs"; ROP="rust/crates/wasmrs/src/operations.rs"
RUST="The Rust crates' tests run one call at a time on an echo server without faults (and their wasm tests need modules and an engine that are not here)."

prop("C28","Rust: each request/response and fire-and-forget gets its own single outcome",
 """However many request/response and fire-and-forget calls are under way at once on a Rust wasmRS socket, from either side and from any number of tasks, each request reaches the handler of the operation it named exactly once with the metadata and data it was sent with, and each request/response call gets exactly one outcome: its own response, unchanged, or its own handler's error.
 A call of an operation nobody exports, or with metadata the other side cannot read, fails with an error; a guest's call of its host, which has no handlers, fails too; a fire-and-forget call's outcome does not wait for its handler. No call waits for ever once its handler has finished, and no call is mixed up with another.""",
 ["schedules","inputs","histories"],"every interleaving of callers, frame writers, handlers and pool tasks on both sides, whichever order handlers finish in; every payload and metadata size that fits the buffers",
 RUST+" Whether two calls can be mixed up depends on the order of map, channel and task operations that no test controls.",
 [WS,RGG,RGS,RHH,ROP],[("handlers map and stream ids",WS),("on_request_response/on_request_fnf/on_payload/on_error",WS),("operation index to handler",RGS),("OperationList lookup",ROP)],["Mono returned by request_response and fire_and_forget","payload each handler receives"])

prop("C29","Rust: a stream delivers its elements in order, then ends exactly once",
 """The caller of a request/stream on a Rust wasmRS socket receives exactly the elements its handler produced, unchanged and in the order they were produced, then exactly one end: complete if the handler completed the stream, the handler's error if it failed, and nothing after that. Nothing is sent on the stream after its end. An element is delivered without waiting for later ones; a stream whose handler refuses it ends with that error, also for an operation that does not exist.""",
 ["schedules","inputs","histories"],"every interleaving of producers, frame writers, consumers and other calls; every sequence of elements, pauses and way of ending",
 RUST+" The existing stream test reads two elements of an echo and never looks at the end.",
 [WS,RXF,RXR,RGS],[("on_request_stream",WS),("on_payload, on_error",WS),("Flux/FluxReceiver",RXF),("request_stream dispatch",RGS)],["FluxReceiver returned by request_stream","frames given to the writer"])

prop("C30","Rust: each direction of a channel delivers in order and ends by itself",
 """On a request/channel of a Rust wasmRS socket the handler receives exactly the elements its caller fed in, and the caller exactly those the handler produced, each direction unchanged and in order, then that direction's own single end of the same kind (complete or error); one direction's end leaves the other one going.
 Elements flow while both directions are open, whichever is slower. A channel whose input ends or fails before its first element fails for the caller. When the handler lets go of its input the caller's producer finds out, and when the caller lets go of the output the handler's producer does, at its next element at the latest.""",
 ["schedules","inputs","histories"],"every interleaving of both producers, both consumers, frame writers and RequestN frames; every sequence of elements in each direction, every way and order of ending",
 RUST+" The existing channel test echoes two elements and never looks at either end.",
 [WS,RXF,RXR,RGS],[("request_channel pump with RequestN credit",WS),("on_request_channel, on_request_n",WS),("request_channel dispatch",RGS)],["FluxReceiver returned by request_channel","FluxReceiver given to the handler"])

prop("C31","Rust: letting go of a call stops its producer and leaves nothing behind",
 """When the caller of a call on a Rust wasmRS socket drops its result, or a channel's handler drops its input, at any moment, nothing panics, no other call is disturbed, the producing side stops (it finds out at its next element at the latest), and once every call is over neither socket keeps entries or tasks of them.
 Frames that arrive late, for a stream that is over or that never was (elements, ends, errors, cancels, requests for more), are ignored.""",
 ["schedules","fault_sequences","histories"],"every interleaving and every point at which a caller or handler lets go, any mix of other calls, any late frame at any moment",
 RUST+" No test drops a result or sends a late frame.",
 [WS,RXR,RGS],[("abort_handles, channels, handlers maps",WS),("on_cancel, on_error, on_payload to a dropped receiver",WS)],["Debug of WasmSocket (pending streams)","results of the calls that go on","handler tasks alive at rest"])

prop("C32","Rust: malformed or unexpected frames never panic or disturb other calls",
 """Whatever bytes a peer sends on a Rust wasmRS socket (truncated, damaged, invented or repeated frames, unknown types, lengths that do not fit, metadata or operation lists that cannot be read) decoding them reports an error instead of panicking, processing never panics or blocks, and every call that no such frame names goes on exactly as if they had not been sent.""",
 ["inputs","schedules","fault_sequences"],"every byte string in place of or between the frames of calls under way, at every moment of every interleaving",
 RUST+" The codec tests decode a handful of well-formed frames.",
 [RFR,WS,ROP,WST],[("Frame::decode and the codecs of each frame",RFR),("process_once",WS),("OperationList::decode",ROP),("do_host_send",WST)],["result of Frame::decode and process_once","outcomes of the calls not named"])

prop("C33","Rust: the wasm boundary stays within its buffers and a bad guest hurts nobody",
 """The Rust host writes to a guest's memory only inside the buffer the guest gave and only as much as the size it announced to it; the guest announces no more than its buffer to the host holds. A frame that does not fit fails the call it belongs to, on both sides, and only that call: other calls go on.
 A guest that traps, or passes addresses, lengths, log texts, operation lists or frames that are not valid, never panics the host or makes it touch memory outside the guest's; a call whose request could not be delivered, or that made the guest trap, ends with an error. Operations are found under the index their own list entry has, whatever order they were registered in.""",
 ["inputs","fault_sequences","schedules"],"every payload size around both buffers in both directions, every pointer and length a guest can pass, a trap at every guest call, every operation order",
 RUST+" None of them comes near a buffer's size, traps or passes a bad pointer.",
 [WEP,WME,WWW,WST,RGG,RHH],[("write_frame/write_bytes_to_memory",WEP),("read_frame, get_vec_from_memory",WME),("linker_* imports",WWW),("send_host_frame",RGG),("spawn_writer",RHH)],["guest memory outside its buffers","size passed to __send","outcomes of calls"])

prop("C34","Rust: a flux hands over every element exactly once, then its end",
 """Every value and error sent on a Flux of wasmrs-rx reaches its receiver exactly once, each sender's in the order it sent them, and the end comes after everything sent before it, however many tasks send and whichever way the receiver reads: polling it as a stream, awaiting recv, piping it, taking the receiver late or handing it to another task.
 A recv that is given up before it completes, by dropping it or losing a race, loses no element and leaves the receiver usable. A receiver whose senders are gone sees the end, and a sender whose receiver is gone is told so.""",
 ["schedules","histories"],"every interleaving of any number of senders and one owner of the receiver; every sequence of reads, given-up reads and hand-overs",
 "The crate's tests send and read in one task. A lost element needs a recv given up at a particular moment.",
 [RXF,RXR,RRT],[("Flux senders and signal channel",RXF),("FluxReceiver::recv/poll_next taking and giving back the channel",RXR),("UnboundedReceiver",RRT)],["values and ends the receiver sees","results of send"])

prop("C35","A broken wasm guest never takes the Go host down, and its own calls still end",
 """Whatever a guest module does short of never returning from a call - lacking exports or an exported memory, trapping or exiting in any exported function, giving buffer or operation-list addresses outside its memory, announcing absurd operation tables and indexes, sending malformed or unexpected frames, calling the host's imports at any moment - the host does not panic, hang, allocate without bound, or touch bytes outside that guest's memory, and instances of other modules are served as if it were not there.
 Calls made on such a guest end no more than once; a call whose delivery to the guest trapped, exited or could not be made because the guest's buffer is out of bounds ends with an error, and every call has ended once the instance is closed.
 A well-behaved guest built any other way than the in-tree one - growing its memory, giving new buffer addresses between calls, sending several frames at once, using any legal buffer placement - is served exactly: every call delivers what was sent, once and in order.""",
 ["inputs","fault_sequences","histories","schedules"],"every module behaviour at every point of its life, every schedule of calls on it and on others",
 "The tests never instantiate a module. These guests need particular addresses, traps or frames at particular moments, and the harm shows in other calls or in the host.",
 [HI,"go/transport/wasmrs/host/host.go","go/operations/operatons.go"],[("NewInstance/sendLoop/sendFailed/hostSend/recvOne/opList",HI),("host function bindings","go/transport/wasmrs/host/host.go"),("FromBytes","go/operations/operatons.go")],["outcomes of calls","host survival","guest memory accesses","allocation"])

prop("C36","Typed calls deliver every value unchanged; undecodable ones fail alone",
 """Every value an application sends in a typed call - as argument, result, item of a stream or channel in either direction, part of a record, list or map, item of a named port, or handle of an instance it keeps for its caller - is decoded at the other end to the same value, and the decoded value does not change later, whatever other calls are encoded and decoded at the same time. The encoding of a value is exactly one MessagePack value of exactly the size announced for it; fields a reader does not know are passed over and disturb none of the others.
 Payload bytes that are not an encoding of the expected type - cut short, changed, of another type, claiming absurd sizes, with keys no map can have, nested absurdly deep - never panic, and never take memory out of proportion to their own size; decoding them ends that one call (or that item's stream) with the decoder's error, and all other calls go on. A value is never decoded as another one, nor one that was cut off as a whole one.
 A handle of an instance reaches that instance and no other until it is closed, and is refused afterwards.""",
 ["inputs","schedules","fault_sequences","histories"],"every value of every type, every damage to its bytes, every interleaving of the calls that encode and decode",
 "The msgpack tests encode a few numbers and strings one at a time and never decode damaged bytes; transforms, ports and instances have no test.",
 ["go/msgpack/","go/transform/transform.go","go/invoke/portio.go","go/invoke/instances.go"],[("Encoder/Sizer/Decoder.ReadAny/Skip","go/msgpack/"),("transform.String..Time, CodecEncode, SliceDecode, InterfaceEncode","go/transform/transform.go"),("PortIO.Encode/Decode","go/invoke/portio.go"),("LiveInstances","go/invoke/instances.go"),("convert","go/msgpack/convert/")],["decoded values against the sent ones, at delivery and at rest","bytes of payloads against an independent MessagePack reader","outcomes of calls","memory a decoding takes","instances reached by handles"])

prop("C37","A host knows exactly what its modules declared, and indexes reach it",
 """Once a wasm module is instantiated, the Go host lists exactly the operations the module exports and imports - each once, with its kind, direction, namespace and name byte for byte, whatever characters they hold and however long they are - and no two of a kind and direction under the same index. The list does not change later, whatever the module does with its memory and whatever other modules are instantiated at the same time.
 A call by a listed index reaches the operation of that kind and name of that module and no other, once, and brings back its answer; a call a module makes of one of its imports reaches the handler the host gave that import. This holds for any number of operations, and for modules built any other way that choose their own indexes.
 Nothing is listed from a table that is damaged: cut short anywhere, of another magic number or version, claiming more entries or longer names than there are, or outside the module's memory.""",
 ["inputs","schedules","histories"],"every set of operations, names and indexes, every damage to a table, every order of instantiation",
 "There is no test of the operation table, and none instantiates a module.",
 ["go/operations/operatons.go","go/invoke/handlers.go",HI,"go/transport/wasmrs/guest/guest.go"],[("Table.ToBytes/FromBytes","go/operations/operatons.go"),("Export*/Import*/Get*Handler","go/invoke/handlers.go"),("opList/Operations/Set*Handler/handle*",HI),("OperationList","go/transport/wasmrs/guest/guest.go")],["the host's list against the module's declarations","the operation a call by index reaches, and its answer"])

prop("N03","Frame fragmentation preserves the payload",
 """Splitting a frame into fragments no larger than the limit and joining them gives back the same metadata, data and flags.""",
 ["inputs"],"every payload and every limit","Two fixed examples are tested.",
 ["go/internal/frames/util.go","go/internal/frames/payload.go"],[("Fragment/splitPayloads","go/internal/frames/util.go")])
prop("N04","Text forms of UUIDs round-trip",
 """Every UUID formats to text that parses back to the same UUID, and invalid text is rejected.""",
 ["inputs"],"every UUID and string","The uuid module has no reliable test here.",
 ["go/types/uuid/uuid.go"],[("Parse/String","go/types/uuid/uuid.go")])
prop("N05","Generated code is faithful to the interface definition",
 """The code generator emits, for every operation and type of an Apex definition, bindings with the matching kind, arguments and result.""",
 ["programs"],"every Apex definition","There is no test of the generator here.",
 ["codegen/"],[("visitor classes","codegen/src")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P),"properties")

//go:build go1.22

// Package gspec is the language between the harness and the programs that run inside simulated guest modules. It is
// shared by all guests and never instrumented.
package gspec

type Payload interface {
	Metadata() []byte
	Data() []byte
}

type Subscription interface {
	Request(n int)
	Cancel()
}

// Sink is a flux sink without its package-specific types.
type Sink struct {
	OnSubscribe func(request func(n int), cancel func())
	Next        func(data, md []byte)
	Complete    func()
	Error       func(error)
}

// Stream is one direction of one stream, as the harness follows it.
type Stream interface {
	// Produce returns how to produce: "error" (with the error), "slice" and "mapped" (with the items), "source".
	Produce() (how string, items []Payload, err error)
	// Source runs for "source".
	Source(s Sink, slice func(items []Payload) func(n int))
	// Mapped is called for every item of a "mapped" producer.
	Mapped()
	Consumer() Consumer
}

// Consumer is a subscription without its package-specific types.
type Consumer struct {
	OnNext     func(Payload)
	OnComplete func()
	OnError    func(error)
	OnRequest  func(Subscription) // nil: the default
	Finally    func(signal int)
	NoRequest  bool
	After      func(Subscription) // runs after Subscribe
}

type Op struct {
	Kind      int // 0 request/response, 1 fire-and-forget, 2 request/stream, 3 request/channel
	Namespace string
	Name      string
}

// Call is a request a guest makes.
type Call struct {
	Kind    int
	Index   uint32 // index of the imported operation
	Parent  int    // 0 none, 1 the stream being served, 2 raw
	RawPar  uint32
	Short   int // metadata cut to Short-1 bytes; 0: not cut
	Data    []byte
	Md      []byte
	Out, In Stream
	Via     int
	Asked   func()               // the outcome is asked for once more
	Again   func(Payload, error) // and told
	Value   func(Payload)
	Failed  func(error)
	Finally func()
}

// Served is how a guest serves a request.
type Served struct {
	Calls []*Call
	// request/response
	Mode  int // 0 just/error, 1 create, 2 map, 3 when Wait() allows it: a processor
	Value Payload
	Err   error
	Done  func()
	Later func(answer func()) // registers the answer of mode 3
	// streams
	Out, In Stream
	RC      int // 0 consumes its input at once, 2 echo, 3 ignores it
}

// Guest is the harness's view of one guest.
type Guest interface {
	Exports() []Op
	Imports() []Op
	Imported(op Op, index uint32)
	// Serve is called when a request reaches the handler of op.
	Serve(op Op, p Payload) *Served
}

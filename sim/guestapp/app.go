// Package guestapp is the program every simulated guest module runs: it exports and imports what the harness says,
// serves requests and makes calls the way generated iota code does.
package guestapp

import (
	"context"
	"encoding/binary"

	"github.com/nanobus/iota/go/internal/verifsim/gspec"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/guest"
)

// Setup runs as the module's start function.
func Setup(spec any) {
	g := spec.(gspec.Guest)
	for _, op := range g.Exports() {
		op := op
		switch op.Kind {
		case 0:
			invoke.ExportRequestResponse(op.Namespace, op.Name, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
				s := g.Serve(op, p)
				calls(ctx, s)
				return answer(s)
			})
		case 1:
			invoke.ExportFireAndForget(op.Namespace, op.Name, func(ctx context.Context, p payload.Payload) {
				s := g.Serve(op, p)
				calls(ctx, s)
			})
		case 2:
			invoke.ExportRequestStream(op.Namespace, op.Name, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
				s := g.Serve(op, p)
				calls(ctx, s)
				return produce(s.Out)
			})
		default:
			invoke.ExportRequestChannel(op.Namespace, op.Name, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
				s := g.Serve(op, p)
				calls(ctx, s)
				switch s.RC {
				case 2:
					return flux.Map(in, func(p payload.Payload) (payload.Payload, error) {
						return payload.New(append([]byte{'!'}, p.Data()...), p.Metadata()), nil
					})
				case 3:
				default:
					consume(in, s.In)
				}
				return produce(s.Out)
			})
		}
	}
	for _, op := range g.Imports() {
		var i uint32
		switch op.Kind {
		case 0:
			i = guest.HostInvoker.ImportRequestResponse(op.Namespace, op.Name)
		case 1:
			i = guest.HostInvoker.ImportFireAndForget(op.Namespace, op.Name)
		case 2:
			i = guest.HostInvoker.ImportRequestStream(op.Namespace, op.Name)
		default:
			i = guest.HostInvoker.ImportRequestChannel(op.Namespace, op.Name)
		}
		g.Imported(op, i)
	}
}

func answer(s *gspec.Served) mono.Mono[payload.Payload] {
	var v payload.Payload
	if s.Value != nil {
		v = payload.New(s.Value.Data(), s.Value.Metadata())
	}
	switch s.Mode {
	case 0:
		s.Done()
		if s.Err != nil {
			return mono.Error[payload.Payload](s.Err)
		}
		return mono.Just(v)
	case 1:
		return mono.Create(func(sink mono.Sink[payload.Payload]) {
			s.Done()
			if s.Err != nil {
				sink.Error(s.Err)
			} else {
				sink.Success(v)
			}
		})
	case 2:
		return mono.Map(mono.Just(v), func(p payload.Payload) (payload.Payload, error) {
			s.Done()
			return p, s.Err
		})
	default:
		p := mono.NewProcessor[payload.Payload]()
		s.Later(func() {
			s.Done()
			if s.Err != nil {
				p.Error(s.Err)
			} else {
				p.Success(v)
			}
		})
		return p
	}
}

func calls(ctx context.Context, s *gspec.Served) {
	for _, c := range s.Calls {
		call(ctx, c)
	}
}

func call(ctx context.Context, c *gspec.Call) {
	md := make([]byte, 8, 8+len(c.Md))
	binary.BigEndian.PutUint32(md, c.Index)
	switch c.Parent {
	case 1:
		if st, ok := proxy.FromContext(ctx); ok {
			binary.BigEndian.PutUint32(md[4:], st.StreamID())
		}
	case 2:
		binary.BigEndian.PutUint32(md[4:], c.RawPar)
	}
	md = append(md, c.Md...)
	if c.Short > 0 {
		md = md[:c.Short-1]
	}
	p := payload.New(c.Data, md)
	switch c.Kind {
	case 0:
		m := guest.HostInvoker.RequestResponse(ctx, p)
		if c.Via == 1 || c.Via == 2 {
			get := func(rx.SignalType) {
				if v, err := m.Get(); err != nil {
					c.Failed(err)
				} else {
					c.Value(v)
				}
			}
			if c.Via == 1 {
				m.Notify(get)
				m.Async()
			} else {
				m.Async()
				m.Notify(get)
			}
			return
		}
		if c.Via == 5 {
			m.Async()
		}
		m.Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) { c.Value(p) },
			OnError:   c.Failed,
			Finally:   func(rx.SignalType) { c.Finally() },
		})
		if c.Via == 4 && c.Again != nil {
			c.Asked()
			m.Async()
			m.Notify(func(rx.SignalType) {
				if v, err := m.Get(); err != nil {
					c.Again(nil, err)
				} else {
					c.Again(v, nil)
				}
			})
		}
	case 1:
		guest.HostInvoker.FireAndForget(ctx, p)
	case 2:
		consume(guest.HostInvoker.RequestStream(ctx, p), c.Out)
	default:
		consume(guest.HostInvoker.RequestChannel(ctx, p, produce(c.In)), c.Out)
	}
}

func produce(st gspec.Stream) flux.Flux[payload.Payload] {
	conv := func(in []gspec.Payload) []payload.Payload {
		var out []payload.Payload
		for _, p := range in {
			out = append(out, payload.New(p.Data(), p.Metadata()))
		}
		return out
	}
	how, items, err := st.Produce()
	switch how {
	case "error":
		return flux.Error[payload.Payload](err)
	case "slice", "mapped":
		return flux.Map(flux.FromSlice(conv(items)), func(p payload.Payload) (payload.Payload, error) {
			st.Mapped()
			return p, nil
		})
	default:
		return flux.Create(func(sink flux.Sink[payload.Payload]) {
			st.Source(gspec.Sink{
				OnSubscribe: func(request func(n int), cancel func()) {
					sink.OnSubscribe(flux.OnSubscribe{Request: request, Cancel: cancel})
				},
				Next:     func(data, md []byte) { sink.Next(payload.New(data, md)) },
				Complete: sink.Complete,
				Error:    sink.Error,
			}, func(items []gspec.Payload) func(n int) {
				return flux.SliceResponse(sink, conv(items))
			})
		})
	}
}

func consume(f flux.Flux[payload.Payload], st gspec.Stream) {
	c := st.Consumer()
	sub := flux.Subscribe[payload.Payload]{
		OnNext:     func(p payload.Payload) { c.OnNext(p) },
		OnComplete: c.OnComplete,
		OnError:    c.OnError,
		Finally:    func(s rx.SignalType) { c.Finally(int(s)) },
		NoRequest:  c.NoRequest,
	}
	if c.OnRequest != nil {
		sub.OnRequest = func(s rx.Subscription) { c.OnRequest(s) }
	}
	f.Subscribe(sub)
	if c.After != nil {
		c.After(f.Subscription())
	}
}

//go:build go1.22

package simrt

import (
	"runtime"
	"unsafe"
)

func chptrR[T any](ch <-chan T) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }
func chptrS[T any](ch chan<- T) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

// group is one parked operation (a send, a receive or a whole select).
type group struct {
	claimed bool
	idx     int
}
type cw[T any] struct {
	g   *group
	idx int
	val T
	ok  bool
}
type chq[T any] struct {
	recvq, sendq []*cw[T]
	stash        []T
}

func queue[T any](s *Sim, p uintptr, ch any) *chq[T] {
	if q, ok := s.chans[p]; ok {
		return q.(*chq[T])
	}
	q := &chq[T]{}
	s.chans[p] = q
	s.kept = append(s.kept, ch) // the address must not be reused while the entry exists
	return q
}

func popq[T any](q *[]*cw[T]) *cw[T] {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.g.claimed {
			return w
		}
	}
	return nil
}
func peekq[T any](q *[]*cw[T]) bool {
	for len(*q) > 0 {
		if !(*q)[0].g.claimed {
			return true
		}
		*q = (*q)[1:]
	}
	return false
}
func delq[T any](q *[]*cw[T], g *group) {
	k := 0
	for _, w := range *q {
		if w.g != g {
			(*q)[k] = w
			k++
		}
	}
	*q = (*q)[:k]
}

func (s *Sim) isClosed(p uintptr) bool { _, ok := s.closed[p]; return ok }

// tryRecv attempts a receive without parking.
func tryRecv[T any](s *Sim, ch <-chan T) (v T, ok, done bool) {
	if ch == nil {
		return
	}
	if cap(ch) == 0 {
		if s.active {
			if q, has := s.chans[chptrR(ch)]; has {
				qq := q.(*chq[T])
				if len(qq.stash) > 0 {
					v = qq.stash[0]
					qq.stash = qq.stash[1:]
					return v, true, true
				}
				if w := popq(&qq.sendq); w != nil {
					w.g.claimed, w.g.idx = true, w.idx
					return w.val, true, true
				}
			}
		}
	}
	select {
	case v, ok = <-ch:
		return v, ok, true
	default:
	}
	return
}

// canRecv tells whether a receive would succeed, without side effects the program can see.
func canRecv[T any](s *Sim, ch <-chan T) bool {
	if ch == nil {
		return false
	}
	if len(ch) > 0 {
		return true
	}
	p := chptrR(ch)
	if s.isClosed(p) {
		return true
	}
	if cap(ch) == 0 {
		if q, has := s.chans[p]; has {
			qq := q.(*chq[T])
			if len(qq.stash) > 0 || peekq(&qq.sendq) {
				return true
			}
		}
	}
	// closed by (or filled from) code that is not instrumented, such as a context
	select {
	case v, ok := <-ch:
		if ok {
			q := queue[T](s, p, ch)
			q.stash = append(q.stash, v)
		}
		return true
	default:
	}
	return false
}

func trySend[T any](s *Sim, ch chan<- T, v T) bool {
	if ch == nil {
		return false
	}
	if cap(ch) == 0 && !s.isClosed(chptrS(ch)) {
		if q, has := s.chans[chptrS(ch)]; has {
			if w := popq(&q.(*chq[T]).recvq); w != nil {
				w.val, w.ok = v, true
				w.g.claimed, w.g.idx = true, w.idx
				return true
			}
		}
	}
	select {
	case ch <- v:
		return true
	default:
	}
	return false
}

func canSend[T any](s *Sim, ch chan<- T) bool {
	if ch == nil {
		return false
	}
	p := chptrS(ch)
	if s.isClosed(p) {
		return true
	}
	if cap(ch) > 0 {
		return len(ch) < cap(ch)
	}
	if q, has := s.chans[p]; has {
		return peekq(&q.(*chq[T]).recvq)
	}
	return false
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	s := S
	if s.aborting {
		runtime.Goexit()
	}
	for {
		if v, ok, done := tryRecv(s, ch); done {
			return v, ok
		}
		if ch == nil {
			Block("receive from nil channel", func() bool { return false })
		}
		if cap(ch) > 0 || !s.active {
			Block("chan receive", func() bool { return canRecv(s, ch) })
			continue
		}
		q := queue[T](s, chptrR(ch), ch)
		w := &cw[T]{g: &group{}}
		q.recvq = append(q.recvq, w)
		Block("chan receive", func() bool { return w.g.claimed || canRecv(s, ch) })
		if w.g.claimed {
			return w.val, w.ok
		}
		delq(&q.recvq, w.g)
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// SendTo(ch)(v) is ch <- v.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		s := S
		if s.aborting {
			runtime.Goexit()
		}
		for {
			if trySend(s, ch, v) {
				return
			}
			if ch == nil {
				Block("send to nil channel", func() bool { return false })
			}
			if cap(ch) > 0 || !s.active {
				Block("chan send", func() bool { return canSend(s, ch) })
				continue
			}
			p := chptrS(ch)
			q := queue[T](s, p, ch)
			w := &cw[T]{g: &group{}, val: v}
			q.sendq = append(q.sendq, w)
			Block("chan send", func() bool { return w.g.claimed || canSend(s, ch) })
			if w.g.claimed {
				return
			}
			delq(&q.sendq, w.g)
		}
	}
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	s := S
	if s.aborting {
		runtime.Goexit()
	}
	close(ch)
	if s.active {
		s.closed[chptrS(ch)] = struct{}{}
		s.kept = append(s.kept, any(ch)) // the address must not be reused while the entry exists
	}
}

// SelCase is one case of a select.
type SelCase interface {
	can(s *Sim) bool
	do(s *Sim) bool
	park(s *Sim, g *group, i int)
	unpark(s *Sim, g *group)
	claim()
}

// RecvC is a receive case; V and OK hold the result.
type RecvC[T any] struct {
	ch <-chan T
	V  T
	OK bool
	w  *cw[T]
}

func RecvCase[T any](ch <-chan T) *RecvC[T] { return &RecvC[T]{ch: ch} }
func (c *RecvC[T]) can(s *Sim) bool         { return canRecv(s, c.ch) }
func (c *RecvC[T]) do(s *Sim) bool {
	v, ok, done := tryRecv(s, c.ch)
	if done {
		c.V, c.OK = v, ok
	}
	return done
}
func (c *RecvC[T]) park(s *Sim, g *group, i int) {
	if c.ch == nil || cap(c.ch) > 0 {
		return
	}
	q := queue[T](s, chptrR(c.ch), c.ch)
	c.w = &cw[T]{g: g, idx: i}
	q.recvq = append(q.recvq, c.w)
}
func (c *RecvC[T]) unpark(s *Sim, g *group) {
	if c.w != nil {
		delq(&queue[T](s, chptrR(c.ch), c.ch).recvq, g)
	}
}
func (c *RecvC[T]) claim() { c.V, c.OK = c.w.val, c.w.ok }

// SendC is a send case.
type SendC[T any] struct {
	ch chan<- T
	v  T
	w  *cw[T]
}

func SendCase[T any](ch chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] { return &SendC[T]{ch: ch, v: v} }
}
func (c *SendC[T]) can(s *Sim) bool { return canSend(s, c.ch) }
func (c *SendC[T]) do(s *Sim) bool  { return trySend(s, c.ch, c.v) }
func (c *SendC[T]) park(s *Sim, g *group, i int) {
	if c.ch == nil || cap(c.ch) > 0 {
		return
	}
	q := queue[T](s, chptrS(c.ch), c.ch)
	c.w = &cw[T]{g: g, idx: i, val: c.v}
	q.sendq = append(q.sendq, c.w)
}
func (c *SendC[T]) unpark(s *Sim, g *group) {
	if c.w != nil {
		delq(&queue[T](s, chptrS(c.ch), c.ch).sendq, g)
	}
}
func (c *SendC[T]) claim() {}

// Select runs a select statement and returns the index of the chosen case, or -1 for default.
func Select(hasDefault bool, cases ...SelCase) int {
	s := S
	if s.aborting {
		runtime.Goexit()
	}
	var buf [8]int
	for {
		r := buf[:0]
		for i, c := range cases {
			if c.can(s) {
				r = append(r, i)
			}
		}
		if len(r) > 0 {
			i := r[0]
			if len(r) > 1 {
				i = r[Choose(len(r))]
			}
			if cases[i].do(s) {
				return i
			}
			panic(HarnessError{"select case not ready"})
		}
		if hasDefault {
			return -1
		}
		g := &group{}
		for i, c := range cases {
			c.park(s, g, i)
		}
		Block("select", func() bool {
			if g.claimed {
				return true
			}
			for _, c := range cases {
				if c.can(s) {
					return true
				}
			}
			return false
		})
		for _, c := range cases {
			c.unpark(s, g)
		}
		if g.claimed {
			cases[g.idx].claim()
			return g.idx
		}
	}
}

// BlockForever is select{}.
func BlockForever() { Block("select{}", func() bool { return false }) }

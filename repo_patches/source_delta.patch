From 4cd048f92cd0c22b6f9f5c79169266129b629b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:02 +0000
Subject: [PATCH 01/66] fix: serialise frame writes on a TCP connection

Handlers and callers send from many goroutines. Write and Flush share one
bufio.Writer, so concurrent senders interleaved the bytes of their frames
and lost flushes.
---
 go/transport/rsocket/tcp_conn.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/go/transport/rsocket/tcp_conn.go b/go/transport/rsocket/tcp_conn.go
index 7d36c89..ce2df9c 100644
--- a/go/transport/rsocket/tcp_conn.go
+++ b/go/transport/rsocket/tcp_conn.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"net"
+	"sync"
 	"time"
 
 	"github.com/nanobus/iota/go/internal/frames"
@@ -14,12 +15,13 @@ import (
 // TCPConn is RSocket connection for TCP transport.
 type TCPConn struct {
 	conn    net.Conn
+	mu      sync.Mutex // guards writer
 	writer  *bufio.Writer
 	decoder *LengthBasedFrameDecoder
 	// counter *core.TrafficCounter
 }
 
-func (p TCPConn) Addr() string {
+func (p *TCPConn) Addr() string {
 	addr := p.conn.RemoteAddr()
 	return addr.String()
 }
@@ -96,6 +98,9 @@ func (p *TCPConn) Read() (f frames.Frame, err error) {
 
 // Write writes a frame.
 func (p *TCPConn) Write(frame frames.Frame) (err error) {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
 	size := frame.Size()
 	// if p.counter != nil && frame.Header().Resumable() {
 	// 	p.counter.IncWriteBytes(size)
@@ -121,6 +126,9 @@ func (p *TCPConn) Write(frame frames.Frame) (err error) {
 
 // Flush flush data.
 func (p *TCPConn) Flush() (err error) {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
 	err = p.writer.Flush()
 	if err != nil {
 		err = fmt.Errorf("flush failed: %w", err)
-- 
2.43.0


From 36f8fb491725a7a79210fad31f0f33df756fbde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:48 +0000
Subject: [PATCH 02/66] fix: give every received frame its own bytes

Payload metadata and data aliased the read buffer of the connection, which
the next frames overwrote while handlers and subscribers were using them.
---
 go/transport/rsocket/tcp_conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/transport/rsocket/tcp_conn.go b/go/transport/rsocket/tcp_conn.go
index ce2df9c..a2a3f8f 100644
--- a/go/transport/rsocket/tcp_conn.go
+++ b/go/transport/rsocket/tcp_conn.go
@@ -48,6 +48,10 @@ func (p *TCPConn) Read() (f frames.Frame, err error) {
 		return
 	}
 
+	// The decoder reuses its buffer for the frames that follow, while
+	// the application may keep the payload of this one.
+	raw = append([]byte(nil), raw...)
+
 	header := frames.ParseFrameHeader(raw)
 	buffer := raw[frames.FrameHeaderLen:]
 
-- 
2.43.0


From a2f8f3722ace22cb6eb04b7e94ab180435b36f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:48 +0000
Subject: [PATCH 03/66] fix: dispatch the complete frames that arrive with the
 end of the stream

Everything still buffered when the peer closed the connection was dropped.
---
 go/transport/rsocket/decoder.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/go/transport/rsocket/decoder.go b/go/transport/rsocket/decoder.go
index 7e9be2e..f3206e0 100644
--- a/go/transport/rsocket/decoder.go
+++ b/go/transport/rsocket/decoder.go
@@ -42,9 +42,6 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 }
 
 func doSplit(data []byte, eof bool) (advance int, token []byte, err error) {
-	if eof {
-		return
-	}
 	if len(data) < lengthFieldSize {
 		return
 	}
-- 
2.43.0


From 1c6a07be4a190ddc4b1b63e7b4f37f00df1ab3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:48 +0000
Subject: [PATCH 04/66] fix: reject malformed frames instead of panicking

A peer could crash the process with a frame shorter than the fields its
type and flags announce.
---
 go/internal/frames/error.go           |  3 +++
 go/internal/frames/payload.go         | 10 ++++------
 go/internal/frames/request_n.go       |  3 +++
 go/internal/frames/request_payload.go | 13 +++++++------
 go/internal/frames/util.go            | 19 +++++++++++++++++++
 5 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/go/internal/frames/error.go b/go/internal/frames/error.go
index f6966b6..1427a60 100644
--- a/go/internal/frames/error.go
+++ b/go/internal/frames/error.go
@@ -21,6 +21,9 @@ func (f *Error) Type() FrameType {
 }
 
 func (f *Error) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return ErrMalformedFrame
+	}
 	code := binary.BigEndian.Uint32(payload)
 	data := string(payload[4:])
 
diff --git a/go/internal/frames/payload.go b/go/internal/frames/payload.go
index 6a6b18b..18cb884 100644
--- a/go/internal/frames/payload.go
+++ b/go/internal/frames/payload.go
@@ -32,12 +32,10 @@ func (f *Payload) Decode(header *FrameHeader, payload []byte) error {
 	metadata := emptyBuffer
 
 	if hasMetadata {
-		var mdLengthBuf [4]byte
-		copy(mdLengthBuf[1:], payload[0:3])
-		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
-		payload = payload[3:]
-		metadata = payload[:mdLength]
-		payload = payload[mdLength:]
+		var err error
+		if metadata, payload, err = splitMetadata(payload); err != nil {
+			return err
+		}
 	}
 
 	*f = Payload{
diff --git a/go/internal/frames/request_n.go b/go/internal/frames/request_n.go
index 636df9d..5086f11 100644
--- a/go/internal/frames/request_n.go
+++ b/go/internal/frames/request_n.go
@@ -20,6 +20,9 @@ func (f *RequestN) Type() FrameType {
 }
 
 func (f *RequestN) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return ErrMalformedFrame
+	}
 	n := binary.BigEndian.Uint32(payload)
 
 	*f = RequestN{
diff --git a/go/internal/frames/request_payload.go b/go/internal/frames/request_payload.go
index f9095c1..8055c31 100644
--- a/go/internal/frames/request_payload.go
+++ b/go/internal/frames/request_payload.go
@@ -38,6 +38,9 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 	complete := true
 
 	if frameType == FrameTypeRequestStream || frameType == FrameTypeRequestChannel {
+		if len(payload) < 4 {
+			return ErrMalformedFrame
+		}
 		initialN = binary.BigEndian.Uint32(payload)
 		payload = payload[4:]
 	}
@@ -47,12 +50,10 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 
 	metadata := emptyBuffer
 	if hasMetadata {
-		var mdLengthBuf [4]byte
-		copy(mdLengthBuf[1:], payload[0:3])
-		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
-		payload = payload[3:]
-		metadata = payload[:mdLength]
-		payload = payload[mdLength:]
+		var err error
+		if metadata, payload, err = splitMetadata(payload); err != nil {
+			return err
+		}
 	}
 
 	*f = RequestPayload{
diff --git a/go/internal/frames/util.go b/go/internal/frames/util.go
index d962f97..d839474 100644
--- a/go/internal/frames/util.go
+++ b/go/internal/frames/util.go
@@ -2,10 +2,29 @@ package frames
 
 import (
 	"encoding/binary"
+	"errors"
 )
 
 var emptyBuffer = []byte{}
 
+// ErrMalformedFrame is returned for a frame that is too short for the fields it announces.
+var ErrMalformedFrame = errors.New("malformed frame")
+
+// splitMetadata separates the length-prefixed metadata from the data that follows it.
+func splitMetadata(payload []byte) (metadata, data []byte, err error) {
+	if len(payload) < 3 {
+		return nil, nil, ErrMalformedFrame
+	}
+	var mdLengthBuf [4]byte
+	copy(mdLengthBuf[1:], payload[0:3])
+	mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
+	payload = payload[3:]
+	if mdLength > uint32(len(payload)) {
+		return nil, nil, ErrMalformedFrame
+	}
+	return payload[:mdLength:mdLength], payload[mdLength:], nil
+}
+
 func readString(payload []byte) (string, []byte) {
 	strLen := binary.BigEndian.Uint16(payload[:2])
 	payload = payload[2:]
-- 
2.43.0


From cf7c1223c32cc22f43ff5c03e58a36162c9e9231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:48 +0000
Subject: [PATCH 05/66] fix: report an oversized frame as a send error instead
 of panicking

---
 go/transport/rsocket/decoder.go  | 4 ++++
 go/transport/rsocket/tcp_conn.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/go/transport/rsocket/decoder.go b/go/transport/rsocket/decoder.go
index f3206e0..6b0c96e 100644
--- a/go/transport/rsocket/decoder.go
+++ b/go/transport/rsocket/decoder.go
@@ -13,6 +13,7 @@ const (
 	lengthFieldSize = 3
 	minBuffSize     = 8 * 1024
 	maxBuffSize     = 16*1024*1024 + lengthFieldSize
+	maxFrameSize    = 1<<24 - 1 // largest value of the length field
 )
 
 // ErrIncompleteHeader is error of incomplete header.
@@ -21,6 +22,9 @@ var ErrIncompleteHeader = errors.New("incomplete frame header")
 // from core, errors.go
 var ErrInvalidFrameLength = errors.New("rsocket: invalid frame length")
 
+// ErrFrameTooLarge is returned for a frame whose size does not fit the length field.
+var ErrFrameTooLarge = errors.New("rsocket: frame too large")
+
 // LengthBasedFrameDecoder defines a decoder for decoding frames which have a header of length.
 type LengthBasedFrameDecoder bufio.Scanner
 
diff --git a/go/transport/rsocket/tcp_conn.go b/go/transport/rsocket/tcp_conn.go
index a2a3f8f..259ef90 100644
--- a/go/transport/rsocket/tcp_conn.go
+++ b/go/transport/rsocket/tcp_conn.go
@@ -106,6 +106,9 @@ func (p *TCPConn) Write(frame frames.Frame) (err error) {
 	defer p.mu.Unlock()
 
 	size := frame.Size()
+	if size > maxFrameSize {
+		return ErrFrameTooLarge
+	}
 	// if p.counter != nil && frame.Header().Resumable() {
 	// 	p.counter.IncWriteBytes(size)
 	// }
-- 
2.43.0


From 778d1ee98dfc0731f8a21faf26ad493df3b02693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:18 +0000
Subject: [PATCH 06/66] fix: make the stream lookup forget what is removed from
 it

Removing the first stream left it in the list, and Get walked the list
without the lock.
---
 go/proxy/lookup.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/go/proxy/lookup.go b/go/proxy/lookup.go
index 3dddd04..58eeb58 100644
--- a/go/proxy/lookup.go
+++ b/go/proxy/lookup.go
@@ -16,6 +16,9 @@ type (
 )
 
 func (l *Lookup) Get(id uint32) (Stream, bool) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
 	if n := l.find(id); n != nil {
 		return n.stream, true
 	}
@@ -58,9 +61,13 @@ func (l *Lookup) Remove(id uint32) {
 
 	if prevNode != nil {
 		prevNode.next = nodeToDelete.next
+	} else {
+		l.head = nextNode
 	}
 	if nextNode != nil {
 		nextNode.prev = nodeToDelete.prev
+	} else {
+		l.tail = prevNode
 	}
 }
 
-- 
2.43.0


From df18dceae1bd968a54eda91e54c731d27c524234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:18 +0000
Subject: [PATCH 07/66] fix: keep the state of a flux subscription consistent

Demand, the source's callbacks and the end of a subscription are touched by
the consumer, the producer and the connection at once. Demand could be lost
or granted twice, a subscription could end twice, cancelling twice or after
the end ran the callbacks again, and a source that subscribed after the
cancel was never told.
---
 go/rx/flux/flux.go             | 75 ++++++++++++++++++++++++----------
 go/rx/flux/flux_host.go        |  7 +++-
 go/rx/flux/flux_webassembly.go |  4 ++
 3 files changed, 64 insertions(+), 22 deletions(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 864f7e5..d9245ea 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -121,28 +121,34 @@ type subscriber[T any] struct {
 	doOnRequest  rx.FnOnSubscribe
 	doFinally    rx.FnFinally
 
-	mu mutex
+	mu    mutex // serialises the calls of sub.Request
+	state mutex // guards closed, n, err, sub and signal
 }
 
 func (s *subscriber[T]) Next(value T) {
+	s.state.Lock()
 	if s.closed {
+		s.state.Unlock()
 		return
 	}
 	s.n--
+	s.state.Unlock()
 	if s.doOnNext != nil {
 		s.doOnNext(value)
 	}
 
-	if s.n == 0 {
+	s.state.Lock()
+	exhausted := s.n == 0
+	s.state.Unlock()
+	if exhausted {
 		s.handleOnSubscribe()
 	}
 }
 
 func (s *subscriber[T]) Complete() {
-	if s.closed {
+	if !s.close(rx.SignalComplete, nil) {
 		return
 	}
-	s.closed = true
 	if s.doOnComplete != nil {
 		s.doOnComplete()
 	}
@@ -150,19 +156,29 @@ func (s *subscriber[T]) Complete() {
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	if !s.close(rx.SignalError, err) {
 		return
 	}
-	s.err = err
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
 	s.finally(rx.SignalError)
 }
 
-func (s *subscriber[T]) finally(signal rx.SignalType) {
+// close ends the subscription and tells whether this call was the one that did.
+func (s *subscriber[T]) close(signal rx.SignalType, err error) bool {
+	s.state.Lock()
+	defer s.state.Unlock()
+	if s.closed {
+		return false
+	}
+	s.closed = true
 	s.signal = signal
+	s.err = err
+	return true
+}
+
+func (s *subscriber[T]) finally(signal rx.SignalType) {
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
@@ -172,17 +188,28 @@ func (s *subscriber[T]) finally(signal rx.SignalType) {
 }
 
 func (s *subscriber[T]) OnSubscribe(sub OnSubscribe) {
+	s.state.Lock()
 	if s.closed {
+		cancelled := s.signal == rx.SignalCancel
+		s.state.Unlock()
+		if cancelled && sub.Cancel != nil {
+			sub.Cancel()
+		}
 		return
 	}
 	s.sub = sub
-	if s.n > 0 {
-		s.doRequest(s.n)
+	n := s.n
+	s.state.Unlock()
+	if n > 0 && sub.Request != nil {
+		s.doRequest(n)
 	}
 }
 
 func (s *subscriber[T]) handleOnSubscribe() {
-	if s.noRequest {
+	s.state.Lock()
+	closed := s.closed
+	s.state.Unlock()
+	if s.noRequest || closed {
 		return
 	}
 	if s.doOnRequest != nil {
@@ -193,24 +220,30 @@ func (s *subscriber[T]) handleOnSubscribe() {
 }
 
 func (s *subscriber[T]) Request(n int) {
+	s.state.Lock()
+	if s.closed {
+		s.state.Unlock()
+		return
+	}
 	s.n += n
-	if s.sub.Request != nil {
+	ready := s.sub.Request != nil
+	s.state.Unlock()
+	if ready {
 		s.doRequest(n)
 	}
 }
 
 func (s *subscriber[T]) Cancel() {
-	s.closed = true
-	if s.sub.Cancel != nil {
-		s.sub.Cancel()
+	if !s.close(rx.SignalCancel, nil) {
+		return
 	}
-	if s.doFinally != nil {
-		s.doFinally(rx.SignalCancel)
+	s.state.Lock()
+	cancel := s.sub.Cancel
+	s.state.Unlock()
+	if cancel != nil {
+		cancel()
 	}
-}
-
-func (s *subscriber[T]) Close() {
-	s.closed = true
+	s.finally(rx.SignalCancel)
 }
 
 func Map[S, D any](f Flux[S], tx rx.Transform[S, D]) Flux[D] {
diff --git a/go/rx/flux/flux_host.go b/go/rx/flux/flux_host.go
index bdf98f5..e835906 100644
--- a/go/rx/flux/flux_host.go
+++ b/go/rx/flux/flux_host.go
@@ -21,7 +21,12 @@ func (s *subscriber[T]) doRequest(n int) {
 	go func(n int) {
 		s.mu.Lock()
 		defer s.mu.Unlock()
-		s.sub.Request(n)
+		s.state.Lock()
+		closed := s.closed
+		s.state.Unlock()
+		if !closed {
+			s.sub.Request(n)
+		}
 	}(n)
 }
 
diff --git a/go/rx/flux/flux_webassembly.go b/go/rx/flux/flux_webassembly.go
index 08ca2f7..d785c47 100644
--- a/go/rx/flux/flux_webassembly.go
+++ b/go/rx/flux/flux_webassembly.go
@@ -8,6 +8,10 @@ type Blockable[T any] interface {
 
 type mutex struct{}
 
+func (mutex) Lock() {}
+
+func (mutex) Unlock() {}
+
 func (s *subscriber[T]) doRequest(n int) {
 	s.sub.Request(n)
 }
-- 
2.43.0


From c4a9cf34c96ece5f1f1d31cce7b8b3f42982f4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:20 +0000
Subject: [PATCH 08/66] fix: notify every observer of a flux exactly once

A callback registered while the flux was ending was lost, or was told
before the end with the wrong signal, and cancelling told nobody.
---
 go/rx/flux/flux.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index d9245ea..7df453a 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -74,6 +74,8 @@ type flux[T any] struct {
 	source     Source[T]
 	subscriber *subscriber[T]
 	callbacks  []rx.FnFinally
+
+	mu mutex // guards subscriber, callbacks and subscriber.ended
 }
 
 func (f *flux[T]) Subscribe(sub Subscribe[T]) Flux[T] {
@@ -86,28 +88,37 @@ func (f *flux[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 		f:            f,
 		noRequest:    sub.NoRequest,
 	}
+	f.mu.Lock()
 	f.subscriber = &s
+	f.mu.Unlock()
 	f.source(&s)
 	s.handleOnSubscribe()
 	return f
 }
 
 func (f *flux[T]) Subscription() rx.Subscription {
+	f.mu.Lock()
+	defer f.mu.Unlock()
 	return f.subscriber
 }
 
 func (f *flux[T]) Async() {}
 
 func (f *flux[T]) Notify(fn rx.FnFinally) {
-	if f.subscriber != nil && f.subscriber.closed {
-		fn(f.subscriber.signal)
+	f.mu.Lock()
+	if f.subscriber != nil && f.subscriber.ended {
+		signal := f.subscriber.signal
+		f.mu.Unlock()
+		fn(signal)
 		return
 	}
 	f.callbacks = append(f.callbacks, fn)
+	f.mu.Unlock()
 }
 
 type subscriber[T any] struct {
 	closed    bool
+	ended     bool // the Notify callbacks have been taken
 	n         int
 	err       error
 	sub       OnSubscribe
@@ -182,7 +193,12 @@ func (s *subscriber[T]) finally(signal rx.SignalType) {
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
-	for _, fn := range s.f.callbacks {
+	s.f.mu.Lock()
+	s.ended = true
+	callbacks := s.f.callbacks
+	s.f.callbacks = nil
+	s.f.mu.Unlock()
+	for _, fn := range callbacks {
 		fn(signal)
 	}
 }
-- 
2.43.0


From 1a5dcca6b660001e3b33fcf84a5c3f32563e5c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:20 +0000
Subject: [PATCH 09/66] fix: let Block subscribe to a flux nobody has
 subscribed to

It dereferenced the subscriber that does not exist yet.
---
 go/rx/flux/flux_host.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/go/rx/flux/flux_host.go b/go/rx/flux/flux_host.go
index e835906..43c671f 100644
--- a/go/rx/flux/flux_host.go
+++ b/go/rx/flux/flux_host.go
@@ -31,8 +31,12 @@ func (s *subscriber[T]) doRequest(n int) {
 }
 
 func (f *flux[T]) Block(sub Subscribe[T]) (err error) {
-	if f.subscriber.closed {
-		return f.subscriber.err
+	f.mu.Lock()
+	s := f.subscriber
+	ended := s != nil && s.ended
+	f.mu.Unlock()
+	if ended {
+		return s.err
 	}
 
 	return Block(Flux[T](f), sub)
-- 
2.43.0


From 62cfa8a13b6cbcbb122852b88b096c3136fa9d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:20 +0000
Subject: [PATCH 10/66] fix: end a mapped flux once when its function fails

The source was never stopped, so the subscriber got further items, errors
and Finally calls after the error.
---
 go/rx/flux/flux.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 7df453a..eae5835 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -274,22 +274,18 @@ type mapper[S, D any] struct {
 	tx rx.Transform[S, D]
 }
 
-type closable[T any] interface {
-	Close()
-}
-
 func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
+	failed := false
 	m.f.Subscribe(Subscribe[S]{
 		OnNext: func(value S) {
 			if converted, err := m.tx(value); err != nil {
-				if close, ok := m.f.(closable[S]); ok {
-					close.Close()
-				}
+				failed = true
 				if sub.OnError != nil {
 					sub.OnError(err)
 				}
-				if sub.Finally != nil {
-					sub.Finally(rx.SignalError)
+				// No more items; this also runs Finally.
+				if s := m.f.Subscription(); s != nil {
+					s.Cancel()
 				}
 			} else if sub.OnNext != nil {
 				sub.OnNext(converted)
@@ -298,8 +294,15 @@ func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
 		OnComplete: sub.OnComplete,
 		OnError:    sub.OnError,
 		OnRequest:  sub.OnRequest,
-		Finally:    sub.Finally,
-		NoRequest:  sub.NoRequest,
+		Finally: func(signal rx.SignalType) {
+			if failed {
+				signal = rx.SignalError
+			}
+			if sub.Finally != nil {
+				sub.Finally(signal)
+			}
+		},
+		NoRequest: sub.NoRequest,
 	})
 	return m
 }
-- 
2.43.0


From de73ea02d34e6ae7430d2498fa8fd04f2063deb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:20 +0000
Subject: [PATCH 11/66] fix: complete the signals of flux.Error, mono.Error and
 mono.Just

They never ran Finally, so blocking on them hung, and the subscription of
flux.Error was nil, which crashed a handler that returned it.
---
 go/rx/flux/flux.go | 12 +++++++++++-
 go/rx/mono/mono.go |  6 ++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index eae5835..eefcea6 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -47,6 +47,9 @@ func (e errorFlow[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -61,9 +64,16 @@ func (e errorFlow[T]) Block(_ Subscribe[T]) error {
 }
 
 func (e errorFlow[T]) Subscription() rx.Subscription {
-	return nil
+	return noSubscription{}
 }
 
+// noSubscription is the subscription of a flux that ended while it was being subscribed to.
+type noSubscription struct{}
+
+func (noSubscription) Request(int) {}
+
+func (noSubscription) Cancel() {}
+
 func Create[T any](source Source[T]) Flux[T] {
 	return &flux[T]{
 		source: source,
diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index 002c985..047ccc6 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -42,6 +42,9 @@ func (e errorSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -74,6 +77,9 @@ func (j justSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnSuccess != nil {
 		sub.OnSuccess(j.value)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalComplete)
+	}
 	return j
 }
 
-- 
2.43.0


From e46274d916d8638913eb0d227717d9d704159e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:20 +0000
Subject: [PATCH 12/66] fix: settle a mono once and tell every observer once

The outcome, the Notify callbacks and the hand-over in a processor were
unsynchronised: an outcome or a notification could be lost or delivered
twice, and a callback registered while the outcome was being delivered got
the wrong signal.
---
 go/rx/mono/mono.go      | 54 +++++++++++++++++++++++++++++++----------
 go/rx/mono/mono_host.go |  8 ++++--
 go/rx/mono/processor.go | 35 ++++++++++++++++++--------
 3 files changed, 72 insertions(+), 25 deletions(-)

diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index 047ccc6..12e9275 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -1,6 +1,8 @@
 package mono
 
 import (
+	"sync"
+
 	"github.com/nanobus/iota/go/rx"
 )
 
@@ -108,6 +110,8 @@ type mono[T any] struct {
 	source     Source[T]
 	subscriber *subscriber[T]
 	callbacks  []rx.FnFinally
+
+	mu sync.Mutex // guards subscriber, callbacks and the subscriber's outcome
 }
 
 func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
@@ -118,7 +122,9 @@ func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 		doOnSubscribe: sub.OnRequest,
 		doFinally:     sub.Finally,
 	}
+	m.mu.Lock()
 	m.subscriber = &wrapper
+	m.mu.Unlock()
 	m.source(&wrapper)
 	return m
 }
@@ -132,16 +138,22 @@ func (m *mono[T]) Notify(fn rx.FnFinally) {
 	// 	m.subscriber = &wrapper
 	// 	m.source(&wrapper)
 	// }
-	if m.subscriber != nil && m.subscriber.closed {
-		fn(m.subscriber.signal)
+	m.mu.Lock()
+	if m.subscriber != nil && m.subscriber.ended {
+		signal := m.subscriber.signal
+		m.mu.Unlock()
+		fn(signal)
 		return
 	}
 
 	m.callbacks = append(m.callbacks, fn)
+	m.mu.Unlock()
 }
 
 func (m *mono[T]) Get() (ret T, err error) {
-	if !m.subscriber.closed {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	if m.subscriber == nil || !m.subscriber.closed {
 		panic("mono: Get called before completion")
 	}
 	return m.subscriber.value, m.subscriber.err
@@ -149,6 +161,7 @@ func (m *mono[T]) Get() (ret T, err error) {
 
 type subscriber[T any] struct {
 	closed bool
+	ended  bool // the Notify callbacks have been taken
 	value  T
 	err    error
 	signal rx.SignalType
@@ -161,11 +174,9 @@ type subscriber[T any] struct {
 }
 
 func (s *subscriber[T]) Success(value T) {
-	if s.closed {
+	if !s.close(rx.SignalComplete, value, nil) {
 		return
 	}
-	s.value = value
-	s.closed = true
 	if s.doOnSuccess != nil {
 		s.doOnSuccess(value)
 	}
@@ -173,32 +184,49 @@ func (s *subscriber[T]) Success(value T) {
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	var dummy T
+	if !s.close(rx.SignalError, dummy, err) {
 		return
 	}
-	s.err = err
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
 	s.finally(rx.SignalError)
 }
 
-func (s *subscriber[T]) finally(signal rx.SignalType) {
+// close settles the outcome and tells whether this call was the one that did.
+func (s *subscriber[T]) close(signal rx.SignalType, value T, err error) bool {
+	s.m.mu.Lock()
+	defer s.m.mu.Unlock()
+	if s.closed {
+		return false
+	}
+	s.closed = true
 	s.signal = signal
+	s.value = value
+	s.err = err
+	return true
+}
+
+func (s *subscriber[T]) finally(signal rx.SignalType) {
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
-	for _, fn := range s.m.callbacks {
+	s.m.mu.Lock()
+	s.ended = true
+	callbacks := s.m.callbacks
+	s.m.callbacks = nil
+	s.m.mu.Unlock()
+	for _, fn := range callbacks {
 		fn(signal)
 	}
 }
 
 func (s *subscriber[T]) Cancel() {
-	if s.closed {
+	var dummy T
+	if !s.close(rx.SignalCancel, dummy, nil) {
 		return
 	}
-	s.closed = true
 	s.finally(rx.SignalCancel)
 }
 
diff --git a/go/rx/mono/mono_host.go b/go/rx/mono/mono_host.go
index 72e0c0d..75ada06 100644
--- a/go/rx/mono/mono_host.go
+++ b/go/rx/mono/mono_host.go
@@ -8,8 +8,12 @@ type Blockable[T any] interface {
 }
 
 func (s *mono[T]) Block() (ret T, err error) {
-	if s.subscriber != nil && s.subscriber.closed {
-		return s.subscriber.value, s.subscriber.err
+	s.mu.Lock()
+	w := s.subscriber
+	closed := w != nil && w.closed
+	s.mu.Unlock()
+	if closed {
+		return w.value, w.err
 	}
 
 	done := make(chan struct{})
diff --git a/go/rx/mono/processor.go b/go/rx/mono/processor.go
index a7bb35d..084598b 100644
--- a/go/rx/mono/processor.go
+++ b/go/rx/mono/processor.go
@@ -1,5 +1,7 @@
 package mono
 
+import "sync"
+
 type Processor[T any] interface {
 	Mono[T]
 	Sink[T]
@@ -10,16 +12,21 @@ type ProcessorImpl[T any] struct {
 	sink    Sink[T]
 	success *T
 	err     error
+
+	mu sync.Mutex // guards sink, success and err
 }
 
 func NewProcessor[T any]() *ProcessorImpl[T] {
 	p := &ProcessorImpl[T]{}
 	p.Mono = Create(func(sink Sink[T]) {
+		p.mu.Lock()
 		p.sink = sink
-		if p.success != nil {
-			sink.Success(*p.success)
-		} else if p.err != nil {
-			sink.Error(p.err)
+		success, err := p.success, p.err
+		p.mu.Unlock()
+		if success != nil {
+			sink.Success(*success)
+		} else if err != nil {
+			sink.Error(err)
 		}
 	})
 
@@ -27,17 +34,25 @@ func NewProcessor[T any]() *ProcessorImpl[T] {
 }
 
 func (p *ProcessorImpl[T]) Success(value T) {
-	if p.sink != nil {
-		p.sink.Success(value)
-	} else {
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil && p.success == nil && p.err == nil {
 		p.success = &value
 	}
+	p.mu.Unlock()
+	if sink != nil {
+		sink.Success(value)
+	}
 }
 
 func (p *ProcessorImpl[T]) Error(err error) {
-	if p.sink != nil {
-		p.sink.Error(err)
-	} else {
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil && p.success == nil && p.err == nil {
 		p.err = err
 	}
+	p.mu.Unlock()
+	if sink != nil {
+		sink.Error(err)
+	}
 }
-- 
2.43.0


From 966ddef0bc7b1e5e27b1faf75375ac0e5b4b8840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:20 +0000
Subject: [PATCH 13/66] fix: pass the matching signal to Finally when a mapped
 mono fails

---
 go/rx/mono/mono.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index 12e9275..962d4c7 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -243,10 +243,12 @@ type mapper[S any, D any] struct {
 }
 
 func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
+	failed := false
 	b.mono.Subscribe(Subscribe[S]{
 		OnSuccess: func(value S) {
 			converted, err := b.tx(value)
 			if err != nil {
+				failed = true
 				if sub.OnError != nil {
 					sub.OnError(err)
 				}
@@ -258,7 +260,14 @@ func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
 		},
 		OnError:   sub.OnError,
 		OnRequest: sub.OnRequest,
-		Finally:   sub.Finally,
+		Finally: func(signal rx.SignalType) {
+			if failed {
+				signal = rx.SignalError
+			}
+			if sub.Finally != nil {
+				sub.Finally(signal)
+			}
+		},
 	})
 	return b
 }
-- 
2.43.0


From b3c3c3a2d012e3e9c4eab87addf399615a5ce32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:55 +0000
Subject: [PATCH 14/66] fix: keep the end of a flux processor for a later
 subscriber

A processor that completed or failed before it was subscribed to left its
subscriber waiting for ever.
---
 go/rx/flux/processor.go | 47 ++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/go/rx/flux/processor.go b/go/rx/flux/processor.go
index 10770a6..2de5980 100644
--- a/go/rx/flux/processor.go
+++ b/go/rx/flux/processor.go
@@ -9,43 +9,66 @@ type processor[T any] struct {
 	Flux[T]
 	sink Sink[T]
 	sub  *OnSubscribe
+	end  func(Sink[T]) // terminal signal that came before the subscription
+
+	mu mutex // guards sink, sub and end
 }
 
 func NewProcessor[T any]() Processor[T] {
 	p := &processor[T]{}
 	p.Flux = Create(func(sink Sink[T]) {
+		p.mu.Lock()
 		p.sink = sink
-		if p.sub != nil {
-			sink.OnSubscribe(*p.sub)
-			p.sub = nil
+		sub, end := p.sub, p.end
+		p.sub = nil
+		p.mu.Unlock()
+		if sub != nil {
+			sink.OnSubscribe(*sub)
+		}
+		if end != nil {
+			end(sink)
 		}
 	})
 
 	return p
 }
 
+// subscribed returns the sink; while there is none it keeps the first terminal signal for it.
+func (p *processor[T]) subscribed(end func(Sink[T])) Sink[T] {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	if p.sink == nil && p.end == nil {
+		p.end = end
+	}
+	return p.sink
+}
+
 func (p *processor[T]) Next(value T) {
-	if p.sink != nil {
-		p.sink.Next(value)
+	if sink := p.subscribed(nil); sink != nil {
+		sink.Next(value)
 	}
 }
 
 func (p *processor[T]) Complete() {
-	if p.sink != nil {
-		p.sink.Complete()
+	if sink := p.subscribed(Sink[T].Complete); sink != nil {
+		sink.Complete()
 	}
 }
 
 func (p *processor[T]) Error(err error) {
-	if p.sink != nil {
-		p.sink.Error(err)
+	if sink := p.subscribed(func(sink Sink[T]) { sink.Error(err) }); sink != nil {
+		sink.Error(err)
 	}
 }
 
 func (p *processor[T]) OnSubscribe(sub OnSubscribe) {
-	if p.sink != nil {
-		p.sink.OnSubscribe(sub)
-	} else {
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil {
 		p.sub = &sub
 	}
+	p.mu.Unlock()
+	if sink != nil {
+		sink.OnSubscribe(sub)
+	}
 }
-- 
2.43.0


From dae60ac85f31cfd9fcaa6dfa9220eb5b40002044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:55 +0000
Subject: [PATCH 15/66] fix: run each step of a flow once, after all the
 previous one awaits

A step whose awaitables were already complete ran again, for ever if it was
the last; awaitables completing concurrently could start the next step
twice or not at all; and a step that awaits nothing stopped the flow.
---
 go/rx/flow/flow.go | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/go/rx/flow/flow.go b/go/rx/flow/flow.go
index 874f617..27876b9 100644
--- a/go/rx/flow/flow.go
+++ b/go/rx/flow/flow.go
@@ -1,6 +1,8 @@
 package flow
 
 import (
+	"sync/atomic"
+
 	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/await"
 	"github.com/nanobus/iota/go/rx/flux"
@@ -13,9 +15,7 @@ type (
 		monoSink mono.Sink[T]
 		fluxSink flux.Sink[T]
 
-		ended      bool
-		completed  int
-		awaitables []await.Awaitable
+		ended bool
 	}
 
 	StepFn func() (await.Group, error)
@@ -46,6 +46,7 @@ func (f *Flow[T]) Complete() (await.Group, error) {
 	if f.fluxSink == nil {
 		panic("Complete is only called for flux retruns")
 	}
+	f.ended = true
 	f.fluxSink.Complete()
 
 	return nil, nil
@@ -55,12 +56,14 @@ func (f *Flow[T]) Success(value T) (await.Group, error) {
 	if f.monoSink == nil {
 		panic("success is only called for mono retruns")
 	}
+	f.ended = true
 	f.monoSink.Success(value)
 
 	return nil, nil
 }
 
 func (f *Flow[T]) Error(err error) (await.Group, error) {
+	f.ended = true
 	if f.monoSink != nil {
 		f.monoSink.Error(err)
 	} else if f.fluxSink != nil {
@@ -85,14 +88,15 @@ func (f *Flow[T]) Flux() flux.Flux[T] {
 }
 
 func (f *Flow[T]) next() {
-	if len(f.steps) == 0 {
+	if f.ended || len(f.steps) == 0 {
 		return
 	}
 
-	f.completed = 0
 	step := f.steps[0]
+	f.steps = f.steps[1:]
 	awaitables, err := step()
 	if err != nil {
+		f.ended = true
 		if f.monoSink != nil {
 			f.monoSink.Error(err)
 		} else if f.fluxSink != nil {
@@ -105,18 +109,17 @@ func (f *Flow[T]) next() {
 		return
 	}
 
-	f.awaitables = awaitables
-	for _, a := range f.awaitables {
-		a.Async() // Ensure task is running.
-		a.Notify(f.check)
+	// The extra one keeps awaitables that are already
+	// complete from starting the next step too early.
+	remaining := int32(len(awaitables)) + 1
+	check := func(rx.SignalType) {
+		if atomic.AddInt32(&remaining, -1) == 0 {
+			f.next()
+		}
 	}
-
-	f.steps = f.steps[1:]
-}
-
-func (f *Flow[T]) check(rx.SignalType) {
-	f.completed++
-	if f.completed >= len(f.awaitables) {
-		f.next()
+	for _, a := range awaitables {
+		a.Async() // Ensure task is running.
+		a.Notify(check)
 	}
+	check(rx.SignalComplete)
 }
-- 
2.43.0


From d23bba935032495622ba1a82b1936db3203743cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:06 +0000
Subject: [PATCH 16/66] fix: ignore frames for streams that have ended

A frame crossing the end or the cancellation of its stream, or the error
answering a fire-and-forget, closed the whole connection.
---
 go/handler/handler.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index d0ed8ea..0258c7e 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
-	"fmt"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
@@ -112,10 +111,7 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		var ok bool
 		str, ok = i.getStream(streamID)
 		if !ok {
-			// Return error
-			if frameType != frames.FrameTypeRequestN {
-				return fmt.Errorf("stream ID %d not found", streamID)
-			}
+			// The stream has ended, or never existed.
 			return
 		}
 	}
-- 
2.43.0


From c0c8b7dae409f858a53645ad60163be622a8d5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:38 +0000
Subject: [PATCH 17/66] fix: end each direction of a stream on its own and
 release it once both have

A Cancel frame completed the stream and forgot it without telling the
producer; completion of one direction of a channel removed the other one;
streams were registered after their handler ran, so early RequestN, Cancel
and Payload frames were lost; finished streams were never removed; a frame
that could not be sent left its request waiting.
---
 go/handler/caller.go                 |   6 +-
 go/handler/handler.go                | 145 ++++++++----------------
 go/proxy/flux.go                     | 127 ++++++++++++++++-----
 go/proxy/inbox.go                    |  76 +++++++++++++
 go/proxy/mono.go                     |  36 +++++-
 go/proxy/request_stream.go           | 159 +++++++++++++++++++++++++++
 go/proxy/stream.go                   |   4 +
 go/proxy/upstream.go                 |  53 +++++++++
 go/transport/wasmrs/guest/caller.go  |   6 +-
 go/transport/wasmrs/guest/guest.go   | 145 ++++++++----------------
 go/transport/wasmrs/host/caller.go   |   6 +-
 go/transport/wasmrs/host/instance.go | 136 +++++++----------------
 12 files changed, 562 insertions(+), 337 deletions(-)
 create mode 100644 go/proxy/inbox.go
 create mode 100644 go/proxy/request_stream.go
 create mode 100644 go/proxy/upstream.go

diff --git a/go/handler/caller.go b/go/handler/caller.go
index ffe3524..091a586 100644
--- a/go/handler/caller.go
+++ b/go/handler/caller.go
@@ -38,7 +38,7 @@ func (i *Handler) RequestResponse(ctx context.Context, p payload.Payload) mono.M
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, i.SendFrame, i.registerStream)
+	}, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -59,7 +59,7 @@ func (i *Handler) RequestStream(ctx context.Context, p payload.Payload) flux.Flu
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, i.SendFrame, i.registerStream)
+	}, nil, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -69,7 +69,7 @@ func (i *Handler) RequestChannel(ctx context.Context, p payload.Payload, in flux
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, i.SendFrame, i.registerStream)
+	}, in, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) getNextStreamID() uint32 {
diff --git a/go/handler/handler.go b/go/handler/handler.go
index 0258c7e..70704d5 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -10,7 +10,6 @@ import (
 	"github.com/nanobus/iota/go/invoke"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
@@ -142,7 +141,9 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestStream(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			s := proxy.NewRequestStream(i.ctx, streamID, false, i.sendFrame, i.removeStream)
+			i.registerStream(s) // Need to register for RequestN frames
+			go i.handleRequestStream(i.ctx, s, v.Data, v.Metadata, v.InitialN)
 
 		case frames.FrameTypeRequestChannel:
 			// if i.checkFollows(&rc) {
@@ -150,16 +151,18 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestChannel(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			s := proxy.NewRequestStream(i.ctx, streamID, true, i.sendFrame, i.removeStream)
+			i.registerStream(s) // Need to register for RequestN frames
+			go i.handleRequestChannel(i.ctx, s, v.Data, v.Metadata, v.InitialN)
 		}
 
 	case *frames.RequestN:
-		s := str.(DoRequest)
-		go s.DoRequest(int(v.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(v.N))
+		}
 
 	case *frames.Cancel:
-		str.OnComplete()
-		i.removeStream(streamID)
+		str.OnCancel()
 
 	case *frames.Payload:
 		// pl, ok := i.fragmentedPayloads[p.StreamID]
@@ -213,13 +216,10 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 
 		if v.Complete {
 			str.OnComplete()
-			i.removeStream(streamID)
 		}
 
 	case *frames.Error:
 		str.OnError(errors.New(v.Data))
-		str.OnComplete()
-		i.removeStream(streamID)
 	}
 
 	return nil
@@ -241,11 +241,11 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewRequestStream(ctx, streamID, false, i.sendFrame, i.removeStream)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
+			s.Send(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
@@ -254,7 +254,7 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 			})
 		},
 		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
+			s.Send(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
@@ -278,121 +278,100 @@ func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s)
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewRequestStream(ctx, streamID, false, i.sendFrame, i.removeStream)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p)
 }
 
-func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Handler) handleRequestStream(ctx context.Context, s *proxy.RequestStream, data, metadata []byte, initialN uint32) {
+	if !i.checkMetadata(s.StreamID(), metadata) {
+		i.removeStream(s.StreamID())
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestStreamHandler(operationID)
 	if handler == nil {
-		i.sendFrame(&frames.Error{
-			StreamID: streamID,
+		s.Send(&frames.Error{
+			StreamID: s.StreamID(),
 			Data:     "not_found",
 		})
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
-	// ctx := stream.WithContext(context.Background(), s)
+	ctx = proxy.WithContext(ctx, s)
 	f := handler(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
+			s.Send(&frames.Payload{
+				StreamID: s.StreamID(),
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 			})
 		},
 		OnComplete: func() {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
+			s.Send(&frames.Payload{
+				StreamID: s.StreamID(),
 				Complete: true,
 			})
 		},
 		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
+			s.Send(&frames.Error{
+				StreamID: s.StreamID(),
 				Data:     err.Error(),
 			})
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Attach(f.Subscription(), int(initialN))
 }
 
-func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Handler) handleRequestChannel(ctx context.Context, s *proxy.RequestStream, data, metadata []byte, initialN uint32) {
+	if !i.checkMetadata(s.StreamID(), metadata) {
+		i.removeStream(s.StreamID())
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestChannelHandler(operationID)
 	if handler == nil {
-		i.sendFrame(&frames.Error{
-			StreamID: streamID,
+		s.Send(&frames.Error{
+			StreamID: s.StreamID(),
 			Data:     "not_found",
 		})
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				i.sendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				i.sendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-			},
-		})
-	})
+	ctx = proxy.WithContext(ctx, s)
+	in := flux.Create(s.Input)
 	f := handler(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
+			s.Send(&frames.Payload{
+				StreamID: s.StreamID(),
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 			})
 		},
 		OnComplete: func() {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
+			s.Send(&frames.Payload{
+				StreamID: s.StreamID(),
 				Complete: true,
 			})
 		},
 		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
+			s.Send(&frames.Error{
+				StreamID: s.StreamID(),
 				Data:     err.Error(),
 			})
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Attach(f.Subscription(), int(initialN))
 }
 
 // func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
@@ -671,41 +650,3 @@ func (i *Handler) checkMetadata(streamID uint32, metadata []byte) bool {
 type DoRequest interface {
 	DoRequest(n int)
 }
-
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
-}
diff --git a/go/proxy/flux.go b/go/proxy/flux.go
index 6f0f588..85e53b9 100644
--- a/go/proxy/flux.go
+++ b/go/proxy/flux.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -9,22 +10,25 @@ import (
 	"github.com/nanobus/iota/go/rx/flux"
 )
 
-func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[payload.Payload], sendFrame func(frames.Frame) error, register func(Stream)) flux.Flux[payload.Payload] {
+func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[payload.Payload], sendFrame func(frames.Frame) error, register func(Stream), release func(streamID uint32)) flux.Flux[payload.Payload] {
 	p := flux.NewProcessor[payload.Payload]()
-	ss := streamFlux{
+	ss := &streamFlux{
 		ctx:       ctx,
 		Processor: p,
 		request:   request,
 		in:        in,
 		sendFrame: sendFrame,
 		register:  register,
+		release:   release,
 		first:     true,
+		inDone:    in == nil,
 	}
+	ss.out.open(p)
 	p.OnSubscribe(flux.OnSubscribe{
 		Request: ss.Request,
 		Cancel:  ss.Cancel,
 	})
-	return &ss
+	return ss
 }
 
 type streamFlux struct {
@@ -36,8 +40,16 @@ type streamFlux struct {
 	in         flux.Flux[payload.Payload]
 	sendFrame  func(frames.Frame) error
 	register   func(Stream)
-	first      bool
-	complete   bool
+	release    func(streamID uint32)
+	input      upstream // the subscription to in
+	out        inbox    // the response
+
+	mu        sync.Mutex
+	first     bool
+	sent      bool // the request is on its way
+	cancelled bool
+	complete  bool // the response has ended
+	inDone    bool // in has ended
 }
 
 func (s *streamFlux) Context() context.Context {
@@ -49,16 +61,42 @@ func (s *streamFlux) StreamID() uint32 {
 }
 
 func (s *streamFlux) OnNext(p payload.Payload) {
-	s.Processor.Next(p)
+	s.out.next(p)
 }
 
 func (s *streamFlux) OnComplete() {
-	s.Processor.Complete()
-	s.complete = true
+	s.finish(true, false)
+	s.out.complete()
 }
 
 func (s *streamFlux) OnError(err error) {
-	s.Processor.Error(err)
+	s.finish(true, true)
+	s.out.fail(err)
+}
+
+// OnCancel stops the input: the responder does not want more of it.
+func (s *streamFlux) OnCancel() {
+	s.finish(false, true)
+}
+
+func (s *streamFlux) Close(err error) {
+	s.OnError(err)
+}
+
+// finish ends the response, the input or both, and
+// releases the stream when nothing is left of it.
+func (s *streamFlux) finish(response, input bool) {
+	s.mu.Lock()
+	s.complete = s.complete || response
+	s.inDone = s.inDone || input
+	done := s.complete && s.inDone
+	s.mu.Unlock()
+	if input {
+		s.input.cancel()
+	}
+	if done {
+		s.release(s.request.StreamID)
+	}
 }
 
 func (s *streamFlux) Async() {
@@ -74,38 +112,55 @@ func (s *streamFlux) Notify(fn rx.FnFinally) {
 }
 
 func (s *streamFlux) Request(n int) {
+	s.mu.Lock()
 	if s.complete {
+		s.mu.Unlock()
 		return
 	}
-	if s.first {
+	first := s.first
+	s.first = false
+	s.mu.Unlock()
+
+	if first {
 		s.request.InitialN = uint32(n)
-		s.first = false
-		s.sendFrame(&s.request)
+		if err := s.sendFrame(&s.request); err != nil {
+			s.OnError(err)
+			return
+		}
 
-		if s.in != nil {
+		s.mu.Lock()
+		s.sent = true
+		cancelled := s.cancelled
+		inDone := s.inDone
+		s.mu.Unlock()
+		if cancelled {
+			s.sendCancel()
+			return
+		}
+
+		if s.in != nil && !inDone {
 			s.in.Subscribe(flux.Subscribe[payload.Payload]{
 				OnNext: func(p payload.Payload) {
-					s.sendFrame(&frames.Payload{
+					if err := s.sendFrame(&frames.Payload{
 						StreamID: s.request.StreamID,
 						Metadata: p.Metadata(),
 						Data:     p.Data(),
 						Next:     true,
-					})
+					}); err != nil {
+						s.inputFailed(err)
+					}
 				},
 				OnComplete: func() {
 					s.sendFrame(&frames.Payload{
 						StreamID: s.request.StreamID,
 						Complete: true,
 					})
+					s.finish(false, true)
 				},
-				OnError: func(err error) {
-					s.sendFrame(&frames.Error{
-						StreamID: s.request.StreamID,
-						Data:     err.Error(),
-					})
-				},
+				OnError:   s.inputFailed,
 				NoRequest: true,
 			})
+			s.input.attach(s.in.Subscription())
 		}
 	} else {
 		s.sendFrame(&frames.RequestN{
@@ -115,20 +170,42 @@ func (s *streamFlux) Request(n int) {
 	}
 }
 
+func (s *streamFlux) inputFailed(err error) {
+	s.sendFrame(&frames.Error{
+		StreamID: s.request.StreamID,
+		Data:     err.Error(),
+	})
+	s.finish(false, true)
+}
+
 func (s *streamFlux) Cancel() {
+	s.mu.Lock()
+	open := !s.complete
+	s.cancelled = true
+	sent := s.sent
+	s.mu.Unlock()
+	s.out.close()
+	s.finish(true, true)
+	if open && sent {
+		s.sendCancel()
+	}
+}
+
+func (s *streamFlux) sendCancel() {
 	s.sendFrame(&frames.Cancel{
 		StreamID: s.request.StreamID,
 	})
 }
 
 func (s *streamFlux) DoRequest(n int) {
-	sub := s.in.Subscription()
-	sub.Request(n)
+	s.input.request(n)
 }
 
 func (s *streamFlux) Subscribe(sub flux.Subscribe[payload.Payload]) flux.Flux[payload.Payload] {
-	s.subscribed = true
-	s.register(s)
+	if !s.subscribed {
+		s.subscribed = true
+		s.register(s)
+	}
 	s.Processor.Subscribe(sub)
 	return s
 }
diff --git a/go/proxy/inbox.go b/go/proxy/inbox.go
new file mode 100644
index 0000000..addee58
--- /dev/null
+++ b/go/proxy/inbox.go
@@ -0,0 +1,76 @@
+package proxy
+
+import (
+	"sync"
+
+	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx/flux"
+)
+
+// inbox hands the signals of a stream to its sink one at a time and in order,
+// whoever they come from. Signals that precede the sink are kept for it.
+type inbox struct {
+	mu      sync.Mutex
+	sink    flux.Sink[payload.Payload]
+	signals []func(flux.Sink[payload.Payload])
+	busy    bool
+	ended   bool
+}
+
+func (b *inbox) open(sink flux.Sink[payload.Payload]) {
+	b.mu.Lock()
+	b.sink = sink
+	b.drain()
+}
+
+func (b *inbox) next(p payload.Payload) {
+	b.put(false, func(sink flux.Sink[payload.Payload]) { sink.Next(p) })
+}
+
+func (b *inbox) complete() {
+	b.put(true, flux.Sink[payload.Payload].Complete)
+}
+
+func (b *inbox) fail(err error) {
+	b.put(true, func(sink flux.Sink[payload.Payload]) { sink.Error(err) })
+}
+
+func (b *inbox) put(last bool, signal func(flux.Sink[payload.Payload])) {
+	b.mu.Lock()
+	if !b.ended {
+		b.ended = last
+		b.signals = append(b.signals, signal)
+	}
+	b.drain()
+}
+
+// drain is called with the lock held and releases it.
+func (b *inbox) drain() {
+	for !b.busy && b.sink != nil && len(b.signals) > 0 {
+		signal := b.signals[0]
+		b.signals = b.signals[1:]
+		b.busy = true
+		b.mu.Unlock()
+		signal(b.sink)
+		b.mu.Lock()
+		b.busy = false
+	}
+	b.mu.Unlock()
+}
+
+// close discards what has not been handed over and
+// tells whether the end of the stream had not come yet.
+func (b *inbox) close() (open bool) {
+	b.mu.Lock()
+	defer b.mu.Unlock()
+	open = !b.ended
+	b.ended = true
+	b.signals = nil
+	return open
+}
+
+func (b *inbox) done() bool {
+	b.mu.Lock()
+	defer b.mu.Unlock()
+	return b.ended
+}
diff --git a/go/proxy/mono.go b/go/proxy/mono.go
index 793a2a6..95177d7 100644
--- a/go/proxy/mono.go
+++ b/go/proxy/mono.go
@@ -9,7 +9,7 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
-func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream)) mono.Mono[payload.Payload] {
+func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream), release func(streamID uint32)) mono.Mono[payload.Payload] {
 	m := mono.NewProcessor[payload.Payload]()
 	ss := streamMono{
 		ctx:       ctx,
@@ -17,6 +17,7 @@ func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(fra
 		request:   request,
 		sendFrame: sendFrame,
 		register:  register,
+		release:   release,
 	}
 	return &ss
 }
@@ -29,6 +30,7 @@ type streamMono struct {
 	request    frames.RequestPayload
 	sendFrame  func(frames.Frame) error
 	register   func(Stream)
+	release    func(streamID uint32)
 }
 
 func (s *streamMono) Context() context.Context {
@@ -40,17 +42,28 @@ func (s *streamMono) StreamID() uint32 {
 }
 
 func (s *streamMono) OnNext(p payload.Payload) {
+	s.release(s.request.StreamID)
 	s.Processor.Success(p)
 }
 
 func (s *streamMono) OnComplete() {
-	// Not implemented
+	// Has no effect unless the response had no payload.
+	s.OnNext(payload.New(nil))
 }
 
 func (s *streamMono) OnError(err error) {
+	s.release(s.request.StreamID)
 	s.Processor.Error(err)
 }
 
+func (s *streamMono) OnCancel() {
+	// There is nothing to stop.
+}
+
+func (s *streamMono) Close(err error) {
+	s.OnError(err)
+}
+
 func (s *streamMono) Async() {
 	// If treated like an awaitable and not subscribed,
 	// then subscribe without callbacks.
@@ -64,9 +77,26 @@ func (s *streamMono) Notify(fn rx.FnFinally) {
 }
 
 func (s *streamMono) Subscribe(sub mono.Subscribe[payload.Payload]) mono.Mono[payload.Payload] {
+	if s.subscribed {
+		// The request has been sent already.
+		s.Notify(func(signal rx.SignalType) {
+			value, err := s.Get()
+			if err == nil && sub.OnSuccess != nil {
+				sub.OnSuccess(value)
+			} else if err != nil && sub.OnError != nil {
+				sub.OnError(err)
+			}
+			if sub.Finally != nil {
+				sub.Finally(signal)
+			}
+		})
+		return s
+	}
 	s.subscribed = true
 	s.register(s)
 	s.Processor.Subscribe(sub)
-	s.sendFrame(&s.request)
+	if err := s.sendFrame(&s.request); err != nil {
+		s.OnError(err)
+	}
 	return s
 }
diff --git a/go/proxy/request_stream.go b/go/proxy/request_stream.go
new file mode 100644
index 0000000..2e646b0
--- /dev/null
+++ b/go/proxy/request_stream.go
@@ -0,0 +1,159 @@
+package proxy
+
+import (
+	"context"
+	"errors"
+	"sync"
+
+	"github.com/nanobus/iota/go/internal/frames"
+	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx"
+	"github.com/nanobus/iota/go/rx/flux"
+)
+
+var (
+	errCancelled = errors.New("stream cancelled")
+	errEnded     = errors.New("stream ended")
+)
+
+// RequestStream is the responder's side of a request. It is released
+// when both what it sends and, for channels, what it receives has ended.
+type RequestStream struct {
+	ctx       context.Context
+	streamID  uint32
+	sendFrame func(frames.Frame) error
+	release   func(streamID uint32)
+	in        inbox    // the input of a channel
+	out       upstream // the flux that answers the request
+
+	mu      sync.Mutex
+	outDone bool
+}
+
+var _ = (Stream)((*RequestStream)(nil))
+
+func NewRequestStream(ctx context.Context, streamID uint32, channel bool, sendFrame func(frames.Frame) error, release func(streamID uint32)) *RequestStream {
+	return &RequestStream{
+		ctx:       ctx,
+		streamID:  streamID,
+		sendFrame: sendFrame,
+		release:   release,
+		in:        inbox{ended: !channel},
+	}
+}
+
+func (r *RequestStream) Context() context.Context {
+	return r.ctx
+}
+
+func (r *RequestStream) StreamID() uint32 {
+	return r.streamID
+}
+
+// Attach hands the demand of the requester on to the subscription of the answering flux.
+func (r *RequestStream) Attach(sub rx.Subscription, initialN int) {
+	r.out.request(initialN)
+	r.out.attach(sub)
+}
+
+// Input is the source of a channel's input flux.
+func (r *RequestStream) Input(sink flux.Sink[payload.Payload]) {
+	sink.OnSubscribe(flux.OnSubscribe{
+		Request: func(n int) {
+			if r.in.done() {
+				return
+			}
+			r.sendFrame(&frames.RequestN{
+				StreamID: r.streamID,
+				N:        uint32(n),
+			})
+		},
+		Cancel: func() {
+			if r.in.close() {
+				r.sendFrame(&frames.Cancel{
+					StreamID: r.streamID,
+				})
+				r.releaseIfDone()
+			}
+		},
+	})
+	r.in.open(sink)
+}
+
+// Send sends a frame of the answer, unless the answer has ended.
+// If it cannot be sent, the request fails.
+func (r *RequestStream) Send(f frames.Frame) {
+	_, failed := f.(*frames.Error)
+	p, _ := f.(*frames.Payload)
+	last := failed || p != nil && p.Complete
+	if !r.sending(last) {
+		return
+	}
+	if err := r.sendFrame(f); err != nil {
+		if !last && !r.sending(true) {
+			return
+		}
+		last, failed = true, true
+		r.out.cancel()
+		r.sendFrame(&frames.Error{
+			StreamID: r.streamID,
+			Data:     err.Error(),
+		})
+	}
+	if failed {
+		r.in.fail(errEnded)
+	}
+	if last {
+		r.releaseIfDone()
+	}
+}
+
+// sending tells whether the answer is still open, and ends it if this is the last frame.
+func (r *RequestStream) sending(last bool) bool {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	if r.outDone {
+		return false
+	}
+	r.outDone = last
+	return true
+}
+
+func (r *RequestStream) releaseIfDone() {
+	r.mu.Lock()
+	outDone := r.outDone
+	r.mu.Unlock()
+	if outDone && r.in.done() {
+		r.release(r.streamID)
+	}
+}
+
+func (r *RequestStream) DoRequest(n int) {
+	r.out.request(n)
+}
+
+func (r *RequestStream) OnNext(p payload.Payload) {
+	r.in.next(p)
+}
+
+func (r *RequestStream) OnComplete() {
+	r.in.complete()
+	r.releaseIfDone()
+}
+
+func (r *RequestStream) OnError(err error) {
+	r.in.fail(err)
+	r.releaseIfDone()
+}
+
+// OnCancel stops the answering flux: the requester does not want more.
+func (r *RequestStream) OnCancel() {
+	r.Close(errCancelled)
+}
+
+// Close ends both directions.
+func (r *RequestStream) Close(err error) {
+	r.sending(true)
+	r.out.cancel()
+	r.OnError(err)
+}
diff --git a/go/proxy/stream.go b/go/proxy/stream.go
index 941be46..263b29a 100644
--- a/go/proxy/stream.go
+++ b/go/proxy/stream.go
@@ -12,6 +12,10 @@ type Stream interface {
 	OnNext(p payload.Payload)
 	OnComplete()
 	OnError(err error)
+	// OnCancel is called when the peer does not want any more items.
+	OnCancel()
+	// Close ends the stream because it cannot go on.
+	Close(err error)
 }
 
 type streamKey struct{}
diff --git a/go/proxy/upstream.go b/go/proxy/upstream.go
new file mode 100644
index 0000000..0c6e0ac
--- /dev/null
+++ b/go/proxy/upstream.go
@@ -0,0 +1,53 @@
+package proxy
+
+import (
+	"sync"
+
+	"github.com/nanobus/iota/go/rx"
+)
+
+// upstream is a subscription driven by the peer. What the peer asks for
+// before the subscription exists is kept for it.
+type upstream struct {
+	mu        sync.Mutex
+	sub       rx.Subscription
+	n         int
+	cancelled bool
+}
+
+func (u *upstream) attach(sub rx.Subscription) {
+	u.mu.Lock()
+	u.sub = sub
+	n := u.n
+	cancelled := u.cancelled
+	u.mu.Unlock()
+	if cancelled {
+		sub.Cancel()
+	} else if n > 0 {
+		sub.Request(n)
+	}
+}
+
+func (u *upstream) request(n int) {
+	u.mu.Lock()
+	sub := u.sub
+	if sub == nil {
+		if u.n += n; u.n < 0 || u.n > rx.RequestMax {
+			u.n = rx.RequestMax
+		}
+	}
+	u.mu.Unlock()
+	if sub != nil {
+		sub.Request(n)
+	}
+}
+
+func (u *upstream) cancel() {
+	u.mu.Lock()
+	u.cancelled = true
+	sub := u.sub
+	u.mu.Unlock()
+	if sub != nil {
+		sub.Cancel()
+	}
+}
diff --git a/go/transport/wasmrs/guest/caller.go b/go/transport/wasmrs/guest/caller.go
index aae5224..c8ebb10 100644
--- a/go/transport/wasmrs/guest/caller.go
+++ b/go/transport/wasmrs/guest/caller.go
@@ -43,7 +43,7 @@ func (i *Caller) RequestResponse(ctx context.Context, p payload.Payload) mono.Mo
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, sendFrame, registerStream)
+	}, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -64,7 +64,7 @@ func (i *Caller) RequestStream(ctx context.Context, p payload.Payload) flux.Flux
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, sendFrame, registerStream)
+	}, nil, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -75,7 +75,7 @@ func (i *Caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, sendFrame, registerStream)
+	}, in, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) getNextStreamID() uint32 {
diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 92fffb0..3bf6342 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -13,7 +13,6 @@ import (
 	"github.com/nanobus/iota/go/operations"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
@@ -184,7 +183,9 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 
-			handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
+			s := proxy.NewRequestStream(ctx, rs.StreamID, false, sendFrame, removeStream)
+			registerStream(s) // Need to register for RequestN frames
+			handleRequestStream(ctx, s, rs.Data, rs.Metadata, rs.InitialN)
 
 		case frames.FrameTypeRequestChannel:
 			var rc frames.RequestPayload
@@ -200,7 +201,9 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 
-			handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+			s := proxy.NewRequestStream(ctx, rc.StreamID, true, sendFrame, removeStream)
+			registerStream(s) // Need to register for RequestN frames
+			handleRequestChannel(ctx, s, rc.Data, rc.Metadata, rc.InitialN)
 
 		case frames.FrameTypeRequestN:
 			var rn frames.RequestN
@@ -212,12 +215,12 @@ func GuestSend(endPos uint32) {
 				return
 			}
 
-			s := str.(DoRequest)
-			s.DoRequest(int(rn.N))
+			if s, ok := str.(DoRequest); ok {
+				s.DoRequest(int(rn.N))
+			}
 
 		case frames.FrameTypeCancel:
-			str.OnComplete()
-			removeStream(header.StreamID())
+			str.OnCancel()
 
 		case frames.FrameTypePayload:
 			var p frames.Payload
@@ -279,7 +282,6 @@ func GuestSend(endPos uint32) {
 
 			if p.Complete {
 				str.OnComplete()
-				removeStream(header.StreamID())
 			}
 
 		case frames.FrameTypeError:
@@ -288,8 +290,6 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 			str.OnError(errors.New(p.Data))
-			str.OnComplete()
-			removeStream(header.StreamID())
 		}
 	}
 }
@@ -310,11 +310,11 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewRequestStream(ctx, streamID, false, sendFrame, removeStream)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
+			s.Send(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
@@ -323,7 +323,7 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 			})
 		},
 		OnError: func(err error) {
-			sendFrame(&frames.Error{
+			s.Send(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
@@ -347,121 +347,100 @@ func handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s)
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewRequestStream(ctx, streamID, false, sendFrame, removeStream)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p)
 }
 
-func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !checkMetadata(streamID, metadata) {
+func handleRequestStream(ctx context.Context, s *proxy.RequestStream, data, metadata []byte, initialN uint32) {
+	if !checkMetadata(s.StreamID(), metadata) {
+		removeStream(s.StreamID())
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestStreamHandler(operationID)
 	if handler == nil {
-		sendFrame(&frames.Error{
-			StreamID: streamID,
+		s.Send(&frames.Error{
+			StreamID: s.StreamID(),
 			Data:     "not_found",
 		})
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
-	// ctx := stream.WithContext(context.Background(), s)
+	ctx = proxy.WithContext(ctx, s)
 	f := handler(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
+			s.Send(&frames.Payload{
+				StreamID: s.StreamID(),
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 			})
 		},
 		OnComplete: func() {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
+			s.Send(&frames.Payload{
+				StreamID: s.StreamID(),
 				Complete: true,
 			})
 		},
 		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
+			s.Send(&frames.Error{
+				StreamID: s.StreamID(),
 				Data:     err.Error(),
 			})
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Attach(f.Subscription(), int(initialN))
 }
 
-func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !checkMetadata(streamID, metadata) {
+func handleRequestChannel(ctx context.Context, s *proxy.RequestStream, data, metadata []byte, initialN uint32) {
+	if !checkMetadata(s.StreamID(), metadata) {
+		removeStream(s.StreamID())
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestChannelHandler(operationID)
 	if handler == nil {
-		sendFrame(&frames.Error{
-			StreamID: streamID,
+		s.Send(&frames.Error{
+			StreamID: s.StreamID(),
 			Data:     "not_found",
 		})
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				sendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				sendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-			},
-		})
-	})
+	ctx = proxy.WithContext(ctx, s)
+	in := flux.Create(s.Input)
 	f := handler(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
+			s.Send(&frames.Payload{
+				StreamID: s.StreamID(),
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 			})
 		},
 		OnComplete: func() {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
+			s.Send(&frames.Payload{
+				StreamID: s.StreamID(),
 				Complete: true,
 			})
 		},
 		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
+			s.Send(&frames.Error{
+				StreamID: s.StreamID(),
 				Data:     err.Error(),
 			})
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Attach(f.Subscription(), int(initialN))
 }
 
 func checkMetadata(streamID uint32, metadata []byte) bool {
@@ -572,44 +551,6 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
-}
-
 //go:inline
 func bytesToPointer(s []byte) uintptr {
 	//nolint
diff --git a/go/transport/wasmrs/host/caller.go b/go/transport/wasmrs/host/caller.go
index 08062d7..63a7238 100644
--- a/go/transport/wasmrs/host/caller.go
+++ b/go/transport/wasmrs/host/caller.go
@@ -36,7 +36,7 @@ func (i *Instance) RequestResponse(ctx context.Context, p payload.Payload) mono.
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, i.SendFrame, i.registerStream)
+	}, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -57,7 +57,7 @@ func (i *Instance) RequestStream(ctx context.Context, p payload.Payload) flux.Fl
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, i.SendFrame, i.registerStream)
+	}, nil, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -67,7 +67,7 @@ func (i *Instance) RequestChannel(ctx context.Context, p payload.Payload, in flu
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, i.SendFrame, i.registerStream)
+	}, in, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) getNextStreamID() uint32 {
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 04dfbbb..0e61390 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -16,7 +16,6 @@ import (
 	"github.com/nanobus/iota/go/operations"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
@@ -318,7 +317,9 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		go i.handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
+		s := proxy.NewRequestStream(ctx, rs.StreamID, false, i.SendFrame, i.removeStream)
+		i.registerStream(s) // Need to register for RequestN frames
+		go i.handleRequestStream(ctx, s, rs.Data, rs.Metadata, rs.InitialN)
 
 	case frames.FrameTypeRequestChannel:
 		var rc frames.RequestPayload
@@ -334,7 +335,9 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		go i.handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+		s := proxy.NewRequestStream(ctx, rc.StreamID, true, i.SendFrame, i.removeStream)
+		i.registerStream(s) // Need to register for RequestN frames
+		go i.handleRequestChannel(ctx, s, rc.Data, rc.Metadata, rc.InitialN)
 
 	case frames.FrameTypeRequestN:
 		var rn frames.RequestN
@@ -346,12 +349,12 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		s := str.(DoRequest)
-		go s.DoRequest(int(rn.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(rn.N))
+		}
 
 	case frames.FrameTypeCancel:
-		str.OnComplete()
-		i.removeStream(header.StreamID())
+		str.OnCancel()
 
 	case frames.FrameTypePayload:
 		var p frames.Payload
@@ -410,7 +413,6 @@ func (i *Instance) recvOne(data []byte) {
 
 		if p.Complete {
 			str.OnComplete()
-			i.removeStream(header.StreamID())
 		}
 
 	case frames.FrameTypeError:
@@ -419,8 +421,6 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 		str.OnError(errors.New(p.Data))
-		str.OnComplete()
-		i.removeStream(header.StreamID())
 	}
 }
 
@@ -445,9 +445,10 @@ func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, d
 		return
 	}
 	p := payload.New(data, metadata)
+	s := proxy.NewRequestStream(ctx, streamID, false, i.SendFrame, i.removeStream)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
+			s.Send(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
@@ -456,7 +457,7 @@ func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, d
 			})
 		},
 		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
+			s.Send(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
@@ -488,8 +489,9 @@ func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, dat
 	handler(ctx, p)
 }
 
-func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Instance) handleRequestStream(ctx context.Context, s *proxy.RequestStream, data, metadata []byte, initialN uint32) {
+	if !i.checkMetadata(s.StreamID(), metadata) {
+		i.removeStream(s.StreamID())
 		return
 	}
 
@@ -502,47 +504,45 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 	}
 	handlerRS := i.getRequestStreamHandler(operationID)
 	if handlerRS == nil {
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
+		s.Send(&frames.Error{
+			StreamID: s.StreamID(),
 			Data:     "not_found",
 		})
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
+	ctx = proxy.WithContext(ctx, s)
 	f := handlerRS(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
+			s.Send(&frames.Payload{
+				StreamID: s.StreamID(),
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 			})
 		},
 		OnComplete: func() {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
+			s.Send(&frames.Payload{
+				StreamID: s.StreamID(),
 				Complete: true,
 			})
 		},
 		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
+			s.Send(&frames.Error{
+				StreamID: s.StreamID(),
 				Data:     err.Error(),
 			})
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Attach(f.Subscription(), int(initialN))
 }
 
-func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.RequestStream, data, metadata []byte, initialN uint32) {
+	if !i.checkMetadata(s.StreamID(), metadata) {
+		i.removeStream(s.StreamID())
 		return
 	}
 
@@ -555,59 +555,41 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 	}
 	handlerRC := i.getRequestChannelHandler(operationID)
 	if handlerRC == nil {
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
+		s.Send(&frames.Error{
+			StreamID: s.StreamID(),
 			Data:     "not_found",
 		})
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				i.SendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				i.SendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-			},
-		})
-	})
+	ctx = proxy.WithContext(ctx, s)
+	in := flux.Create(s.Input)
 	f := handlerRC(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
+			s.Send(&frames.Payload{
+				StreamID: s.StreamID(),
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 			})
 		},
 		OnComplete: func() {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
+			s.Send(&frames.Payload{
+				StreamID: s.StreamID(),
 				Complete: true,
 			})
 		},
 		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
+			s.Send(&frames.Error{
+				StreamID: s.StreamID(),
 				Data:     err.Error(),
 			})
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Attach(f.Subscription(), int(initialN))
 }
 
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
@@ -695,41 +677,3 @@ func (i *Instance) checkFollows(requestFrame *frames.RequestPayload) bool {
 type DoRequest interface {
 	DoRequest(n int)
 }
-
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
-}
-- 
2.43.0


From 3517a88683ece0a30cae1f82280d168931c281a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:38 +0000
Subject: [PATCH 18/66] fix: request a remote stream when Block is called on it

---
 go/proxy/flux_host.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)
 create mode 100644 go/proxy/flux_host.go

diff --git a/go/proxy/flux_host.go b/go/proxy/flux_host.go
new file mode 100644
index 0000000..6414921
--- /dev/null
+++ b/go/proxy/flux_host.go
@@ -0,0 +1,13 @@
+//go:build !purego && !appengine && !wasm && !tinygo.wasm && !wasi
+// +build !purego,!appengine,!wasm,!tinygo.wasm,!wasi
+
+package proxy
+
+import (
+	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx/flux"
+)
+
+func (s *streamFlux) Block(sub flux.Subscribe[payload.Payload]) error {
+	return flux.Block(flux.Flux[payload.Payload](s), sub)
+}
-- 
2.43.0


From 59c2b85336a1cbe82b827405711d1364faa567f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:14 +0000
Subject: [PATCH 19/66] fix: end pending requests when their connection ends

A transport now also stops reading when its context is cancelled, and
closes the connection before it waits for its dispatcher.
---
 go/handler/handler.go             | 13 ++++++++++---
 go/proxy/lookup.go                | 24 +++++++++++++++++++++++-
 go/transport/rsocket/transport.go | 25 +++++++++++++++++++++----
 3 files changed, 54 insertions(+), 8 deletions(-)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index 70704d5..1a4880c 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -16,6 +16,8 @@ import (
 
 type FrameSender func(f frames.Frame) error
 
+var errClosed = errors.New("connection closed")
+
 type Handler struct {
 	ctx          context.Context
 	sendFrame    FrameSender
@@ -70,15 +72,20 @@ func (i *Handler) SetFrameSender(sendFrame func(f frames.Frame) error) {
 	i.sendFrame = sendFrame
 }
 
+// Close ends all requests that are still pending, and those made later, with an error.
 func (i *Handler) Close() error {
+	i.guestStreams.Close(errClosed)
+	i.hostStreams.Close(errClosed)
 	return nil
 }
 
 func (i *Handler) registerStream(s proxy.Stream) {
+	streams := &i.hostStreams
 	if s.StreamID()&1 == 1 {
-		i.guestStreams.Add(s)
-	} else {
-		i.hostStreams.Add(s)
+		streams = &i.guestStreams
+	}
+	if !streams.Add(s) {
+		s.Close(errClosed)
 	}
 }
 
diff --git a/go/proxy/lookup.go b/go/proxy/lookup.go
index 58eeb58..2872742 100644
--- a/go/proxy/lookup.go
+++ b/go/proxy/lookup.go
@@ -7,6 +7,8 @@ type (
 		mu   sync.Mutex
 		head *node
 		tail *node
+
+		closed bool
 	}
 
 	node struct {
@@ -26,10 +28,15 @@ func (l *Lookup) Get(id uint32) (Stream, bool) {
 	return nil, false
 }
 
-func (l *Lookup) Add(s Stream) {
+// Add adds a stream. It returns false if the lookup is closed.
+func (l *Lookup) Add(s Stream) bool {
 	l.mu.Lock()
 	defer l.mu.Unlock()
 
+	if l.closed {
+		return false
+	}
+
 	newNode := &node{
 		stream: s,
 	}
@@ -45,6 +52,7 @@ func (l *Lookup) Add(s Stream) {
 		currentNode.next = newNode
 		l.tail = newNode
 	}
+	return true
 }
 
 func (l *Lookup) Remove(id uint32) {
@@ -71,6 +79,20 @@ func (l *Lookup) Remove(id uint32) {
 	}
 }
 
+// Close ends all streams and refuses new ones.
+func (l *Lookup) Close(err error) {
+	l.mu.Lock()
+	first := l.head
+	l.head = nil
+	l.tail = nil
+	l.closed = true
+	l.mu.Unlock()
+
+	for n := first; n != nil; n = n.next {
+		n.stream.Close(err)
+	}
+}
+
 func (l *Lookup) find(id uint32) *node {
 	for n := l.head; n != nil; n = n.next {
 		if n.stream.StreamID() == id {
diff --git a/go/transport/rsocket/transport.go b/go/transport/rsocket/transport.go
index e043506..7febb31 100644
--- a/go/transport/rsocket/transport.go
+++ b/go/transport/rsocket/transport.go
@@ -172,11 +172,8 @@ func (p *Transport) loopReadBuffer(ctx context.Context, bf *buffer.Unbounded[fra
 
 // Start start transport.
 func (p *Transport) Start(ctx context.Context) error {
-	defer func() {
-		_ = p.Close()
-	}()
-
 	done := make(chan struct{}, 1)
+	stop := make(chan struct{})
 	errChan := make(chan error, 1)
 
 	var (
@@ -184,10 +181,27 @@ func (p *Transport) Start(ctx context.Context) error {
 	)
 
 	defer func() {
+		close(stop)
+		_ = p.Close()
+
 		framesBuffer.Dispose()
 
 		<-done
 		// <-done
+
+		// No frame will arrive any more.
+		if closer, ok := p.handler.(io.Closer); ok {
+			_ = closer.Close()
+		}
+	}()
+
+	// A pending read ends when the connection is closed.
+	go func() {
+		select {
+		case <-ctx.Done():
+			_ = p.Close()
+		case <-stop:
+		}
 	}()
 
 	go p.loopReadBuffer(ctx, framesBuffer, errChan, done)
@@ -200,6 +214,9 @@ func (p *Transport) Start(ctx context.Context) error {
 			return fmt.Errorf("dispatch incoming frame failed: %w", err)
 		default:
 			f, err := p.conn.Read()
+			if err != nil && ctx.Err() != nil {
+				return ctx.Err()
+			}
 			if err == io.EOF {
 				return nil
 			}
-- 
2.43.0


From 72c8e2dc63f3bbc9c152e3322b26b3141ffe36c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:14 +0000
Subject: [PATCH 20/66] fix: forget ended connections and close late ones on an
 RSocket server

---
 go/transport/rsocket/tcp_transport.go | 28 ++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/go/transport/rsocket/tcp_transport.go b/go/transport/rsocket/tcp_transport.go
index 20b9935..e8f733b 100644
--- a/go/transport/rsocket/tcp_transport.go
+++ b/go/transport/rsocket/tcp_transport.go
@@ -52,12 +52,17 @@ func (t *tcpServerTransport) Close() (err error) {
 }
 
 func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (err error) {
-	t.l, err = t.lf(ctx)
+	l, err := t.lf(ctx)
 	if err != nil {
 		notifier <- false
 		err = fmt.Errorf("listen tcp server failed: %w", err)
 		return
 	}
+	if !t.putListener(l) {
+		_ = l.Close()
+		notifier <- false
+		return errTransportClosed
+	}
 
 	defer func() {
 		_ = t.Close()
@@ -79,7 +84,7 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 	// Start loop of accepting connections.
 	for {
 		var c net.Conn
-		c, err = t.l.Accept()
+		c, err = l.Accept()
 		if err == io.EOF || isClosedErr(err) {
 			err = nil
 			break
@@ -97,17 +102,34 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 		})
 
 		if t.putTransport(tp) {
-			go tp.Start(ctx)
+			go func() {
+				_ = tp.Start(ctx)
+				t.removeTransport(tp)
+			}()
 			go t.acceptor(ctx, h, func(tp *Transport) {
 				t.removeTransport(tp)
 			})
 		} else {
+			_ = tp.Close()
 			_ = t.Close()
 		}
 	}
 	return
 }
 
+func (t *tcpServerTransport) putListener(l net.Listener) bool {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	select {
+	case <-t.done:
+		// already closed
+		return false
+	default:
+		t.l = l
+		return true
+	}
+}
+
 func (t *tcpServerTransport) removeTransport(tp *Transport) {
 	t.mu.Lock()
 	defer t.mu.Unlock()
-- 
2.43.0


From 456b99d2a43c4acb7e60ee584a05fdf7f8039168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:46 +0000
Subject: [PATCH 21/66] fix: never hand out stream id zero when server ids wrap
 around

---
 go/internal/socket/stream_id.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/internal/socket/stream_id.go b/go/internal/socket/stream_id.go
index 974ab23..b25f404 100644
--- a/go/internal/socket/stream_id.go
+++ b/go/internal/socket/stream_id.go
@@ -20,9 +20,9 @@ type ServerStreamIDs uint64
 func (p *ServerStreamIDs) Next() (uint32, bool) {
 	// 2,4,6,8...
 	seed := atomic.AddUint64((*uint64)(p), 1)
-	v := 2 * seed
+	v := _maskStreamID & (2 * seed)
 	if v != 0 {
-		return uint32(_maskStreamID & v), seed <= _halfSeed
+		return uint32(v), seed <= _halfSeed
 	}
 	return p.Next()
 }
-- 
2.43.0


From 42aef745a563911725d7e19d39369c2eccb5ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:46 +0000
Subject: [PATCH 22/66] fix: guard the operation registries against concurrent
 use

---
 go/invoke/handlers.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/go/invoke/handlers.go b/go/invoke/handlers.go
index 8fb1f20..5a65096 100644
--- a/go/invoke/handlers.go
+++ b/go/invoke/handlers.go
@@ -2,6 +2,7 @@ package invoke
 
 import (
 	"context"
+	"sync"
 
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/rx/flux"
@@ -33,6 +34,8 @@ type Handlers struct {
 }
 
 var (
+	mu sync.RWMutex // guards all of the below
+
 	requestResponseHandlers    = make([]RequestResponseHandler, 0, 20)
 	requestResponseHandlerInfo = make([]HandlerInfo, 0, 20)
 
@@ -52,6 +55,8 @@ var (
 )
 
 func GetOperations() Operations {
+	mu.RLock()
+	defer mu.RUnlock()
 	return Operations{
 		Exported: Handlers{
 			RequestResponse: requestResponseHandlerInfo,
@@ -69,11 +74,15 @@ func GetOperations() Operations {
 }
 
 func ExportRequestResponse(namespace, operation string, handler RequestResponseHandler) {
+	mu.Lock()
+	defer mu.Unlock()
 	requestResponseHandlers = append(requestResponseHandlers, handler)
 	requestResponseHandlerInfo = append(requestResponseHandlerInfo, HandlerInfo{namespace, operation})
 }
 
 func GetRequestResponseHandler(operationID uint32) RequestResponseHandler {
+	mu.RLock()
+	defer mu.RUnlock()
 	if operationID >= uint32(len(requestResponseHandlers)) {
 		return nil
 	}
@@ -81,11 +90,15 @@ func GetRequestResponseHandler(operationID uint32) RequestResponseHandler {
 }
 
 func ExportFireAndForget(namespace, operation string, handler FireAndForgetHandler) {
+	mu.Lock()
+	defer mu.Unlock()
 	fireAndForgetHandlers = append(fireAndForgetHandlers, handler)
 	fireAndForgetHandlerInfo = append(fireAndForgetHandlerInfo, HandlerInfo{namespace, operation})
 }
 
 func GetFireAndForgetHandler(operationID uint32) FireAndForgetHandler {
+	mu.RLock()
+	defer mu.RUnlock()
 	if operationID >= uint32(len(fireAndForgetHandlers)) {
 		return nil
 	}
@@ -93,11 +106,15 @@ func GetFireAndForgetHandler(operationID uint32) FireAndForgetHandler {
 }
 
 func ExportRequestStream(namespace, operation string, handler RequestStreamHandler) {
+	mu.Lock()
+	defer mu.Unlock()
 	requestStreamHandlers = append(requestStreamHandlers, handler)
 	requestStreamHandlerInfo = append(requestStreamHandlerInfo, HandlerInfo{namespace, operation})
 }
 
 func GetRequestStreamHandler(operationID uint32) RequestStreamHandler {
+	mu.RLock()
+	defer mu.RUnlock()
 	if operationID >= uint32(len(requestStreamHandlers)) {
 		return nil
 	}
@@ -105,11 +122,15 @@ func GetRequestStreamHandler(operationID uint32) RequestStreamHandler {
 }
 
 func ExportRequestChannel(namespace, operation string, handler RequestChannelHandler) {
+	mu.Lock()
+	defer mu.Unlock()
 	requestChannelHandlers = append(requestChannelHandlers, handler)
 	requestChannelHandlerInfo = append(requestChannelHandlerInfo, HandlerInfo{namespace, operation})
 }
 
 func GetRequestChannelHandler(operationID uint32) RequestChannelHandler {
+	mu.RLock()
+	defer mu.RUnlock()
 	if operationID >= uint32(len(requestChannelHandlers)) {
 		return nil
 	}
@@ -117,6 +138,8 @@ func GetRequestChannelHandler(operationID uint32) RequestChannelHandler {
 }
 
 func ImportRequestResponse(namespace, operation string) uint32 {
+	mu.Lock()
+	defer mu.Unlock()
 	for i, op := range requestResponseImports {
 		if op.Namespace == namespace && op.Operation == operation {
 			return uint32(i)
@@ -128,6 +151,8 @@ func ImportRequestResponse(namespace, operation string) uint32 {
 }
 
 func ImportFireAndForget(namespace, operation string) uint32 {
+	mu.Lock()
+	defer mu.Unlock()
 	for i, op := range requestFNFImports {
 		if op.Namespace == namespace && op.Operation == operation {
 			return uint32(i)
@@ -139,6 +164,8 @@ func ImportFireAndForget(namespace, operation string) uint32 {
 }
 
 func ImportRequestStream(namespace, operation string) uint32 {
+	mu.Lock()
+	defer mu.Unlock()
 	for i, op := range requestStreamImports {
 		if op.Namespace == namespace && op.Operation == operation {
 			return uint32(i)
@@ -150,6 +177,8 @@ func ImportRequestStream(namespace, operation string) uint32 {
 }
 
 func ImportRequestChannel(namespace, operation string) uint32 {
+	mu.Lock()
+	defer mu.Unlock()
 	for i, op := range requestChannelImports {
 		if op.Namespace == namespace && op.Operation == operation {
 			return uint32(i)
-- 
2.43.0


From c13f5f542fefceb5d5b4d4e9fd44376c1f0e8603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:46 +0000
Subject: [PATCH 23/66] fix: never reuse the handle of a live instance

A handle was the address of the entry, which a later entry gets once the
first has been collected.
---
 go/invoke/instances.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/go/invoke/instances.go b/go/invoke/instances.go
index a32508e..da0ded1 100644
--- a/go/invoke/instances.go
+++ b/go/invoke/instances.go
@@ -3,7 +3,6 @@ package invoke
 import (
 	"errors"
 	"sync"
-	"unsafe"
 )
 
 type Ptr[T any] struct {
@@ -14,20 +13,20 @@ var ErrNoInstance = errors.New("no instance is active for this pointer")
 
 type LiveInstances[T any] struct {
 	mu        sync.RWMutex
-	instances map[*Ptr[T]]struct{}
+	last      uint64 // the latest handle; handles are not reused
+	instances map[uint64]*Ptr[T]
 }
 
 func NewLiveInstances[T any]() *LiveInstances[T] {
 	return &LiveInstances[T]{
-		instances: make(map[*Ptr[T]]struct{}),
+		instances: make(map[uint64]*Ptr[T]),
 	}
 }
 
 func (t *LiveInstances[T]) Get(id uint64) (inst T, ok bool) {
 	t.mu.RLock()
 	defer t.mu.RUnlock()
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
-	_, ok = t.instances[ptr]
+	ptr, ok := t.instances[id]
 	if ok {
 		inst = ptr.Ptr
 	}
@@ -36,20 +35,20 @@ func (t *LiveInstances[T]) Get(id uint64) (inst T, ok bool) {
 
 func (t *LiveInstances[T]) Put(inst T) uint64 {
 	ptr := &Ptr[T]{Ptr: inst}
-	handle := uint64(uintptr(unsafe.Pointer(ptr)))
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	t.instances[ptr] = struct{}{}
-	return handle
+	t.last++
+	t.instances[t.last] = ptr
+	return t.last
 }
 
 func (t *LiveInstances[T]) Remove(id uint64) (inst T, ok bool) {
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	if _, ok = t.instances[ptr]; ok {
+	ptr, ok := t.instances[id]
+	if ok {
 		inst = ptr.Ptr
-		delete(t.instances, ptr)
+		delete(t.instances, id)
 	}
 	return
 }
-- 
2.43.0


From 5c4a3cb3ee52284473f10583599d17636bccc37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:48 +0000
Subject: [PATCH 24/66] fix: keep a wasmRS instance whole under large frames,
 bursts and Close

A frame that does not fit the shared buffer is a send error of its own
call, received frames get their own bytes and an unbounded queue (the
guest's thread must never wait for the receive loop), and Close can be
called at any time and ends the pending calls.
---
 go/transport/wasmrs/guest/guest.go   |  33 +++++--
 go/transport/wasmrs/host/instance.go | 142 +++++++++++++++++++--------
 2 files changed, 123 insertions(+), 52 deletions(-)

diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 3bf6342..96f5351 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -32,6 +32,8 @@ var (
 
 	maxFrameSize       uint32
 	fragmentedPayloads map[uint32]fragmentedPayload
+
+	errFrameTooLarge = errors.New("frame too large")
 )
 
 type fragmentedPayload struct {
@@ -109,13 +111,23 @@ func GuestSend(endPos uint32) {
 	buf := guestBuffer
 
 	for curPos < endPos {
+		if len(buf) < 3 {
+			return
+		}
 		copy(lengthBuf[1:], buf)
 		frameLen := binary.BigEndian.Uint32(lengthBuf[:])
+		if frameLen > uint32(len(buf)-3) {
+			return
+		}
 		frameBuf := make([]byte, frameLen)
 		copy(frameBuf, buf[3:])
 		curPos += 3 + frameLen
 		buf = buf[3+frameLen:]
 
+		if frameLen < frames.FrameHeaderLen {
+			continue
+		}
+
 		// lengthPos = 1 // Reset for next frame
 		header := frames.ParseFrameHeader(frameBuf)
 		buffer := frameBuf[frames.FrameHeaderLen:]
@@ -141,7 +153,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -157,7 +169,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -173,7 +185,7 @@ func GuestSend(endPos uint32) {
 			var rs frames.RequestPayload
 			if err := rs.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rs.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -191,10 +203,10 @@ func GuestSend(endPos uint32) {
 			var rc frames.RequestPayload
 			if err := rc.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rc.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 			if checkFollows(&rc) {
 				// Will be processed under frames.FrameTypePayload
@@ -208,11 +220,7 @@ func GuestSend(endPos uint32) {
 		case frames.FrameTypeRequestN:
 			var rn frames.RequestN
 			if err := rn.Decode(&header, buffer); err != nil {
-				sendFrame(&frames.Error{
-					StreamID: rn.StreamID,
-					Data:     err.Error(),
-				})
-				return
+				continue
 			}
 
 			if s, ok := str.(DoRequest); ok {
@@ -225,6 +233,7 @@ func GuestSend(endPos uint32) {
 		case frames.FrameTypePayload:
 			var p frames.Payload
 			if err := p.Decode(&header, buffer); err != nil {
+				str.Close(err)
 				continue
 			}
 
@@ -287,6 +296,7 @@ func GuestSend(endPos uint32) {
 		case frames.FrameTypeError:
 			var p frames.Error
 			if err := p.Decode(&header, buffer); err != nil {
+				str.Close(err)
 				continue
 			}
 			str.OnError(errors.New(p.Data))
@@ -534,6 +544,9 @@ func sendFrame(f frames.Frame) error {
 	// } else {
 	// 	doSendFrame(f)
 	// }
+	if 3+f.Size() > uint32(len(hostBuffer)) {
+		return errFrameTooLarge
+	}
 	doSendFrame(f)
 	return nil
 }
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 0e61390..970220e 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -1,7 +1,6 @@
 package host
 
 import (
-	"bytes"
 	"context"
 	"encoding/binary"
 	"errors"
@@ -10,6 +9,7 @@ import (
 
 	"github.com/tetratelabs/wazero/api"
 
+	"github.com/nanobus/iota/go/internal/buffer"
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
 	"github.com/nanobus/iota/go/invoke"
@@ -24,11 +24,14 @@ type Instance struct {
 	ctx       context.Context
 	m         api.Module
 	sendCh    chan frames.Frame
-	recvCh    chan *bytes.Buffer //[]byte
+	recvQueue *buffer.Unbounded[[]byte]
+	done      chan struct{}
+	closeOnce sync.Once
 	sendFn    api.Function
 	sendPtr   uint32
 	sendSize  uint32
 	recvPtr   uint32
+	recvSize  uint32
 	streamIDs socket.ServerStreamIDs
 	// streamMu     sync.RWMutex
 	// streams      map[uint32]proxy.Stream
@@ -45,6 +48,7 @@ type Instance struct {
 	fragmentedPayloads map[uint32]fragmentedPayload
 	operations         operations.Table
 
+	importedMu   sync.RWMutex
 	importedRR   []invoke.RequestResponseHandler
 	importedRFNF []invoke.FireAndForgetHandler
 	importedRS   []invoke.RequestStreamHandler
@@ -60,6 +64,11 @@ type fragmentedPayload struct {
 
 type instanceKey struct{}
 
+var (
+	errClosed        = errors.New("instance closed")
+	errFrameTooLarge = errors.New("frame too large")
+)
+
 func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	init := m.ExportedFunction("__wasmrs_init")
 	if init == nil {
@@ -70,20 +79,22 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 		return nil, errors.New("module does not export __wasmrs_send")
 	}
 	i := &Instance{
-		ctx:    ctx,
-		m:      m,
-		sendCh: make(chan frames.Frame, 100),
-		recvCh: make(chan *bytes.Buffer, 100),
-		sendFn: send,
+		ctx:       ctx,
+		m:         m,
+		sendCh:    make(chan frames.Frame, 100),
+		recvQueue: buffer.NewUnbounded[[]byte](),
+		done:      make(chan struct{}),
+		sendFn:    send,
 		// streams: make(map[uint32]proxy.Stream),
 		// streams:            make([]proxy.Stream, 1024*1024),
 		maxFrameSize:       1024 * 1024,
 		fragmentedPayloads: make(map[uint32]fragmentedPayload),
 		sendSize:           16 * 1024,
+		recvSize:           16 * 1024,
 	}
 
 	ctx = context.WithValue(ctx, instanceKey{}, i)
-	_, err := init.Call(ctx, uint64(i.sendSize), uint64(16*1024), uint64(i.maxFrameSize))
+	_, err := init.Call(ctx, uint64(i.sendSize), uint64(i.recvSize), uint64(i.maxFrameSize))
 	if err != nil {
 		return nil, err
 	}
@@ -100,17 +111,24 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	return i, nil
 }
 
+// Close ends all pending calls. The instance cannot be used afterwards.
 func (i *Instance) Close() error {
-	close(i.sendCh)
-	close(i.recvCh)
+	i.closeOnce.Do(func() {
+		close(i.done)
+		i.recvQueue.Dispose()
+		i.guestStreams.Close(errClosed)
+		i.hostStreams.Close(errClosed)
+	})
 	return nil
 }
 
 func (i *Instance) registerStream(s proxy.Stream) {
+	streams := &i.hostStreams
 	if s.StreamID()&1 == 1 {
-		i.guestStreams.Add(s)
-	} else {
-		i.hostStreams.Add(s)
+		streams = &i.guestStreams
+	}
+	if !streams.Add(s) {
+		s.Close(errClosed)
 	}
 
 	// i.streamMu.Lock()
@@ -146,8 +164,20 @@ func (i *Instance) SendFrame(f frames.Frame) error {
 	// } else {
 	// 	i.sendCh <- f
 	// }
-	i.sendCh <- f
-	return nil
+	if 3+f.Size() > i.sendSize {
+		return errFrameTooLarge
+	}
+	select {
+	case <-i.done:
+		return errClosed
+	default:
+	}
+	select {
+	case i.sendCh <- f:
+		return nil
+	case <-i.done:
+		return errClosed
+	}
 }
 
 func (i *Instance) setBuffers(sendPtr, recvPtr uint32) {
@@ -174,7 +204,7 @@ func (i *Instance) sendLoop() {
 
 		// if this frame does not fit,
 		// send the buffer and reset.
-		if pos+3+byteCount >= i.sendSize {
+		if pos+3+byteCount > i.sendSize {
 			i.sendFn.Call(ctx, uint64(pos))
 			pos = 0
 			count = 0
@@ -191,8 +221,13 @@ func (i *Instance) sendLoop() {
 		count++
 	}
 
-	for f := range i.sendCh {
-		write(f)
+	for {
+		select {
+		case f := <-i.sendCh:
+			write(f)
+		case <-i.done:
+			return
+		}
 		loop := true
 		for loop {
 			select {
@@ -210,12 +245,6 @@ func (i *Instance) sendLoop() {
 	}
 }
 
-var buffers = sync.Pool{
-	New: func() interface{} {
-		return new(bytes.Buffer)
-	},
-}
-
 func (i *Instance) Operations() operations.Table {
 	return i.operations
 }
@@ -227,30 +256,45 @@ func (i *Instance) opList(ctx context.Context, opPtr uint32, opSize uint32) {
 }
 
 func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
-	buffer, _ := i.m.Memory().Read(i.recvPtr, recvPos)
+	if recvPos > i.recvSize {
+		return
+	}
+	buffer, ok := i.m.Memory().Read(i.recvPtr, recvPos)
+	if !ok {
+		return
+	}
 
-	for len(buffer) > 0 {
+	for len(buffer) >= 3 {
 		var length [4]byte
 		copy(length[1:4], buffer[0:3])
 		buffer = buffer[3:]
 		frameLength := binary.BigEndian.Uint32(length[0:4])
-		buf := buffers.Get().(*bytes.Buffer)
-		buf.Reset()
-		buf.Write(buffer)
-		i.recvCh <- buf
+		if frameLength > uint32(len(buffer)) {
+			return
+		}
+		// The guest overwrites its buffer, so the frame needs a copy.
+		frame := make([]byte, frameLength)
+		copy(frame, buffer)
+		i.recvQueue.Put(frame)
 		buffer = buffer[frameLength:]
 	}
 }
 
 func (i *Instance) recvLoop() {
-	for buf := range i.recvCh {
-		i.recvOne(buf.Bytes())
-		buf.Reset()
-		buffers.Put(buf)
+	for frame := range i.recvQueue.Get() {
+		select {
+		case <-i.done:
+		default:
+			i.recvOne(frame)
+		}
+		i.recvQueue.Load()
 	}
 }
 
 func (i *Instance) recvOne(data []byte) {
+	if len(data) < frames.FrameHeaderLen {
+		return
+	}
 	ctx := context.Background()
 	header := frames.ParseFrameHeader(data)
 	data = data[frames.FrameHeaderLen:]
@@ -275,7 +319,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -291,7 +335,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -307,7 +351,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rs frames.RequestPayload
 		if err := rs.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rs.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -325,7 +369,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rc frames.RequestPayload
 		if err := rc.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rc.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -342,10 +386,6 @@ func (i *Instance) recvOne(data []byte) {
 	case frames.FrameTypeRequestN:
 		var rn frames.RequestN
 		if err := rn.Decode(&header, data); err != nil {
-			i.SendFrame(&frames.Error{
-				StreamID: rn.StreamID,
-				Data:     err.Error(),
-			})
 			return
 		}
 
@@ -359,6 +399,7 @@ func (i *Instance) recvOne(data []byte) {
 	case frames.FrameTypePayload:
 		var p frames.Payload
 		if err := p.Decode(&header, data); err != nil {
+			str.Close(err)
 			return
 		}
 
@@ -418,6 +459,7 @@ func (i *Instance) recvOne(data []byte) {
 	case frames.FrameTypeError:
 		var p frames.Error
 		if err := p.Decode(&header, data); err != nil {
+			str.Close(err)
 			return
 		}
 		str.OnError(errors.New(p.Data))
@@ -593,6 +635,8 @@ func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.RequestStr
 }
 
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
 	for uint32(len(i.importedRR)) < index+1 {
 		i.importedRR = append(i.importedRR, nil)
 	}
@@ -600,6 +644,8 @@ func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.Reques
 }
 
 func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestResponseHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	if uint32(len(i.importedRR)) <= index {
 		return nil
 	}
@@ -607,6 +653,8 @@ func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestRespons
 }
 
 func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndForgetHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
 	for uint32(len(i.importedRFNF)) < index+1 {
 		i.importedRFNF = append(i.importedRFNF, nil)
 	}
@@ -614,6 +662,8 @@ func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndF
 }
 
 func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	if uint32(len(i.importedRFNF)) <= index {
 		return nil
 	}
@@ -621,6 +671,8 @@ func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHan
 }
 
 func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestStreamHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
 	for uint32(len(i.importedRS)) < index+1 {
 		i.importedRS = append(i.importedRS, nil)
 	}
@@ -628,6 +680,8 @@ func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestS
 }
 
 func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	if uint32(len(i.importedRS)) <= index {
 		return nil
 	}
@@ -635,6 +689,8 @@ func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHan
 }
 
 func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.RequestChannelHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
 	for uint32(len(i.importedRC)) < index+1 {
 		i.importedRC = append(i.importedRC, nil)
 	}
@@ -642,6 +698,8 @@ func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.Request
 }
 
 func (i *Instance) getRequestChannelHandler(index uint32) invoke.RequestChannelHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	if uint32(len(i.importedRC)) <= index {
 		return nil
 	}
-- 
2.43.0


From cf62b9d9e4b2ce29f56c00ef1bf8230083e873e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:48 +0000
Subject: [PATCH 25/66] fix: resolve mesh calls when they are made and guard
 the mesh's tables

Imports follow a reloaded module, unknown operations are errors instead
of nil, operations of different types may share a name, and a caller's
metadata is left alone.
---
 go/transport/wasmrs/mesh/mesh.go | 143 ++++++++++++++++---------------
 1 file changed, 72 insertions(+), 71 deletions(-)

diff --git a/go/transport/wasmrs/mesh/mesh.go b/go/transport/wasmrs/mesh/mesh.go
index 0ba06f8..0d15e72 100644
--- a/go/transport/wasmrs/mesh/mesh.go
+++ b/go/transport/wasmrs/mesh/mesh.go
@@ -3,8 +3,10 @@ package mesh
 import (
 	"context"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"os"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -20,12 +22,20 @@ import (
 
 type (
 	Mesh struct {
-		verbose     bool
+		verbose bool
+
+		mu          sync.RWMutex // guards the fields below
 		instances   map[string]*host.Instance
-		exports     map[string]map[string]*atomic.Pointer[destination]
+		exports     map[exportKey]*atomic.Pointer[destination]
 		unsatisfied []*pending
 	}
 
+	exportKey struct {
+		namespace   string
+		operation   string
+		requestType operations.RequestType
+	}
+
 	destination struct {
 		instance *host.Instance
 		index    uint32
@@ -37,6 +47,8 @@ type (
 	}
 )
 
+var errNotFound = errors.New("not_found")
+
 type Option func(*Mesh)
 
 func WithVerbose() Option {
@@ -48,7 +60,7 @@ func WithVerbose() Option {
 func New(opts ...Option) *Mesh {
 	m := Mesh{
 		instances:   make(map[string]*host.Instance),
-		exports:     map[string]map[string]*atomic.Pointer[destination]{},
+		exports:     make(map[exportKey]*atomic.Pointer[destination]),
 		unsatisfied: make([]*pending, 0, 10),
 	}
 
@@ -60,66 +72,56 @@ func New(opts ...Option) *Mesh {
 }
 
 func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string, p payload.Payload) mono.Mono[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return nil
-	}
-
-	ptr, ok := ns[operation]
+	dest, ok := m.lookup(namespace, operation, operations.RequestResponse)
 	if !ok {
-		return nil
+		return mono.Error[payload.Payload](errNotFound)
 	}
-	dest := ptr.Load()
 
 	return dest.RequestResponse(ctx, p)
 }
 
 func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p payload.Payload) {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return
-	}
-
-	ptr, ok := ns[operation]
+	dest, ok := m.lookup(namespace, operation, operations.FireAndForget)
 	if !ok {
 		return
 	}
-	dest := ptr.Load()
 
 	dest.FireAndForget(ctx, p)
 }
 
 func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p payload.Payload) flux.Flux[payload.Payload] {
-	ns, ok := m.exports[namespace]
+	dest, ok := m.lookup(namespace, operation, operations.RequestStream)
 	if !ok {
-		return nil
+		return flux.Error[payload.Payload](errNotFound)
 	}
 
-	ptr, ok := ns[operation]
-	if !ok {
-		return nil
-	}
-	dest := ptr.Load()
-
 	return dest.RequestStream(ctx, p)
 }
 
 func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
-	ns, ok := m.exports[namespace]
+	dest, ok := m.lookup(namespace, operation, operations.RequestChannel)
 	if !ok {
-		return nil
+		return flux.Error[payload.Payload](errNotFound)
 	}
 
-	ptr, ok := ns[operation]
+	return dest.RequestChannel(ctx, p, in)
+}
+
+func (m *Mesh) lookup(namespace, operation string, requestType operations.RequestType) (*destination, bool) {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+
+	ptr, ok := m.exports[exportKey{namespace, operation, requestType}]
 	if !ok {
-		return nil
+		return nil, false
 	}
-	dest := ptr.Load()
-
-	return dest.RequestChannel(ctx, p, in)
+	return ptr.Load(), true
 }
 
 func (m *Mesh) Close() {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+
 	for _, inst := range m.instances {
 		inst.Close()
 	}
@@ -154,6 +156,9 @@ func (m *Mesh) LoadModule(ctx context.Context, filename string) (*host.Instance,
 		return nil, err
 	}
 
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
 	// Close previously loaded instance.
 	existing, ok := m.instances[filename]
 	if ok {
@@ -191,15 +196,11 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 
 		switch op.Direction {
 		case operations.Export:
-			ns, ok := m.exports[op.Namespace]
-			if !ok {
-				ns = make(map[string]*atomic.Pointer[destination])
-				m.exports[op.Namespace] = ns
-			}
-			ptr, ok := ns[op.Operation]
+			key := exportKey{op.Namespace, op.Operation, op.Type}
+			ptr, ok := m.exports[key]
 			if !ok {
 				ptr = &atomic.Pointer[destination]{}
-				ns[op.Operation] = ptr
+				m.exports[key] = ptr
 			}
 
 			ptr.Store(&destination{
@@ -235,59 +236,59 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 }
 
 func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool {
-	ns, ok := m.exports[op.Namespace]
-	if !ok {
-		return false
-	}
-
-	ptr, ok := ns[op.Operation]
+	ptr, ok := m.exports[exportKey{op.Namespace, op.Operation, op.Type}]
 	if !ok {
 		return false
 	}
-	dest := ptr.Load()
 
+	// The destination changes when its module is reloaded.
 	switch op.Type {
 	case operations.RequestResponse:
-		inst.SetRequestResponseHandler(op.Index, dest.RequestResponse)
+		inst.SetRequestResponseHandler(op.Index, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+			return ptr.Load().RequestResponse(ctx, p)
+		})
 	case operations.FireAndForget:
-		inst.SetFireAndForgetHandler(op.Index, dest.FireAndForget)
+		inst.SetFireAndForgetHandler(op.Index, func(ctx context.Context, p payload.Payload) {
+			ptr.Load().FireAndForget(ctx, p)
+		})
 	case operations.RequestStream:
-		inst.SetRequestStreamHandler(op.Index, dest.RequestStream)
+		inst.SetRequestStreamHandler(op.Index, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
+			return ptr.Load().RequestStream(ctx, p)
+		})
 	case operations.RequestChannel:
-		inst.SetRequestChannelHandler(op.Index, dest.RequestChannel)
+		inst.SetRequestChannelHandler(op.Index, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
+			return ptr.Load().RequestChannel(ctx, p, in)
+		})
 	}
 
 	return true
 }
 
-func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+// route addresses a payload to the operation of the destination.
+func (d *destination) route(p payload.Payload) payload.Payload {
 	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	return d.instance.RequestResponse(ctx, p)
+	size := len(md)
+	if size < 8 {
+		size = 8 // operation index and parent stream ID
+	}
+	routed := make([]byte, size)
+	copy(routed, md)
+	binary.BigEndian.PutUint32(routed, d.index)
+	return payload.New(p.Data(), routed)
+}
+
+func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+	return d.instance.RequestResponse(ctx, d.route(p))
 }
 
 func (d *destination) FireAndForget(ctx context.Context, p payload.Payload) {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	d.instance.FireAndForget(ctx, p)
+	d.instance.FireAndForget(ctx, d.route(p))
 }
 
 func (d *destination) RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	return d.instance.RequestStream(ctx, p)
+	return d.instance.RequestStream(ctx, d.route(p))
 }
 
 func (d *destination) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	return d.instance.RequestChannel(ctx, p, in)
+	return d.instance.RequestChannel(ctx, d.route(p), in)
 }
-- 
2.43.0


From 8ff1cf07161634844ef13e10d6ee54d6cfc22d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:52 +0000
Subject: [PATCH 26/66] fix: end a channel's input even if its error cannot be
 sent

An error text too large for a frame left the peer waiting for ever for
the end of the input.
---
 go/proxy/flux.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/go/proxy/flux.go b/go/proxy/flux.go
index 85e53b9..43a74a2 100644
--- a/go/proxy/flux.go
+++ b/go/proxy/flux.go
@@ -171,10 +171,16 @@ func (s *streamFlux) Request(n int) {
 }
 
 func (s *streamFlux) inputFailed(err error) {
-	s.sendFrame(&frames.Error{
+	if sendErr := s.sendFrame(&frames.Error{
 		StreamID: s.request.StreamID,
 		Data:     err.Error(),
-	})
+	}); sendErr != nil {
+		// The peer must learn of the end of the input even if not of its reason.
+		s.sendFrame(&frames.Error{
+			StreamID: s.request.StreamID,
+			Data:     sendErr.Error(),
+		})
+	}
 	s.finish(false, true)
 }
 
-- 
2.43.0


From 5578864e040c9f7701065c52e80c8b24017fb9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:55 +0000
Subject: [PATCH 27/66] fix: link a module's imports before its exports

A reloaded module could be called before it could call others.
---
 go/transport/wasmrs/mesh/mesh.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/go/transport/wasmrs/mesh/mesh.go b/go/transport/wasmrs/mesh/mesh.go
index 0d15e72..f0ca41f 100644
--- a/go/transport/wasmrs/mesh/mesh.go
+++ b/go/transport/wasmrs/mesh/mesh.go
@@ -188,14 +188,26 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 		tbl.WithHeaderFormatter(headerFmt)
 	}
 
-	numExported := 0
+	// The imports come first: the instance
+	// must not be called before it can call.
 	for _, op := range opers {
 		if tbl != nil {
 			tbl.AddRow(op.Namespace, op.Operation, op.Direction, op.Type, op.Index)
 		}
 
-		switch op.Direction {
-		case operations.Export:
+		if op.Direction == operations.Import {
+			if ok := m.linkOperation(inst, op); !ok {
+				m.unsatisfied = append(m.unsatisfied, &pending{
+					instance: inst,
+					oper:     op,
+				})
+			}
+		}
+	}
+
+	numExported := 0
+	for _, op := range opers {
+		if op.Direction == operations.Export {
 			key := exportKey{op.Namespace, op.Operation, op.Type}
 			ptr, ok := m.exports[key]
 			if !ok {
@@ -208,14 +220,6 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 				index:    op.Index,
 			})
 			numExported++
-
-		case operations.Import:
-			if ok := m.linkOperation(inst, op); !ok {
-				m.unsatisfied = append(m.unsatisfied, &pending{
-					instance: inst,
-					oper:     op,
-				})
-			}
 		}
 	}
 
-- 
2.43.0


From 330e16d6ef4bd1d65eef8c1da302bb9c04e3d865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:40 +0000
Subject: [PATCH 28/66] fix: encode the follows flag of request frames

A request frame with Follows set, as Fragment produces it, lost the flag on
the wire, so the receiver took the first fragment for the whole request.
---
 go/internal/frames/request_payload.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/internal/frames/request_payload.go b/go/internal/frames/request_payload.go
index 8055c31..152777e 100644
--- a/go/internal/frames/request_payload.go
+++ b/go/internal/frames/request_payload.go
@@ -76,6 +76,9 @@ func (f *RequestPayload) Encode(buf []byte) {
 	if f.FrameType == FrameTypeRequestChannel && f.Complete {
 		flags |= FlagComplete
 	}
+	if f.Follows {
+		flags |= FlagFollow
+	}
 
 	if metadataLen > 0 {
 		flags |= FlagMetadata
-- 
2.43.0


From 78638e4d97602fc86d9271732cf12677c4b55a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:39 +0000
Subject: [PATCH 29/66] fix: refuse requests on stream ids that are not the
 peer's to use

A request frame with one of our own stream ids, or one still in use, was
registered next to the stream it collided with; when it ended, the other
stream was released in its place, and was never ended when the connection
was lost.
---
 go/handler/handler.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index 1a4880c..2948f8a 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -23,6 +23,7 @@ type Handler struct {
 	sendFrame    FrameSender
 	streamIDs    uint64
 	nextStreamID func() (id uint32, firstLoop bool)
+	clientMode   bool
 
 	// Stream IDs on the guest MUST start at 1 and
 	// increment by 2 sequentially, such as 1, 3, 5, 7, etc.
@@ -57,7 +58,8 @@ const (
 
 func New(ctx context.Context, mode Mode) *Handler {
 	h := Handler{
-		ctx: ctx,
+		ctx:        ctx,
+		clientMode: mode == ClientMode,
 	}
 	switch mode {
 	case ClientMode:
@@ -105,6 +107,16 @@ func (i *Handler) getStream(streamID uint32) (proxy.Stream, bool) {
 	}
 }
 
+// acceptsRequest tells whether a request of the peer may use the stream id:
+// it must be one of the peer's own ids and not be in use.
+func (i *Handler) acceptsRequest(streamID uint32) bool {
+	if streamID == 0 || i.clientMode == (streamID&1 == 1) {
+		return false
+	}
+	_, used := i.getStream(streamID)
+	return !used
+}
+
 func (i *Handler) SendFrame(f frames.Frame) error {
 	return i.sendFrame(f)
 }
@@ -120,6 +132,12 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// The stream has ended, or never existed.
 			return
 		}
+	} else if !i.acceptsRequest(streamID) {
+		go i.sendFrame(&frames.Error{
+			StreamID: streamID,
+			Data:     "invalid stream id",
+		})
+		return
 	}
 
 	switch v := f.(type) {
@@ -248,7 +266,7 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := proxy.NewRequestStream(ctx, streamID, false, i.sendFrame, i.removeStream)
+	s := proxy.NewRequestStream(ctx, streamID, false, i.sendFrame, func(uint32) {}) // is not registered
 	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-- 
2.43.0


From 654c1bd3876bea5234d7198116dd41d09aee472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 30/66] fix: a cancel that crosses the end of the response ends
 a channel's input

---
 go/proxy/flux.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/proxy/flux.go b/go/proxy/flux.go
index 43a74a2..70619c5 100644
--- a/go/proxy/flux.go
+++ b/go/proxy/flux.go
@@ -186,7 +186,7 @@ func (s *streamFlux) inputFailed(err error) {
 
 func (s *streamFlux) Cancel() {
 	s.mu.Lock()
-	open := !s.complete
+	open := !s.complete || !s.inDone
 	s.cancelled = true
 	sent := s.sent
 	s.mu.Unlock()
-- 
2.43.0


From 5d6d80677cc4b54fa3882bb070cbd704e237f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 31/66] fix: a slice response serves each item once when more
 is requested meanwhile

---
 go/rx/flux/response.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/go/rx/flux/response.go b/go/rx/flux/response.go
index 739f81f..7460ce9 100644
--- a/go/rx/flux/response.go
+++ b/go/rx/flux/response.go
@@ -2,14 +2,12 @@ package flux
 
 func SliceResponse[T any](sink Sink[T], slice []T) func(n int) {
 	return func(n int) {
-		num := len(slice)
-		if n < num {
-			num = n
+		// The subscriber may request more while it gets an item.
+		for ; n > 0 && len(slice) > 0; n-- {
+			next := slice[0]
+			slice = slice[1:]
+			sink.Next(next)
 		}
-		for i := 0; i < num; i++ {
-			sink.Next(slice[i])
-		}
-		slice = slice[num:]
 		if len(slice) == 0 {
 			sink.Complete()
 		}
-- 
2.43.0


From ce4fe6ae08ca36d9953c4d9cddc44ef048dddfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 32/66] fix: Block on a mapped mono that has its outcome
 returns it

---
 go/rx/mono/mono_host.go | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/go/rx/mono/mono_host.go b/go/rx/mono/mono_host.go
index 75ada06..2730df8 100644
--- a/go/rx/mono/mono_host.go
+++ b/go/rx/mono/mono_host.go
@@ -35,20 +35,9 @@ func (s *mono[T]) Block() (ret T, err error) {
 }
 
 func (b *mapper[S, D]) Block() (ret D, err error) {
-	done := make(chan struct{})
-	go func() {
-		b.Subscribe(Subscribe[D]{
-			OnSuccess: func(value D) {
-				ret = value
-				close(done)
-			},
-			OnError: func(e error) {
-				err = e
-				close(done)
-			},
-		})
-	}()
-
-	<-done
-	return ret, err
+	value, err := b.mono.Block()
+	if err != nil {
+		return ret, err
+	}
+	return b.tx(value)
 }
-- 
2.43.0


From c6e3f0e624ef2449a03d72e1239c23bfb2ab392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 33/66] fix: a receive on a FluxReceiver that is dropped before
 it completes gives the channel back

---
 rust/crates/wasmrs-rx/src/flux/receiver.rs | 36 +++++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/rust/crates/wasmrs-rx/src/flux/receiver.rs b/rust/crates/wasmrs-rx/src/flux/receiver.rs
index 52a6d9f..65a084a 100644
--- a/rust/crates/wasmrs-rx/src/flux/receiver.rs
+++ b/rust/crates/wasmrs-rx/src/flux/receiver.rs
@@ -67,15 +67,13 @@ where
     Err: ConditionallySafe,
     Item: ConditionallySafe,
   {
-    let root_rx = self.rx.clone();
-    let opt = root_rx.take();
+    let mut taken = Taken {
+      rx: self.rx.take(),
+      owner: self.rx.clone(),
+    };
     Box::pin(async move {
-      match opt {
-        Some(mut rx) => {
-          let signal = rx.recv().await;
-          root_rx.insert(rx);
-          Ok(signal_into_result(signal))
-        }
+      match taken.rx.as_mut() {
+        Some(rx) => Ok(signal_into_result(rx.recv().await)),
         None => Err(Error::RecvFailed(0)),
       }
     })
@@ -106,6 +104,28 @@ where
   }
 }
 
+/// The channel of a [FluxReceiver] while it is out for a receive. It goes back when the receive is done or dropped.
+struct Taken<Item, Err>
+where
+  Item: ConditionallySafe,
+  Err: ConditionallySafe,
+{
+  rx: Option<UnboundedReceiver<Signal<Item, Err>>>,
+  owner: OptionalMut<UnboundedReceiver<Signal<Item, Err>>>,
+}
+
+impl<Item, Err> Drop for Taken<Item, Err>
+where
+  Item: ConditionallySafe,
+  Err: ConditionallySafe,
+{
+  fn drop(&mut self) {
+    if let Some(rx) = self.rx.take() {
+      self.owner.insert(rx);
+    }
+  }
+}
+
 impl<Item, Err> Stream for FluxReceiver<Item, Err>
 where
   Item: ConditionallySafe,
-- 
2.43.0


From bb142d6c179a16d0b1c72d2d53eda6d13a96dfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 34/66] fix: malformed frames, metadata and operation lists are
 refused with an error instead of a panic

---
 rust/crates/wasmrs/src/error.rs               |  3 ++
 rust/crates/wasmrs/src/frames/f_error.rs      |  4 +-
 rust/crates/wasmrs/src/frames/f_payload.rs    |  6 +--
 rust/crates/wasmrs/src/frames/f_request_n.rs  |  4 +-
 rust/crates/wasmrs/src/frames/header.rs       |  3 +-
 rust/crates/wasmrs/src/frames/mod.rs          | 17 +++----
 .../wasmrs/src/frames/request_payload.rs      |  8 +--
 rust/crates/wasmrs/src/operations.rs          | 49 +++++++++++--------
 rust/crates/wasmrs/src/util.rs                |  5 ++
 9 files changed, 56 insertions(+), 43 deletions(-)

diff --git a/rust/crates/wasmrs/src/error.rs b/rust/crates/wasmrs/src/error.rs
index 73916c5..831f99c 100644
--- a/rust/crates/wasmrs/src/error.rs
+++ b/rust/crates/wasmrs/src/error.rs
@@ -14,6 +14,8 @@ pub enum Error {
   ReceiverAlreadyGone,
   /// Variant used when a frame is treated as the wrong type.
   WrongType,
+  /// A frame that is too short for what it announces or of a type that is not supported.
+  InvalidFrame,
   /// Could not convert string from passed bytes.
   StringConversion,
   /// [crate::Metadata] not found in [crate::Payload]
@@ -28,6 +30,7 @@ impl std::fmt::Display for Error {
       Error::OpList(msg) => f.write_str(msg),
       Error::ReceiverAlreadyGone => f.write_str("Received already taken"),
       Error::WrongType => f.write_str("Tried to decode frame with wrong frame decoder"),
+      Error::InvalidFrame => f.write_str("Invalid frame"),
       Error::StringConversion => f.write_str("Could not read string bytes"),
       Error::MetadataNotFound => f.write_str("No metadata found"),
     }
diff --git a/rust/crates/wasmrs/src/frames/f_error.rs b/rust/crates/wasmrs/src/frames/f_error.rs
index 4cfbbdd..9f1a56f 100644
--- a/rust/crates/wasmrs/src/frames/f_error.rs
+++ b/rust/crates/wasmrs/src/frames/f_error.rs
@@ -1,7 +1,7 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
 use super::{Error, FrameHeader, FrameType, RSocketFrame};
-use crate::util::from_u32_bytes;
+use crate::util::{from_u32_bytes, take};
 use crate::Frame;
 
 #[derive()]
@@ -33,7 +33,7 @@ impl RSocketFrame<ErrorFrame> for ErrorFrame {
 
     Ok(ErrorFrame {
       stream_id: header.stream_id(),
-      code: from_u32_bytes(&buffer.split_to(4)),
+      code: from_u32_bytes(&take(&mut buffer, 4).ok_or(Error::InvalidFrame)?),
       data: String::from_utf8(buffer.to_vec()).map_err(|_| crate::Error::StringConversion)?,
     })
   }
diff --git a/rust/crates/wasmrs/src/frames/f_payload.rs b/rust/crates/wasmrs/src/frames/f_payload.rs
index 9b021f5..3882956 100644
--- a/rust/crates/wasmrs/src/frames/f_payload.rs
+++ b/rust/crates/wasmrs/src/frames/f_payload.rs
@@ -1,7 +1,7 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
 use super::{Error, FrameFlags, FrameHeader, FrameType, RSocketFlags, RSocketFrame};
-use crate::util::{from_u24_bytes, to_u24_bytes};
+use crate::util::{from_u24_bytes, take, to_u24_bytes};
 use crate::{Frame, Payload};
 
 /// A Payload frame.
@@ -52,8 +52,8 @@ impl RSocketFrame<PayloadFrame> for PayloadFrame {
     Self::check_type(header)?;
 
     let metadata = if header.has_metadata() {
-      let metadata_len = from_u24_bytes(&buffer.split_to(3)) as usize;
-      buffer.split_to(metadata_len)
+      let metadata_len = take(&mut buffer, 3).ok_or(Error::InvalidFrame)?;
+      take(&mut buffer, from_u24_bytes(&metadata_len) as usize).ok_or(Error::InvalidFrame)?
     } else {
       Bytes::new()
     };
diff --git a/rust/crates/wasmrs/src/frames/f_request_n.rs b/rust/crates/wasmrs/src/frames/f_request_n.rs
index b588f68..d75c8a0 100644
--- a/rust/crates/wasmrs/src/frames/f_request_n.rs
+++ b/rust/crates/wasmrs/src/frames/f_request_n.rs
@@ -1,7 +1,7 @@
 use bytes::Bytes;
 
 use super::{Error, FrameHeader, FrameType, RSocketFrame};
-use crate::util::from_u32_bytes;
+use crate::util::{from_u32_bytes, take};
 use crate::Frame;
 
 #[derive(Clone, Copy)]
@@ -31,7 +31,7 @@ impl RSocketFrame<RequestN> for RequestN {
     Self::check_type(header)?;
     Ok(RequestN {
       stream_id: header.stream_id(),
-      n: from_u32_bytes(&buffer.split_to(4)),
+      n: from_u32_bytes(&take(&mut buffer, 4).ok_or(Error::InvalidFrame)?),
     })
   }
 
diff --git a/rust/crates/wasmrs/src/frames/header.rs b/rust/crates/wasmrs/src/frames/header.rs
index 7fa2db7..557600d 100644
--- a/rust/crates/wasmrs/src/frames/header.rs
+++ b/rust/crates/wasmrs/src/frames/header.rs
@@ -43,7 +43,8 @@ impl FrameHeader {
 
   pub(crate) fn frame_type(&self) -> FrameType {
     let id: u8 = self.header[4] >> 2;
-    id.try_into().unwrap()
+    // A type that is not known is as good as one that is reserved.
+    id.try_into().unwrap_or(FrameType::Reserved)
   }
 
   pub(crate) fn check(&self, flag: FrameFlags) -> bool {
diff --git a/rust/crates/wasmrs/src/frames/mod.rs b/rust/crates/wasmrs/src/frames/mod.rs
index 3c2bd0b..0dd4d39 100644
--- a/rust/crates/wasmrs/src/frames/mod.rs
+++ b/rust/crates/wasmrs/src/frames/mod.rs
@@ -12,7 +12,7 @@ pub(crate) mod request_payload;
 
 use bytes::Bytes;
 
-use crate::util::from_u32_bytes;
+use crate::util::{from_u32_bytes, take};
 use crate::Error;
 
 use self::f_cancel::Cancel;
@@ -297,11 +297,8 @@ impl Payload {
 
   /// Parse the metadata bytes into a [Metadata] object.
   pub fn parse_metadata(&self) -> Result<Metadata, Error> {
-    if self.metadata.is_none() {
-      return Err(crate::Error::MetadataNotFound);
-    }
-    let bytes = self.metadata.as_ref().unwrap();
-    let index = from_u32_bytes(&bytes[0..4]);
+    let bytes = self.metadata.as_ref().and_then(|md| md.get(0..4));
+    let index = from_u32_bytes(bytes.ok_or(crate::Error::MetadataNotFound)?);
 
     Ok(Metadata { index })
   }
@@ -390,15 +387,14 @@ impl Frame {
 
   /// Decode [Bytes] into a [Frame].
   pub fn decode(mut bytes: Bytes) -> Result<Frame, (u32, Error)> {
-    let header = FrameHeader::from_bytes(bytes.split_to(Frame::LEN_HEADER));
+    let header = take(&mut bytes, Frame::LEN_HEADER).ok_or((0, Error::InvalidFrame))?;
+    let header = FrameHeader::from_bytes(header);
     let stream_id = header.stream_id();
     Self::_decode(header, bytes).map_err(|e| (stream_id, e))
   }
 
   pub(crate) fn _decode(header: FrameHeader, buffer: Bytes) -> Result<Frame, Error> {
     let frame = match header.frame_type() {
-      FrameType::Reserved => todo!(),
-      FrameType::Setup => todo!(),
       FrameType::RequestResponse => {
         Frame::RequestResponse(f_request_response::RequestResponse::decode_frame(&header, buffer)?)
       }
@@ -413,8 +409,7 @@ impl Frame {
       }),
       FrameType::Payload => Frame::PayloadFrame(f_payload::PayloadFrame::decode_frame(&header, buffer)?),
       FrameType::Err => Frame::ErrorFrame(f_error::ErrorFrame::decode_frame(&header, buffer)?),
-      FrameType::Ext => todo!(),
-      _ => unreachable!(),
+      _ => return Err(Error::InvalidFrame),
     };
     Ok(frame)
   }
diff --git a/rust/crates/wasmrs/src/frames/request_payload.rs b/rust/crates/wasmrs/src/frames/request_payload.rs
index 034744d..8cb67fd 100644
--- a/rust/crates/wasmrs/src/frames/request_payload.rs
+++ b/rust/crates/wasmrs/src/frames/request_payload.rs
@@ -1,7 +1,7 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
 use super::{Error, FrameFlags, FrameHeader, FrameType, RSocketFlags};
-use crate::util::{from_u24_bytes, from_u32_bytes, to_u24_bytes};
+use crate::util::{from_u24_bytes, from_u32_bytes, take, to_u24_bytes};
 use crate::{Frame, Payload};
 
 #[derive()]
@@ -57,14 +57,14 @@ impl RequestPayload {
     let frame_type = header.frame_type();
 
     let initial_n = if Self::is_multi(frame_type) {
-      from_u32_bytes(&buffer.split_to(4))
+      from_u32_bytes(&take(&mut buffer, 4).ok_or(Error::InvalidFrame)?)
     } else {
       0
     };
 
     let metadata = if header.has_metadata() {
-      let metadata_len = from_u24_bytes(&buffer.split_to(3)) as usize;
-      buffer.split_to(metadata_len)
+      let metadata_len = take(&mut buffer, 3).ok_or(Error::InvalidFrame)?;
+      take(&mut buffer, from_u24_bytes(&metadata_len) as usize).ok_or(Error::InvalidFrame)?
     } else {
       Bytes::new()
     };
diff --git a/rust/crates/wasmrs/src/operations.rs b/rust/crates/wasmrs/src/operations.rs
index e4d5567..eb87c64 100644
--- a/rust/crates/wasmrs/src/operations.rs
+++ b/rust/crates/wasmrs/src/operations.rs
@@ -1,6 +1,6 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
-use crate::util::{from_u16_bytes, from_u32_bytes};
+use crate::util::{from_u16_bytes, from_u32_bytes, take};
 
 /*
 WasmRS operations list header
@@ -49,14 +49,15 @@ pub enum OperationType {
   RequestChannel,
 }
 
-impl From<u8> for OperationType {
-  fn from(v: u8) -> Self {
+impl TryFrom<u8> for OperationType {
+  type Error = Error;
+  fn try_from(v: u8) -> Result<Self, Self::Error> {
     match v {
-      1 => Self::RequestResponse,
-      2 => Self::RequestFnF,
-      3 => Self::RequestStream,
-      4 => Self::RequestChannel,
-      _ => unreachable!("Bad Operation Type {}", v),
+      1 => Ok(Self::RequestResponse),
+      2 => Ok(Self::RequestFnF),
+      3 => Ok(Self::RequestStream),
+      4 => Ok(Self::RequestChannel),
+      _ => Err(Error::Kind),
     }
   }
 }
@@ -76,6 +77,8 @@ impl From<OperationType> for u8 {
 pub enum Error {
   Magic,
   Version,
+  Kind,
+  Length,
   Utf8String,
 }
 
@@ -85,6 +88,8 @@ impl std::fmt::Display for Error {
     f.write_str(match self {
       Error::Magic => "Bad magic bytes",
       Error::Version => "Bad version",
+      Error::Kind => "Bad operation type",
+      Error::Length => "Operation list is incomplete",
       Error::Utf8String => "Could not convert bytes to UTF-8 String",
     })
   }
@@ -203,31 +208,35 @@ impl OperationList {
 
   /// Decode bytes into an Operation List.
   pub fn decode(mut buf: Bytes) -> Result<Self, Error> {
-    let magic = buf.split_to(4);
+    let magic = Self::take(&mut buf, 4)?;
     if magic != WASMRS_MAGIC.as_slice() {
       return Err(Error::Magic);
     }
-    let version = from_u16_bytes(&buf.split_to(2));
+    let version = from_u16_bytes(&Self::take(&mut buf, 2)?);
     match version {
       1 => Self::decode_v1(buf),
       _ => Err(Error::Version),
     }
   }
 
+  fn take(buf: &mut Bytes, len: usize) -> Result<Bytes, Error> {
+    take(buf, len).ok_or(Error::Length)
+  }
+
   fn decode_v1(mut buf: Bytes) -> Result<Self, Error> {
-    let num_ops = from_u32_bytes(&buf.split_to(4));
+    let num_ops = from_u32_bytes(&Self::take(&mut buf, 4)?);
     let mut imports = Vec::new();
     let mut exports = Vec::new();
     for _ in 0..num_ops {
-      let kind = buf.split_to(1)[0];
-      let kind: OperationType = kind.into();
-      let dir = buf.split_to(1)[0];
-      let index = from_u32_bytes(&buf.split_to(4));
-      let ns_len = from_u16_bytes(&buf.split_to(2));
-      let namespace = String::from_utf8(buf.split_to(ns_len as _).to_vec())?;
-      let op_len = from_u16_bytes(&buf.split_to(2));
-      let operation = String::from_utf8(buf.split_to(op_len as _).to_vec())?;
-      let _reserved_len = from_u16_bytes(&buf.split_to(2));
+      let kind = Self::take(&mut buf, 1)?[0];
+      let kind = OperationType::try_from(kind)?;
+      let dir = Self::take(&mut buf, 1)?[0];
+      let index = from_u32_bytes(&Self::take(&mut buf, 4)?);
+      let ns_len = from_u16_bytes(&Self::take(&mut buf, 2)?);
+      let namespace = String::from_utf8(Self::take(&mut buf, ns_len as _)?.to_vec())?;
+      let op_len = from_u16_bytes(&Self::take(&mut buf, 2)?);
+      let operation = String::from_utf8(Self::take(&mut buf, op_len as _)?.to_vec())?;
+      let _reserved_len = from_u16_bytes(&Self::take(&mut buf, 2)?);
       let op = Operation {
         index,
         kind,
diff --git a/rust/crates/wasmrs/src/util.rs b/rust/crates/wasmrs/src/util.rs
index 21ea618..92cef4f 100644
--- a/rust/crates/wasmrs/src/util.rs
+++ b/rust/crates/wasmrs/src/util.rs
@@ -42,6 +42,11 @@ pub fn to_u24_bytes(num: u32) -> Bytes {
   num_parts.freeze()
 }
 
+/// Split the first `len` bytes off a buffer, if it is long enough.
+pub(crate) fn take(buffer: &mut Bytes, len: usize) -> Option<Bytes> {
+  (len <= buffer.len()).then(|| buffer.split_to(len))
+}
+
 /// Read a frame from a buffer.
 pub fn read_frame(mut buf: impl Read) -> std::io::Result<Bytes> {
   let mut len_bytes = [0u8; 3];
-- 
2.43.0


From 5fa74d3aaf4fdf866be4116a60e6bbb8ef62fe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 35/66] fix: an error or cancel for a call whose caller has
 gone no longer panics

---
 rust/crates/wasmrs/src/socket.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index 736e656..4a24acf 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -329,7 +329,8 @@ impl WasmSocket {
       let e = PayloadError::new(ErrorCode::Canceled.into(), "Request cancelled");
       match handler {
         Handler::ReqRR(sender) => {
-          sender.send(Err(e)).unwrap();
+          // The caller may be gone.
+          let _ = sender.send(Err(e));
         }
         Handler::ReqRS(_) => {
           // stream cancelled. Take no action besides removing the handler.
@@ -347,13 +348,14 @@ impl WasmSocket {
       let e = PayloadError::new(code, message);
       match handler {
         Handler::ReqRR(sender) => {
-          sender.send(Err(e)).unwrap();
+          // The caller may be gone.
+          let _ = sender.send(Err(e));
         }
         Handler::ReqRS(sender) => {
-          sender.error(e).unwrap();
+          let _ = sender.error(e);
         }
         Handler::ReqRC(sender) => {
-          sender.error(e).unwrap();
+          let _ = sender.error(e);
         }
       }
     }
-- 
2.43.0


From fad1936c1eb153955ec642bff3b430db9f1771cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 36/66] fix: a host answers calls of its guest with an error
 instead of a panic

---
 rust/crates/wasmrs-host/src/host.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/rust/crates/wasmrs-host/src/host.rs b/rust/crates/wasmrs-host/src/host.rs
index 6b35379..d53bb55 100644
--- a/rust/crates/wasmrs-host/src/host.rs
+++ b/rust/crates/wasmrs-host/src/host.rs
@@ -54,21 +54,33 @@ fn spawn_writer(mut rx: UnboundedReceiver<Frame>, context: SharedContext) {
 
 struct HostServer {}
 
+impl HostServer {
+  fn unimplemented() -> PayloadError {
+    PayloadError::application_error("Unimplemented")
+  }
+
+  fn unimplemented_stream() -> FluxReceiver<Payload, PayloadError> {
+    let (flux, output) = Flux::new_channels();
+    let _ = flux.error(Self::unimplemented());
+    output
+  }
+}
+
 impl RSocket for HostServer {
   fn fire_and_forget(&self, _req: Payload) -> Mono<(), PayloadError> {
-    todo!()
+    Mono::new_error(Self::unimplemented())
   }
 
   fn request_response(&self, _payload: Payload) -> Mono<Payload, PayloadError> {
-    todo!();
+    Mono::new_error(Self::unimplemented())
   }
 
   fn request_stream(&self, _req: Payload) -> FluxReceiver<Payload, PayloadError> {
-    todo!()
+    Self::unimplemented_stream()
   }
 
   fn request_channel(&self, _reqs: FluxReceiver<Payload, PayloadError>) -> FluxReceiver<Payload, PayloadError> {
-    todo!()
+    Self::unimplemented_stream()
   }
 }
 
-- 
2.43.0


From 60e070a3eb96c0ceb7d8eeb3710d0c0cd004b55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 37/66] fix: an error is the last frame of a stream or of a
 channel's direction

---
 rust/crates/wasmrs/src/socket.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index 4a24acf..c59c16e 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -199,7 +199,12 @@ impl WasmSocket {
       while let Some(next) = payloads.next().await {
         match next {
           Ok(it) => send_payload(&tx, sid, it, Frame::FLAG_NEXT),
-          Err(e) => send_app_error(&tx, sid, e.to_string()),
+          Err(e) => {
+            // An error is the end of the stream.
+            abort_handles.remove(&sid);
+            send_app_error(&tx, sid, e.to_string());
+            return;
+          }
         };
       }
       abort_handles.remove(&sid);
@@ -229,11 +234,14 @@ impl WasmSocket {
       send(&tx, request_n);
 
       while let Some(next) = outputs.next().await {
-        let sending = match next {
-          Ok(payload) => Frame::new_payload(sid, payload, Frame::FLAG_NEXT),
-          Err(e) => Frame::new_error(sid, ErrorCode::ApplicationError.into(), e.to_string()),
+        match next {
+          Ok(payload) => send_payload(&tx, sid, payload, Frame::FLAG_NEXT),
+          Err(e) => {
+            abort_handles.remove(&sid);
+            send_app_error(&tx, sid, e.to_string());
+            return;
+          }
         };
-        send(&tx, sending);
       }
       abort_handles.remove(&sid);
       let complete = Frame::new_payload(sid, Payload::empty(), Frame::FLAG_COMPLETE);
@@ -426,7 +434,9 @@ impl RSocket for WasmSocket {
             }
           }
           Err(_e) => {
+            channels.remove(&sid);
             send_app_error(&tx, sid, "REQUEST_CHANNEL failed");
+            return;
           }
         }
         // If we've exhausted our requested n, wait for the next RequestN frame
-- 
2.43.0


From 1ff10b184195f100e500483f2fe46238627cfbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 38/66] fix: a RequestN for a stream that is over or takes no
 credit is not answered with an error

---
 rust/crates/wasmrs/src/socket.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index c59c16e..e066445 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -265,21 +265,13 @@ impl WasmSocket {
 
   fn on_request_n(&self, sid: u32, n: u32) {
     trace!(sid, side = %self.side, "on_request_n");
-    let tx = self.tx.clone();
-    if n == 0 {
-      send_app_error(&tx, sid, "Invalid RequestN (n=0)");
-      return;
-    }
-    #[allow(clippy::option_if_let_else)]
-    match self.channels.cloned(&sid) {
-      Some(reqn_tx) => {
-        if reqn_tx.send(n).is_err() {
-          send_app_error(&tx, sid, "RequestN channel closed");
-        };
-      }
-      None => {
-        send_app_error(&tx, sid, "RequestN called for missing Stream ID");
+    // A RequestN for a stream that is already over needs no answer.
+    if let Some(reqn_tx) = self.channels.cloned(&sid) {
+      if n == 0 {
+        send_app_error(&self.tx, sid, "Invalid RequestN (n=0)");
+        return;
       }
+      let _ = reqn_tx.send(n);
     }
   }
 
-- 
2.43.0


From 72ffb95db109075fc775cf506e6d4625a50ffebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 39/66] fix: a channel whose input has no first payload fails
 instead of waiting for ever

---
 rust/crates/wasmrs/src/socket.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index e066445..c71f32c 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -410,9 +410,11 @@ impl RSocket for WasmSocket {
     let mut reqn_rx = self.register_channel(sid);
     let tx = self.tx.clone();
     let channels = self.channels.clone();
+    let handlers = self.handlers.clone();
 
     runtime::spawn(async move {
       let mut first = true;
+      let mut failed = None;
       let mut n = 1;
       while let Some(next) = stream.next().await {
         n -= 1;
@@ -425,10 +427,9 @@ impl RSocket for WasmSocket {
               send_payload(&tx, sid, payload, Frame::FLAG_NEXT);
             }
           }
-          Err(_e) => {
-            channels.remove(&sid);
-            send_app_error(&tx, sid, "REQUEST_CHANNEL failed");
-            return;
+          Err(e) => {
+            failed = Some(e);
+            break;
           }
         }
         // If we've exhausted our requested n, wait for the next RequestN frame
@@ -441,7 +442,17 @@ impl RSocket for WasmSocket {
         }
       }
       channels.remove(&sid);
-      send_complete(&tx, sid, Frame::FLAG_COMPLETE);
+      if first {
+        // The first payload makes the request. Without one there is nobody to answer.
+        let e = failed.unwrap_or_else(|| PayloadError::application_error("Can not initiate a channel with no payload"));
+        if let Some(Handler::ReqRC(sender)) = handlers.remove(&sid) {
+          let _ = sender.error(e);
+        }
+      } else if failed.is_some() {
+        send_app_error(&tx, sid, "REQUEST_CHANNEL failed");
+      } else {
+        send_complete(&tx, sid, Frame::FLAG_COMPLETE);
+      }
     });
 
     output
-- 
2.43.0


From 5024fbf274a518a4efaff86b6eaba4196448ac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 40/66] fix: a cancel ends what its sender no longer takes, and
 only that

---
 rust/crates/wasmrs/src/socket.rs | 75 +++++++++++++++++---------------
 1 file changed, 39 insertions(+), 36 deletions(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index c71f32c..0e51681 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -192,9 +192,9 @@ impl WasmSocket {
     let responder = self.responder.clone();
     let tx = self.tx.clone();
     let abort_handles = self.abort_handles.clone();
+    let (abort_handle, abort_registration) = AbortHandle::new_pair();
+    abort_handles.insert(sid, abort_handle);
     runtime::spawn(async move {
-      let (abort_handle, abort_registration) = AbortHandle::new_pair();
-      abort_handles.insert(sid, abort_handle);
       let mut payloads = Abortable::new(responder.request_stream(input), abort_registration);
       while let Some(next) = payloads.next().await {
         match next {
@@ -207,8 +207,11 @@ impl WasmSocket {
           }
         };
       }
-      abort_handles.remove(&sid);
-      send_complete(&tx, sid, Frame::FLAG_COMPLETE);
+      // After a cancel nobody waits for the end.
+      if !payloads.is_aborted() {
+        abort_handles.remove(&sid);
+        send_complete(&tx, sid, Frame::FLAG_COMPLETE);
+      }
     });
   }
 
@@ -222,10 +225,10 @@ impl WasmSocket {
     handler_tx.send(first).unwrap();
     self.register_handler(sid, Handler::ReqRC(handler_tx));
     let abort_handles = self.abort_handles.clone();
+    let (abort_handle, abort_registration) = AbortHandle::new_pair();
+    abort_handles.insert(sid, abort_handle);
     runtime::spawn(async move {
       let outputs = responder.request_channel(handler_rx);
-      let (abort_handle, abort_registration) = AbortHandle::new_pair();
-      abort_handles.insert(sid, abort_handle);
       let mut outputs = Abortable::new(outputs, abort_registration);
 
       // TODO: support custom RequestN.
@@ -243,9 +246,10 @@ impl WasmSocket {
           }
         };
       }
-      abort_handles.remove(&sid);
-      let complete = Frame::new_payload(sid, Payload::empty(), Frame::FLAG_COMPLETE);
-      send(&tx, complete);
+      if !outputs.is_aborted() {
+        abort_handles.remove(&sid);
+        send_complete(&tx, sid, Frame::FLAG_COMPLETE);
+      }
     });
   }
 
@@ -289,29 +293,21 @@ impl WasmSocket {
           _ => unreachable!(),
         },
         Handler::ReqRS(sender) => {
-          if flag.flag_next() {
-            if sender.is_closed() {
-              send_cancel(&tx, sid);
-            } else if let Err(_e) = sender.send(input) {
-              println!("response successful payload for REQUEST_STREAM failed: sid={}", sid);
-              send_cancel(&tx, sid);
-            }
+          let gone = flag.flag_next() && sender.send(input).is_err();
+          if gone && !flag.flag_complete() {
+            send_cancel(&tx, sid);
           }
-          if flag.flag_complete() {
+          if gone || flag.flag_complete() {
             trace!(sid, "removing stream");
             o.remove();
           }
         }
         Handler::ReqRC(sender) => {
-          if flag.flag_next() {
-            if sender.is_closed() {
-              send_cancel(&tx, sid);
-            } else if (sender.send(input)).is_err() {
-              println!("response successful payload for REQUEST_CHANNEL failed: sid={}", sid);
-              send_cancel(&tx, sid);
-            }
+          let gone = flag.flag_next() && sender.send(input).is_err();
+          if gone && !flag.flag_complete() {
+            send_cancel(&tx, sid);
           }
-          if flag.flag_complete() {
+          if gone || flag.flag_complete() {
             trace!(sid, "removing channel");
             o.remove();
           }
@@ -325,25 +321,27 @@ impl WasmSocket {
 
   fn on_cancel(&self, sid: u32, _flag: FrameFlags) {
     trace!(sid, side = %self.side, "on_cancel");
-    if let Some(handler) = self.handlers.remove(&sid) {
-      let e = PayloadError::new(ErrorCode::Canceled.into(), "Request cancelled");
-      match handler {
-        Handler::ReqRR(sender) => {
+    // The other side takes no more of what this one sends on the stream.
+    if let Some(abort_handle) = self.abort_handles.remove(&sid) {
+      abort_handle.abort();
+    }
+    self.channels.remove(&sid);
+    if let Entry::Occupied(o) = self.handlers.entry(sid) {
+      // What a channel receives ends for itself.
+      if !matches!(o.get(), Handler::ReqRC(_)) {
+        if let Handler::ReqRR(sender) = o.remove() {
+          let e = PayloadError::new(ErrorCode::Canceled.into(), "Request cancelled");
           // The caller may be gone.
           let _ = sender.send(Err(e));
         }
-        Handler::ReqRS(_) => {
-          // stream cancelled. Take no action besides removing the handler.
-        }
-        Handler::ReqRC(_) => {
-          // stream cancelled. Take no action besides removing the handler.
-        }
       }
     }
   }
 
   fn on_error(&self, sid: u32, _flag: FrameFlags, code: u32, message: String) {
     trace!(sid, code, message, side = %self.side, "on_error");
+    // Nobody asks for more input of a channel that has failed.
+    self.channels.remove(&sid);
     if let Some(handler) = self.handlers.remove(&sid) {
       let e = PayloadError::new(code, message);
       match handler {
@@ -400,7 +398,7 @@ impl RSocket for WasmSocket {
     output
   }
 
-  fn request_channel(&self, mut stream: FluxReceiver<Payload, PayloadError>) -> FluxReceiver<Payload, PayloadError> {
+  fn request_channel(&self, stream: FluxReceiver<Payload, PayloadError>) -> FluxReceiver<Payload, PayloadError> {
     let sid = self.next_stream_id();
     trace!(sid, side = %self.side, "request_channel");
 
@@ -411,8 +409,12 @@ impl RSocket for WasmSocket {
     let tx = self.tx.clone();
     let channels = self.channels.clone();
     let handlers = self.handlers.clone();
+    let abort_handles = self.abort_handles.clone();
+    let (abort_handle, abort_registration) = AbortHandle::new_pair();
+    abort_handles.insert(sid, abort_handle);
 
     runtime::spawn(async move {
+      let mut stream = Abortable::new(stream, abort_registration);
       let mut first = true;
       let mut failed = None;
       let mut n = 1;
@@ -442,6 +444,7 @@ impl RSocket for WasmSocket {
         }
       }
       channels.remove(&sid);
+      abort_handles.remove(&sid);
       if first {
         // The first payload makes the request. Without one there is nobody to answer.
         let e = failed.unwrap_or_else(|| PayloadError::application_error("Can not initiate a channel with no payload"));
-- 
2.43.0


From f081bcafe86bdb8e29b0de9e0640bb62f084f39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 41/66] fix: a guest's channel handler gets input without
 metadata and is let go of when its caller is

---
 rust/crates/wasmrs-guest/src/server.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/rust/crates/wasmrs-guest/src/server.rs b/rust/crates/wasmrs-guest/src/server.rs
index 2d99f85..1a9efe2 100644
--- a/rust/crates/wasmrs-guest/src/server.rs
+++ b/rust/crates/wasmrs-guest/src/server.rs
@@ -91,7 +91,7 @@ impl RSocket for WasmServer {
 
     runtime::spawn(async move {
       let (handler_input, handler_stream) = Flux::new_channels();
-      let mut handler_out = if let Some(result) = stream.next().await {
+      let (metadata, mut handler_out) = if let Some(result) = stream.next().await {
         let payload = flux_try!(tx, result);
 
         let metadata = flux_try!(tx, payload.parse_metadata());
@@ -101,10 +101,11 @@ impl RSocket for WasmServer {
         );
 
         handler_input.send(payload.try_into().unwrap()).unwrap();
-        flux_try!(
+        let handler_out = flux_try!(
           tx,
           handler(handler_stream).map_err(|e| Error::HandlerFail(e.to_string()))
-        )
+        );
+        (metadata, handler_out)
       } else {
         let _ = tx.error(PayloadError::application_error(
           "Can not initiate a channel with no payload",
@@ -113,15 +114,23 @@ impl RSocket for WasmServer {
       };
       runtime::spawn(async move {
         while let Some(payload) = handler_out.next().await {
-          let _ = tx.send_result(payload);
+          if tx.send_result(payload).is_err() {
+            // The caller takes no more output.
+            break;
+          }
         }
         tx.complete();
       });
       while let Some(next) = stream.next().await {
-        let _ = handler_input.send_result(next.and_then(|v| {
-          v.try_into()
-            .map_err(|e: Error| PayloadError::application_error(e.to_string()))
-        }));
+        // Only the first payload has to name the operation.
+        let next = next.map(|v| ParsedPayload {
+          metadata: v.parse_metadata().unwrap_or(metadata),
+          data: v.data.unwrap_or_default(),
+        });
+        if handler_input.send_result(next).is_err() {
+          // The handler takes no more input.
+          break;
+        }
       }
     });
 
-- 
2.43.0


From c804277c2154e1e16f24c380b649fb62c170d60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 42/66] fix: a host checks the addresses a guest gives and the
 room in its buffer

---
 .../wasmrs-wasmtime/src/engine_provider.rs    | 22 ++++++--
 rust/crates/wasmrs-wasmtime/src/errors.rs     | 10 ++++
 rust/crates/wasmrs-wasmtime/src/memory.rs     | 51 +++++++++++--------
 .../wasmrs-wasmtime/src/wasmrs_wasmtime.rs    | 18 +++----
 4 files changed, 64 insertions(+), 37 deletions(-)

diff --git a/rust/crates/wasmrs-wasmtime/src/engine_provider.rs b/rust/crates/wasmrs-wasmtime/src/engine_provider.rs
index 438bb3f..b380410 100644
--- a/rust/crates/wasmrs-wasmtime/src/engine_provider.rs
+++ b/rust/crates/wasmrs-wasmtime/src/engine_provider.rs
@@ -11,6 +11,11 @@ use crate::memory::write_bytes_to_memory;
 use crate::store::{new_store, ProviderStore};
 use crate::wasmrs_wasmtime::{self};
 
+/// The size of the buffer a guest reads the host's frames from.
+const GUEST_BUFFER_SIZE: u32 = 1024;
+/// The size of the buffer a guest writes its frames to.
+const HOST_BUFFER_SIZE: u32 = 1024;
+
 /// A wasmRS engine provider that encapsulates the Wasmtime WebAssembly runtime
 #[allow(missing_debug_implementations)]
 pub struct WasmtimeEngineProvider {
@@ -99,7 +104,7 @@ impl WasmtimeCallContext {
     let guest_send = instance
       .get_typed_func::<i32, ()>(&mut store, GuestExports::Send.as_ref())
       .map_err(|_| crate::errors::Error::GuestSend)?;
-    let memory = instance.get_memory(&mut store, "memory").unwrap();
+    let memory = instance.get_memory(&mut store, "memory").ok_or(Error::GuestMemory)?;
 
     Ok(Self {
       guest_send,
@@ -124,9 +129,12 @@ impl wasmrs::ModuleHost for WasmtimeCallContext {
     let start = self.store.data().guest_buffer.get_start();
     let len = self.store.data().guest_buffer.get_size();
 
-    let written = write_bytes_to_memory(&mut self.store, self.memory, &buffer, start, len);
+    let written = write_bytes_to_memory(&mut self.store, self.memory, &buffer, start, len)?;
 
-    let _call = self.guest_send.call(&mut self.store, written as i32);
+    self
+      .guest_send
+      .call(&mut self.store, written as i32)
+      .map_err(Error::GuestCall)?;
 
     Ok(())
   }
@@ -168,8 +176,10 @@ impl ProviderCallContext for WasmtimeCallContext {
       .instance
       .get_typed_func(&mut self.store, GuestExports::Init.as_ref())
       .map_err(|_e| wasmrs_host::errors::Error::InitFailed(Error::GuestInit.to_string()))?;
+    self.store.data().guest_buffer.update_size(GUEST_BUFFER_SIZE);
+    self.store.data().host_buffer.update_size(HOST_BUFFER_SIZE);
     init
-      .call(&mut self.store, (1024, 1024, 128))
+      .call(&mut self.store, (GUEST_BUFFER_SIZE, HOST_BUFFER_SIZE, 128))
       .map_err(|e| wasmrs_host::errors::Error::InitFailed(e.to_string()))?;
 
     if let Ok(oplist) = self
@@ -177,7 +187,9 @@ impl ProviderCallContext for WasmtimeCallContext {
       .get_typed_func::<(), ()>(&mut self.store, GuestExports::OpListRequest.as_ref())
     {
       trace!("Calling operation list");
-      oplist.call(&mut self.store, ()).unwrap();
+      oplist
+        .call(&mut self.store, ())
+        .map_err(|e| wasmrs_host::errors::Error::InitFailed(e.to_string()))?;
     }
     Ok(())
   }
diff --git a/rust/crates/wasmrs-wasmtime/src/errors.rs b/rust/crates/wasmrs-wasmtime/src/errors.rs
index fee5a5c..eb819d5 100644
--- a/rust/crates/wasmrs-wasmtime/src/errors.rs
+++ b/rust/crates/wasmrs-wasmtime/src/errors.rs
@@ -36,6 +36,14 @@ pub enum Error {
   /// Thrown if the host has a problem reading the guest's memory.
   #[error("Could not read guest memory")]
   GuestMemory,
+
+  /// Thrown if a frame is larger than the guest's buffer.
+  #[error("Frame of {0} bytes is larger than the guest's buffer of {1} bytes")]
+  GuestBuffer(usize, u32),
+
+  /// Thrown if a call of the guest fails.
+  #[error("Guest call failed: {0}")]
+  GuestCall(anyhow::Error),
 }
 
 impl From<Error> for wasmrs::Error {
@@ -50,6 +58,8 @@ impl From<Error> for wasmrs::Error {
       Error::GuestInit => wasmrs::ErrorCode::ApplicationError,
       Error::GuestSend => wasmrs::ErrorCode::ApplicationError,
       Error::GuestMemory => wasmrs::ErrorCode::Canceled,
+      Error::GuestBuffer(..) => wasmrs::ErrorCode::ApplicationError,
+      Error::GuestCall(_) => wasmrs::ErrorCode::ApplicationError,
     };
     wasmrs::Error::RSocket(code.into())
   }
diff --git a/rust/crates/wasmrs-wasmtime/src/memory.rs b/rust/crates/wasmrs-wasmtime/src/memory.rs
index cba482c..806098c 100644
--- a/rust/crates/wasmrs-wasmtime/src/memory.rs
+++ b/rust/crates/wasmrs-wasmtime/src/memory.rs
@@ -1,52 +1,59 @@
 use bytes::Bytes;
-use wasmtime::{AsContext, Caller, Memory, StoreContext};
+use wasmtime::{AsContextMut, Caller, Memory, StoreContext};
 
 use crate::errors::Error;
 
+/// Guests pass addresses as `i32`s.
+fn range(ptr: i32, len: i32) -> std::ops::Range<usize> {
+  let start = ptr as u32 as usize;
+  start..start + len as u32 as usize
+}
+
 pub(crate) fn get_vec_from_memory<'a, T: 'a>(
   store: impl Into<StoreContext<'a, T>>,
   mem: Memory,
   ptr: i32,
   len: i32,
-) -> Vec<u8> {
+) -> super::Result<Vec<u8>> {
   let data = mem.data(store);
-  data[ptr as usize..(ptr + len) as usize].to_vec()
+  data
+    .get(range(ptr, len))
+    .map(|bytes| bytes.to_vec())
+    .ok_or(Error::GuestMemory)
 }
 
-pub(crate) fn get_caller_memory<T>(caller: &mut Caller<T>) -> Memory {
-  let memory = caller.get_export("memory").map(|e| e.into_memory().unwrap());
-  memory.unwrap()
+pub(crate) fn get_caller_memory<T>(caller: &mut Caller<T>) -> super::Result<Memory> {
+  caller
+    .get_export("memory")
+    .and_then(|e| e.into_memory())
+    .ok_or(Error::GuestMemory)
 }
 
 pub(crate) fn read_frame<'a, T: 'a>(
   store: impl Into<StoreContext<'a, T>>,
   mem: Memory,
-  ptr: usize,
-  read_until: usize,
+  ptr: i32,
+  read_until: i32,
 ) -> super::Result<Bytes> {
   let data = mem.data(store);
-  let buff = &data[ptr..(ptr + read_until)];
-  trace!("{:?}", &data[ptr..(ptr + read_until)]);
+  let buff = data.get(range(ptr, read_until)).ok_or(Error::GuestMemory)?;
+  trace!("{:?}", buff);
   wasmrs::util::read_frame(buff).map_err(|_| Error::GuestMemory)
 }
 
 pub(crate) fn write_bytes_to_memory(
-  store: impl AsContext,
+  store: impl AsContextMut,
   memory: Memory,
   buffer: &[u8],
   buffer_start: u32,
   buffer_len: u32,
-) -> u32 {
+) -> super::Result<u32> {
   let len = buffer.len();
-
-  #[allow(unsafe_code)]
-  unsafe {
-    let guest_ptr = memory.data_ptr(&store).offset(buffer_start as isize);
-    assert!(
-      len <= buffer_len as usize,
-      "Writing more data than guest buffer can store."
-    );
-    guest_ptr.copy_from(buffer.as_ptr(), len);
+  if len > buffer_len as usize {
+    return Err(Error::GuestBuffer(len, buffer_len));
   }
-  len as u32
+  memory
+    .write(store, buffer_start as usize, buffer)
+    .map_err(|_| Error::GuestMemory)?;
+  Ok(len as u32)
 }
diff --git a/rust/crates/wasmrs-wasmtime/src/wasmrs_wasmtime.rs b/rust/crates/wasmrs-wasmtime/src/wasmrs_wasmtime.rs
index ac9e8bb..3034cb0 100644
--- a/rust/crates/wasmrs-wasmtime/src/wasmrs_wasmtime.rs
+++ b/rust/crates/wasmrs-wasmtime/src/wasmrs_wasmtime.rs
@@ -52,8 +52,8 @@ fn linker_send() -> (
         "guest calling host"
       );
 
-      let read_until = params[0].unwrap_i32() as usize;
-      let memory = get_caller_memory(&mut caller);
+      let read_until = params[0].unwrap_i32();
+      let memory = get_caller_memory(&mut caller)?;
       let bytes = read_frame(
         caller.as_context(),
         memory,
@@ -86,7 +86,7 @@ fn linker_init() -> (
 
       caller
         .data()
-        .do_host_init(guest_buff_ptr.try_into().unwrap(), host_buff_ptr.try_into().unwrap())?;
+        .do_host_init(guest_buff_ptr as u32, host_buff_ptr as u32)?;
 
       Ok(())
     },
@@ -102,12 +102,10 @@ fn linker_console_log() -> (
     move |mut caller, params: &[Val], _results: &mut [Val]| {
       let ptr = params[0].i32();
       let len = params[1].i32();
-      let memory = get_caller_memory(&mut caller);
-      let vec = get_vec_from_memory(caller.as_context(), memory, ptr.unwrap(), len.unwrap());
+      let memory = get_caller_memory(&mut caller)?;
+      let vec = get_vec_from_memory(caller.as_context(), memory, ptr.unwrap(), len.unwrap())?;
 
-      let msg = std::str::from_utf8(&vec).unwrap();
-
-      caller.data().do_console_log(msg);
+      caller.data().do_console_log(&String::from_utf8_lossy(&vec));
       Ok(())
     },
   )
@@ -127,8 +125,8 @@ fn linker_op_list() -> (
       );
       let ptr = params[0].i32();
       let len = params[1].i32();
-      let memory = get_caller_memory(&mut caller);
-      let vec = get_vec_from_memory(caller.as_context(), memory, ptr.unwrap(), len.unwrap());
+      let memory = get_caller_memory(&mut caller)?;
+      let vec = get_vec_from_memory(caller.as_context(), memory, ptr.unwrap(), len.unwrap())?;
 
       caller.data().do_op_list(Bytes::from(vec))?;
       Ok(())
-- 
2.43.0


From 9e1287d7c2ecf8fdcb95b31c697e588eec949891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 43/66] fix: a frame that cannot be given to the other side
 fails its own call

---
 rust/crates/wasmrs-guest/src/guest.rs | 25 +++++++++++++++++++------
 rust/crates/wasmrs-host/src/host.rs   | 12 +++++++++---
 rust/crates/wasmrs/src/socket.rs      | 23 ++++++++++++++++++++++-
 3 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/rust/crates/wasmrs-guest/src/guest.rs b/rust/crates/wasmrs-guest/src/guest.rs
index 1be62d6..24b641e 100644
--- a/rust/crates/wasmrs-guest/src/guest.rs
+++ b/rust/crates/wasmrs-guest/src/guest.rs
@@ -190,7 +190,18 @@ pub(crate) fn send_frame(read_until: u32) {
 fn spawn_writer(mut rx: UnboundedReceiver<Frame>) {
   spawn(async move {
     while let Some(frame) = rx.recv().await {
-      send_host_frame(vec![frame.encode()]);
+      let (stream_id, kind) = (frame.stream_id(), frame.frame_type());
+      if send_host_frame(vec![frame.encode()]).is_empty() {
+        continue;
+      }
+      let frames = SOCKET.with(|cell| {
+        #[allow(unsafe_code)]
+        let socket = unsafe { &mut *cell.get() };
+        socket.undelivered(stream_id, kind, "Frame is larger than the host's buffer")
+      });
+      for frame in frames {
+        send_host_frame(vec![frame.encode()]);
+      }
     }
   });
 }
@@ -237,12 +248,12 @@ fn send_host_frame(mut payloads: Vec<Bytes>) -> Vec<Bytes> {
   let size = HOST_BUFFER.with(|cell| {
     #[allow(unsafe_code)]
     let buff = unsafe { &mut *cell.get() };
-    let max = buff.capacity();
+    let max = buff.len();
     let mut total = 0;
     let mut buff = Cursor::new(buff);
     while let Some(payload) = payloads.pop() {
       let len = payload.len() as u32;
-      if (total + len as usize) > max {
+      if (total + 3 + len as usize) > max {
         payloads.push(payload);
         break;
       }
@@ -252,9 +263,11 @@ fn send_host_frame(mut payloads: Vec<Bytes>) -> Vec<Bytes> {
     }
     total
   });
-  #[allow(unsafe_code)]
-  unsafe {
-    _host_wasmrs_send(size);
+  if size > 0 {
+    #[allow(unsafe_code)]
+    unsafe {
+      _host_wasmrs_send(size);
+    }
   }
   payloads
 }
diff --git a/rust/crates/wasmrs-host/src/host.rs b/rust/crates/wasmrs-host/src/host.rs
index d53bb55..09f88c4 100644
--- a/rust/crates/wasmrs-host/src/host.rs
+++ b/rust/crates/wasmrs-host/src/host.rs
@@ -38,16 +38,22 @@ impl Host {
 
     let context = self.engine.borrow().new_context(socket.clone())?;
     context.init()?;
-    spawn_writer(rx, context.clone());
+    spawn_writer(rx, socket.clone(), context.clone());
 
     CallContext::new(self.mtu, socket, context)
   }
 }
 
-fn spawn_writer(mut rx: UnboundedReceiver<Frame>, context: SharedContext) {
+fn spawn_writer(mut rx: UnboundedReceiver<Frame>, socket: Arc<WasmSocket>, context: SharedContext) {
   spawn(async move {
     while let Some(frame) = rx.recv().await {
-      let _ = context.write_frame(frame);
+      let (stream_id, kind) = (frame.stream_id(), frame.frame_type());
+      if let Err(e) = context.write_frame(frame) {
+        let reason = crate::errors::Error::SendFailed(e.to_string()).to_string();
+        for frame in socket.undelivered(stream_id, kind, reason) {
+          let _ = context.write_frame(frame);
+        }
+      }
     }
   });
 }
diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index 0e51681..49be12a 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -1,5 +1,5 @@
 #![allow(missing_debug_implementations)]
-use crate::frames::{ErrorCode, FrameFlags, RSocketFlags};
+use crate::frames::{ErrorCode, FrameFlags, FrameType, RSocketFlags};
 use crate::{Frame, PayloadError, RSocket};
 use wasmrs_runtime::{self as runtime, unbounded_channel, Entry, SafeMap, UnboundedReceiver, UnboundedSender};
 use wasmrs_rx::*;
@@ -118,6 +118,27 @@ impl WasmSocket {
     send(&self.tx, frame);
   }
 
+  /// A frame of this socket could not be given to the other side: what depends on it fails here, and what the other side
+  /// waits for has to be ended with the frames returned.
+  pub fn undelivered(&self, stream_id: u32, kind: FrameType, reason: impl AsRef<str>) -> Vec<Frame> {
+    if matches!(kind, FrameType::RequestN | FrameType::Cancel) {
+      return Vec::new();
+    }
+    let code: u32 = ErrorCode::ApplicationError.into();
+    let own = stream_id % 2 == self.stream_index.load(Ordering::SeqCst) % 2;
+    if own {
+      self.on_error(stream_id, 0, code, reason.as_ref().to_owned());
+    }
+    // Nothing more is to be sent on the stream.
+    self.on_cancel(stream_id, 0);
+    let error = Frame::new_error(stream_id, code, reason.as_ref());
+    match kind {
+      FrameType::Payload if own => vec![error, Frame::new_cancel(stream_id)],
+      FrameType::Payload | FrameType::Err => vec![error],
+      _ => Vec::new(),
+    }
+  }
+
   /// Process a frame.
   pub fn process_once(&self, frame: Frame) -> Result<(), Error> {
     let stream_id = frame.stream_id();
-- 
2.43.0


From 72cac5e2e4fe456a6721e83ed62423cb1a3e3147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 44/66] fix: a guest answers a frame it cannot decode on the
 frame's own stream

---
 rust/crates/wasmrs-guest/src/guest.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/crates/wasmrs-guest/src/guest.rs b/rust/crates/wasmrs-guest/src/guest.rs
index 24b641e..26606a5 100644
--- a/rust/crates/wasmrs-guest/src/guest.rs
+++ b/rust/crates/wasmrs-guest/src/guest.rs
@@ -176,8 +176,8 @@ pub(crate) fn send_frame(read_until: u32) {
         Ok(frame) => {
           let _ = socket.process_once(frame);
         }
-        Err(_e) => {
-          send_error_frame(0, 0, "Could not decode frame data");
+        Err((stream_id, _e)) => {
+          send_error_frame(stream_id, 0, "Could not decode frame data");
           continue;
         }
       }
-- 
2.43.0


From 65f84eee1bc45a9a71555aeae8a4779a29de6573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 45/66] fix: wasmrs-wasmtime reads every frame a guest sends at
 once

A guest may announce several frames with one __send, as a host may with one __wasmrs_send. Only the first was read; the
others were lost.
---
 rust/crates/wasmrs-wasmtime/src/memory.rs          | 13 +++++++++----
 rust/crates/wasmrs-wasmtime/src/wasmrs_wasmtime.rs | 10 ++++++----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/rust/crates/wasmrs-wasmtime/src/memory.rs b/rust/crates/wasmrs-wasmtime/src/memory.rs
index 806098c..a65e715 100644
--- a/rust/crates/wasmrs-wasmtime/src/memory.rs
+++ b/rust/crates/wasmrs-wasmtime/src/memory.rs
@@ -29,16 +29,21 @@ pub(crate) fn get_caller_memory<T>(caller: &mut Caller<T>) -> super::Result<Memo
     .ok_or(Error::GuestMemory)
 }
 
-pub(crate) fn read_frame<'a, T: 'a>(
+/// Read the frames in a buffer, each behind its length.
+pub(crate) fn read_frames<'a, T: 'a>(
   store: impl Into<StoreContext<'a, T>>,
   mem: Memory,
   ptr: i32,
   read_until: i32,
-) -> super::Result<Bytes> {
+) -> super::Result<Vec<Bytes>> {
   let data = mem.data(store);
-  let buff = data.get(range(ptr, read_until)).ok_or(Error::GuestMemory)?;
+  let mut buff = data.get(range(ptr, read_until)).ok_or(Error::GuestMemory)?;
   trace!("{:?}", buff);
-  wasmrs::util::read_frame(buff).map_err(|_| Error::GuestMemory)
+  let mut frames = Vec::new();
+  while !buff.is_empty() {
+    frames.push(wasmrs::util::read_frame(&mut buff).map_err(|_| Error::GuestMemory)?);
+  }
+  Ok(frames)
 }
 
 pub(crate) fn write_bytes_to_memory(
diff --git a/rust/crates/wasmrs-wasmtime/src/wasmrs_wasmtime.rs b/rust/crates/wasmrs-wasmtime/src/wasmrs_wasmtime.rs
index 3034cb0..12d78f3 100644
--- a/rust/crates/wasmrs-wasmtime/src/wasmrs_wasmtime.rs
+++ b/rust/crates/wasmrs-wasmtime/src/wasmrs_wasmtime.rs
@@ -3,7 +3,7 @@ use wasmrs_host::{CallbackProvider, HostExports, IntoEnumIterator};
 use wasmtime::{AsContext, Caller, FuncType, Linker, Val, ValType};
 
 use crate::errors::Error;
-use crate::memory::{get_caller_memory, get_vec_from_memory, read_frame};
+use crate::memory::{get_caller_memory, get_vec_from_memory, read_frames};
 use crate::store::ProviderStore;
 
 pub(crate) fn add_to_linker(linker: &mut Linker<ProviderStore>) -> super::Result<()> {
@@ -54,15 +54,17 @@ fn linker_send() -> (
 
       let read_until = params[0].unwrap_i32();
       let memory = get_caller_memory(&mut caller)?;
-      let bytes = read_frame(
+      let frames = read_frames(
         caller.as_context(),
         memory,
         caller.data().host_buffer.get_start() as _,
         read_until,
       )?;
-      trace!(?bytes, "got frame");
 
-      caller.data().do_host_send(bytes)?;
+      for bytes in frames {
+        trace!(?bytes, "got frame");
+        caller.data().do_host_send(bytes)?;
+      }
       Ok(())
     },
   )
-- 
2.43.0


From c46afbd3b8a88c2fbc3cb65aeae3bdb12e19cb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 46/66] fix: a channel request with the complete flag is the
 whole input (Rust)

---
 rust/crates/wasmrs/src/socket.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index 49be12a..0e6592a 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -159,7 +159,7 @@ impl WasmSocket {
       }
       Frame::RequestChannel(f) => {
         let input: Payload = f.into();
-        self.on_request_channel(stream_id, input);
+        self.on_request_channel(stream_id, flag, input);
       }
       Frame::PayloadFrame(f) => {
         let input: Payload = f.into();
@@ -236,7 +236,7 @@ impl WasmSocket {
     });
   }
 
-  fn on_request_channel(&self, sid: u32, first: Payload) {
+  fn on_request_channel(&self, sid: u32, flag: FrameFlags, first: Payload) {
     trace!(sid, side = %self.side, "on_request_channel");
     let responder = self.responder.clone();
 
@@ -244,7 +244,13 @@ impl WasmSocket {
     let (handler_tx, handler_rx) = Flux::new_channels();
 
     handler_tx.send(first).unwrap();
-    self.register_handler(sid, Handler::ReqRC(handler_tx));
+    // The request can be the whole input.
+    let only = flag.flag_complete();
+    if only {
+      handler_tx.complete();
+    } else {
+      self.register_handler(sid, Handler::ReqRC(handler_tx));
+    }
     let abort_handles = self.abort_handles.clone();
     let (abort_handle, abort_registration) = AbortHandle::new_pair();
     abort_handles.insert(sid, abort_handle);
@@ -252,10 +258,12 @@ impl WasmSocket {
       let outputs = responder.request_channel(handler_rx);
       let mut outputs = Abortable::new(outputs, abort_registration);
 
-      // TODO: support custom RequestN.
-      let request_n = Frame::new_request_n(sid, Frame::REQUEST_MAX, 0);
+      if !only {
+        // TODO: support custom RequestN.
+        let request_n = Frame::new_request_n(sid, Frame::REQUEST_MAX, 0);
 
-      send(&tx, request_n);
+        send(&tx, request_n);
+      }
 
       while let Some(next) = outputs.next().await {
         match next {
-- 
2.43.0


From 8f36c7ab57984e689ed3a0e564ec96de77a6971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:37 +0000
Subject: [PATCH 47/66] fix: a channel request with the complete flag has no
 input (Go)

---
 go/handler/handler.go                | 3 +++
 go/transport/wasmrs/guest/guest.go   | 3 +++
 go/transport/wasmrs/host/instance.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index 2948f8a..76e90ad 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -178,6 +178,9 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 
 			s := proxy.NewRequestStream(i.ctx, streamID, true, i.sendFrame, i.removeStream)
 			i.registerStream(s) // Need to register for RequestN frames
+			if v.Complete {
+				s.OnComplete() // the request has no input
+			}
 			go i.handleRequestChannel(i.ctx, s, v.Data, v.Metadata, v.InitialN)
 		}
 
diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 96f5351..c4134e1 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -215,6 +215,9 @@ func GuestSend(endPos uint32) {
 
 			s := proxy.NewRequestStream(ctx, rc.StreamID, true, sendFrame, removeStream)
 			registerStream(s) // Need to register for RequestN frames
+			if rc.Complete {
+				s.OnComplete() // the request has no input
+			}
 			handleRequestChannel(ctx, s, rc.Data, rc.Metadata, rc.InitialN)
 
 		case frames.FrameTypeRequestN:
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 970220e..ba5c92f 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -381,6 +381,9 @@ func (i *Instance) recvOne(data []byte) {
 
 		s := proxy.NewRequestStream(ctx, rc.StreamID, true, i.SendFrame, i.removeStream)
 		i.registerStream(s) // Need to register for RequestN frames
+		if rc.Complete {
+			s.OnComplete() // the request has no input
+		}
 		go i.handleRequestChannel(ctx, s, rc.Data, rc.Metadata, rc.InitialN)
 
 	case frames.FrameTypeRequestN:
-- 
2.43.0


From d791d5b608aa86637ed605a55b9bdf788f02b3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:02 +0000
Subject: [PATCH 48/66] fix: refuse a module that lacks the exports the host
 needs

---
 go/transport/wasmrs/host/instance.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index ba5c92f..81610ed 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -78,6 +78,13 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	if send == nil {
 		return nil, errors.New("module does not export __wasmrs_send")
 	}
+	f := m.ExportedFunction("__wasmrs_op_list_request")
+	if f == nil {
+		return nil, errors.New("module does not export __wasmrs_op_list_request")
+	}
+	if m.ExportedMemory("memory") == nil {
+		return nil, errors.New("module does not export memory")
+	}
 	i := &Instance{
 		ctx:       ctx,
 		m:         m,
@@ -99,7 +106,6 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 		return nil, err
 	}
 
-	f := m.ExportedFunction("__wasmrs_op_list_request")
 	_, err = f.Call(ctx)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 12427951c7a3b3c5a2a27c132a0bb3dfdf278183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 49/66] fix: a guest that traps or gives a bad buffer ends its
 own calls, not the host

---
 go/transport/wasmrs/host/instance.go | 59 ++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 81610ed..4d20db8 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -8,6 +8,7 @@ import (
 	"sync"
 
 	"github.com/tetratelabs/wazero/api"
+	"github.com/tetratelabs/wazero/sys"
 
 	"github.com/nanobus/iota/go/internal/buffer"
 	"github.com/nanobus/iota/go/internal/frames"
@@ -67,6 +68,7 @@ type instanceKey struct{}
 var (
 	errClosed        = errors.New("instance closed")
 	errFrameTooLarge = errors.New("frame too large")
+	errBadBuffer     = errors.New("guest buffer out of bounds")
 )
 
 func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
@@ -196,26 +198,35 @@ func (i *Instance) sendLoop() {
 	ctx := context.WithValue(i.ctx, instanceKey{}, i)
 	var buf []byte
 	pos := uint32(0)
-	count := 0
+	var pending []uint32 // streams of the frames in buf
 
-	write := func(f frames.Frame) {
-		// Make sure to obtain the buffer
-		// in case it changed size via grow/shrink.
-		if pos == 0 {
-			mem := i.m.Memory()
-			buf, _ = mem.Read(i.sendPtr, i.sendSize)
+	// flush has the guest process what was written.
+	flush := func() {
+		if _, err := i.sendFn.Call(ctx, uint64(pos)); err != nil {
+			i.sendFailed(pending, err)
+			pending = nil
 		}
+		pos = 0
+		pending = pending[:0]
+	}
 
+	write := func(f frames.Frame) {
 		byteCount := f.Size()
 
 		// if this frame does not fit,
 		// send the buffer and reset.
 		if pos+3+byteCount > i.sendSize {
-			i.sendFn.Call(ctx, uint64(pos))
-			pos = 0
-			count = 0
-			mem := i.m.Memory()
-			buf, _ = mem.Read(i.sendPtr, i.sendSize)
+			flush()
+		}
+
+		// Make sure to obtain the buffer
+		// in case it changed size via grow/shrink.
+		if pos == 0 {
+			var ok bool
+			if buf, ok = i.m.Memory().Read(i.sendPtr, i.sendSize); !ok {
+				i.sendFailed([]uint32{f.GetStreamID()}, errBadBuffer)
+				return
+			}
 		}
 
 		// Encode length and frame data.
@@ -223,8 +234,7 @@ func (i *Instance) sendLoop() {
 		copy(buf[pos:], lengthBytes[1:4])
 		f.Encode(buf[pos+3:])
 		pos += 3 + byteCount
-
-		count++
+		pending = append(pending, f.GetStreamID())
 	}
 
 	for {
@@ -241,9 +251,7 @@ func (i *Instance) sendLoop() {
 				write(f)
 			default:
 				if pos > 0 {
-					i.sendFn.Call(ctx, uint64(pos))
-					pos = 0
-					count = 0
+					flush()
 				}
 				loop = false
 			}
@@ -251,6 +259,23 @@ func (i *Instance) sendLoop() {
 	}
 }
 
+// sendFailed ends the streams whose frames the guest did not process.
+func (i *Instance) sendFailed(streamIDs []uint32, err error) {
+	// What is told may send frames itself.
+	go func() {
+		var exit *sys.ExitError
+		if errors.As(err, &exit) {
+			i.Close()
+			return
+		}
+		for _, id := range streamIDs {
+			if s, ok := i.getStream(id); ok {
+				s.Close(err)
+			}
+		}
+	}()
+}
+
 func (i *Instance) Operations() operations.Table {
 	return i.operations
 }
-- 
2.43.0


From 580b7ab18eee0d3fb46459ca6287fb429edc511a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 50/66] fix: a malformed operation list is an error, not a
 panic

---
 go/operations/operatons.go | 61 ++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 15 deletions(-)

diff --git a/go/operations/operatons.go b/go/operations/operatons.go
index bca2fb2..4c3f8ad 100644
--- a/go/operations/operatons.go
+++ b/go/operations/operatons.go
@@ -62,8 +62,16 @@ func (d Direction) String() string {
 // Magic is the 4 byte preamble (literally "\0wrs") of the binary format
 var Magic = []byte{0x00, 0x77, 0x72, 0x73}
 var ErrInvalidMagicNumber = errors.New("invalid magic number")
+var ErrTruncated = errors.New("truncated operation table")
+
+// minOperationLen is the encoded size of an operation
+// without its namespace and name.
+const minOperationLen = 12
 
 func FromBytes(buf []byte) (Table, error) {
+	if len(buf) < 10 {
+		return nil, ErrTruncated
+	}
 	if !bytes.Equal(buf[0:4], Magic) {
 		return nil, ErrInvalidMagicNumber
 	}
@@ -72,33 +80,56 @@ func FromBytes(buf []byte) (Table, error) {
 	// Read version.
 	version := binary.BigEndian.Uint16(buf)
 	if version != 1 {
-		return nil, errors.New("Unknown operation table version %d" + strconv.Itoa(int(version)))
+		return nil, errors.New("Unknown operation table version " + strconv.Itoa(int(version)))
 	}
 	buf = buf[2:]
 	numOps := binary.BigEndian.Uint32(buf)
-	operations := make(Table, numOps)
 	buf = buf[4:]
-	for i := 0; i < int(numOps); i++ {
+	if uint64(numOps)*minOperationLen > uint64(len(buf)) {
+		return nil, ErrTruncated
+	}
+	operations := make(Table, numOps)
+
+	// next splits off a length and that many bytes.
+	next := func() ([]byte, bool) {
+		if len(buf) < 2 {
+			return nil, false
+		}
+		length := int(binary.BigEndian.Uint16(buf))
+		if len(buf) < 2+length {
+			return nil, false
+		}
+		value := buf[2 : 2+length]
+		buf = buf[2+length:]
+		return value, true
+	}
+
+	for i := range operations {
+		if len(buf) < 6 {
+			return nil, ErrTruncated
+		}
 		opType := RequestType(buf[0])
 		dir := Direction(buf[1])
 		id := binary.BigEndian.Uint32(buf[2:6])
-		nsLen := binary.BigEndian.Uint16(buf[6:8])
-		buf = buf[8:]
-		ns := string(buf[:nsLen])
-		buf = buf[nsLen:]
-		opLen := binary.BigEndian.Uint16(buf[0:2])
-		buf = buf[2:]
-		op := string(buf[:opLen])
-		buf = buf[opLen:]
+		buf = buf[6:]
+		ns, ok := next()
+		if !ok {
+			return nil, ErrTruncated
+		}
+		op, ok := next()
+		if !ok {
+			return nil, ErrTruncated
+		}
+		if _, ok = next(); !ok { // Reserved
+			return nil, ErrTruncated
+		}
 		operations[i] = Operation{
 			Type:      opType,
 			Direction: dir,
 			Index:     id,
-			Namespace: ns,
-			Operation: op,
+			Namespace: string(ns),
+			Operation: string(op),
 		}
-		reservedLen := binary.BigEndian.Uint16(buf)
-		buf = buf[2+reservedLen:] // Reserved
 	}
 
 	return operations, nil
-- 
2.43.0


From 55b27eefd2b9dcfb023209033d61f6bd50046a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 51/66] fix: the operation index a guest imports does not size
 the host's memory

---
 go/transport/wasmrs/host/instance.go | 36 ++++++++++------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 4d20db8..91ea429 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -50,10 +50,10 @@ type Instance struct {
 	operations         operations.Table
 
 	importedMu   sync.RWMutex
-	importedRR   []invoke.RequestResponseHandler
-	importedRFNF []invoke.FireAndForgetHandler
-	importedRS   []invoke.RequestStreamHandler
-	importedRC   []invoke.RequestChannelHandler
+	importedRR   map[uint32]invoke.RequestResponseHandler
+	importedRFNF map[uint32]invoke.FireAndForgetHandler
+	importedRS   map[uint32]invoke.RequestStreamHandler
+	importedRC   map[uint32]invoke.RequestChannelHandler
 }
 
 type fragmentedPayload struct {
@@ -671,8 +671,8 @@ func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.RequestStr
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
 	i.importedMu.Lock()
 	defer i.importedMu.Unlock()
-	for uint32(len(i.importedRR)) < index+1 {
-		i.importedRR = append(i.importedRR, nil)
+	if i.importedRR == nil {
+		i.importedRR = make(map[uint32]invoke.RequestResponseHandler)
 	}
 	i.importedRR[index] = handler
 }
@@ -680,17 +680,14 @@ func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.Reques
 func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestResponseHandler {
 	i.importedMu.RLock()
 	defer i.importedMu.RUnlock()
-	if uint32(len(i.importedRR)) <= index {
-		return nil
-	}
 	return i.importedRR[index]
 }
 
 func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndForgetHandler) {
 	i.importedMu.Lock()
 	defer i.importedMu.Unlock()
-	for uint32(len(i.importedRFNF)) < index+1 {
-		i.importedRFNF = append(i.importedRFNF, nil)
+	if i.importedRFNF == nil {
+		i.importedRFNF = make(map[uint32]invoke.FireAndForgetHandler)
 	}
 	i.importedRFNF[index] = handler
 }
@@ -698,17 +695,14 @@ func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndF
 func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHandler {
 	i.importedMu.RLock()
 	defer i.importedMu.RUnlock()
-	if uint32(len(i.importedRFNF)) <= index {
-		return nil
-	}
 	return i.importedRFNF[index]
 }
 
 func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestStreamHandler) {
 	i.importedMu.Lock()
 	defer i.importedMu.Unlock()
-	for uint32(len(i.importedRS)) < index+1 {
-		i.importedRS = append(i.importedRS, nil)
+	if i.importedRS == nil {
+		i.importedRS = make(map[uint32]invoke.RequestStreamHandler)
 	}
 	i.importedRS[index] = handler
 }
@@ -716,17 +710,14 @@ func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestS
 func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHandler {
 	i.importedMu.RLock()
 	defer i.importedMu.RUnlock()
-	if uint32(len(i.importedRS)) <= index {
-		return nil
-	}
 	return i.importedRS[index]
 }
 
 func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.RequestChannelHandler) {
 	i.importedMu.Lock()
 	defer i.importedMu.Unlock()
-	for uint32(len(i.importedRC)) < index+1 {
-		i.importedRC = append(i.importedRC, nil)
+	if i.importedRC == nil {
+		i.importedRC = make(map[uint32]invoke.RequestChannelHandler)
 	}
 	i.importedRC[index] = handler
 }
@@ -734,9 +725,6 @@ func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.Request
 func (i *Instance) getRequestChannelHandler(index uint32) invoke.RequestChannelHandler {
 	i.importedMu.RLock()
 	defer i.importedMu.RUnlock()
-	if uint32(len(i.importedRC)) <= index {
-		return nil
-	}
 	return i.importedRC[index]
 }
 
-- 
2.43.0


From 6154d3bbfc47a7616665a393955f719733e4ccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:06 +0000
Subject: [PATCH 52/66] fix: a guest's request must use one of the guest's
 stream IDs

---
 go/transport/wasmrs/host/instance.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 91ea429..da4afb1 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -331,7 +331,11 @@ func (i *Instance) recvOne(data []byte) {
 	data = data[frames.FrameHeaderLen:]
 
 	var str proxy.Stream
-	if header.Type() >= frames.FrameTypeRequestN {
+	if header.Type() < frames.FrameTypeRequestN {
+		if header.StreamID()&1 == 0 {
+			return // not an ID for streams of the guest
+		}
+	} else {
 		var ok bool
 		str, ok = i.getStream(header.StreamID())
 		if !ok {
-- 
2.43.0


From 6fe1225d1a8b7d140d4db9c5da8cb147c408d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 53/66] fix: a host can hold more than one instance

Every instance was instantiated under the same name, which the wasm runtime
refuses while another one of that name is there.
---
 go/transport/wasmrs/host/host.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/go/transport/wasmrs/host/host.go b/go/transport/wasmrs/host/host.go
index 455d0e1..e28ae57 100644
--- a/go/transport/wasmrs/host/host.go
+++ b/go/transport/wasmrs/host/host.go
@@ -2,7 +2,9 @@ package host
 
 import (
 	"context"
+	"fmt"
 	"os"
+	"sync/atomic"
 
 	"github.com/tetratelabs/wazero"
 	"github.com/tetratelabs/wazero/api"
@@ -18,8 +20,9 @@ const (
 )
 
 type Host struct {
-	runtime wazero.Runtime
-	config  wazero.ModuleConfig
+	runtime   wazero.Runtime
+	config    wazero.ModuleConfig
+	instances uint32 // instantiated so far
 }
 
 type Module struct {
@@ -74,7 +77,9 @@ func (h *Host) Compile(ctx context.Context, source []byte) (*Module, error) {
 }
 
 func (m *Module) Instantiate(ctx context.Context) (*Instance, error) {
-	module, err := m.h.runtime.InstantiateModule(ctx, m.module, m.h.config.WithName("test"))
+	// The runtime wants a name of its own for every instance.
+	name := fmt.Sprintf("instance-%d", atomic.AddUint32(&m.h.instances, 1))
+	module, err := m.h.runtime.InstantiateModule(ctx, m.module, m.h.config.WithName(name))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 4c3314f7d068b3a7e1b630551ae9b531691fbfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:24 +0000
Subject: [PATCH 54/66] fix: a MessagePack length near 2^32 no longer passes
 the bounds check

---
 go/msgpack/data_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/msgpack/data_reader.go b/go/msgpack/data_reader.go
index 4240605..fb12014 100644
--- a/go/msgpack/data_reader.go
+++ b/go/msgpack/data_reader.go
@@ -240,7 +240,7 @@ func (d *DataReader) checkBufferSize(length uint32) error {
 	if d.err != nil {
 		return d.err
 	}
-	if d.byteOffset+length > uint32(len(d.buffer)) {
+	if length > uint32(len(d.buffer))-d.byteOffset {
 		d.err = ErrRange
 		return ErrRange
 	}
-- 
2.43.0


From ec71ac2fa8394122a0d740412202a93e7e6b3886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:24 +0000
Subject: [PATCH 55/66] fix: WriteAny writes one nil for nil

---
 go/msgpack/encoder.go | 3 ---
 go/msgpack/sizer.go   | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/go/msgpack/encoder.go b/go/msgpack/encoder.go
index 2fd74c0..ebe87d2 100644
--- a/go/msgpack/encoder.go
+++ b/go/msgpack/encoder.go
@@ -312,9 +312,6 @@ func (e *Encoder) WriteMapSize(length uint32) {
 }
 
 func (e *Encoder) WriteAny(value any) {
-	if value == nil {
-		e.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		e.WriteNil()
diff --git a/go/msgpack/sizer.go b/go/msgpack/sizer.go
index 0fc83c0..17e3fe6 100644
--- a/go/msgpack/sizer.go
+++ b/go/msgpack/sizer.go
@@ -276,9 +276,6 @@ func (s *Sizer) WriteNillableFloat64(value *float64) {
 }
 
 func (s *Sizer) WriteAny(value any) {
-	if value == nil {
-		s.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		s.WriteNil()
-- 
2.43.0


From d57b92ddb00fbf75d1a3e4b186313f23d1a63204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:24 +0000
Subject: [PATCH 56/66] fix: the sizer counts 255 bytes as the encoder writes
 them

---
 go/msgpack/sizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/msgpack/sizer.go b/go/msgpack/sizer.go
index 17e3fe6..e409960 100644
--- a/go/msgpack/sizer.go
+++ b/go/msgpack/sizer.go
@@ -115,7 +115,7 @@ func (s *Sizer) WriteArraySize(length uint32) {
 }
 
 func (s *Sizer) writeBinLength(length uint32) {
-	if length < math.MaxUint8 {
+	if length <= math.MaxUint8 {
 		s.length += 1
 	} else if length <= math.MaxUint16 {
 		s.length += 2
-- 
2.43.0


From 8f0ded890e26a4b858f10fc814eb34393f28a8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 57/66] fix: times survive WriteAny and ReadAny, and Skip
 passes over extensions

---
 go/msgpack/decoder.go | 22 +++++++++++++++++++---
 go/msgpack/encoder.go |  8 ++++++++
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 85af61f..be05dce 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -390,6 +390,10 @@ func (d *Decoder) ReadTime() (time.Time, error) {
 	}
 
 	d.reader.Discard(1)
+	return d.readTimeExt(prefix)
+}
+
+func (d *Decoder) readTimeExt(prefix byte) (time.Time, error) {
 	extID, extLen, err := d.extHeader(prefix)
 	if err != nil {
 		return time.Time{}, err
@@ -673,6 +677,16 @@ func (d *Decoder) getSize() (uint32, error) {
 			d.reader.Discard(9)
 		case FormatFixExt16:
 			d.reader.Discard(17)
+		case FormatExt8, FormatExt16, FormatExt32:
+			length, err := d.parseExtLen(leadByte)
+			if err != nil {
+				return 0, err
+			}
+			d.reader.Discard(1)
+			err = d.reader.Discard(length)
+			if err != nil {
+				return 0, err
+			}
 		case FormatArray16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
@@ -820,6 +834,8 @@ func (d *Decoder) ReadAny() (any, error) {
 			return nil, err
 		}
 		return d.reader.GetBytes(binLen)
+	case FormatFixExt4, FormatFixExt8, FormatExt8:
+		return d.readTimeExt(prefix)
 	}
 
 	return nil, ReadError{"bad value for bool"}
@@ -886,13 +902,13 @@ func (d *Decoder) parseExtLen(c byte) (uint32, error) {
 	case FormatFixExt16:
 		return 16, nil
 	case FormatExt8:
-		n, err := d.ReadUint8()
+		n, err := d.reader.GetUint8()
 		return uint32(n), err
 	case FormatExt16:
-		n, err := d.ReadUint16()
+		n, err := d.reader.GetUint16()
 		return uint32(n), err
 	case FormatExt32:
-		n, err := d.ReadUint32()
+		n, err := d.reader.GetUint32()
 		return n, err
 	default:
 		return 0, ReadError{"msgpack: invalid code=" + strconv.FormatUint(uint64(c), 16) + " decoding ext len"}
diff --git a/go/msgpack/encoder.go b/go/msgpack/encoder.go
index ebe87d2..5e380eb 100644
--- a/go/msgpack/encoder.go
+++ b/go/msgpack/encoder.go
@@ -345,6 +345,8 @@ func (e *Encoder) WriteAny(value any) {
 		e.WriteFloat64(v)
 	case string:
 		e.WriteString(v)
+	case time.Time:
+		e.WriteTime(v)
 	case []byte:
 		e.WriteByteArray(v)
 	case []interface{}:
@@ -359,6 +361,12 @@ func (e *Encoder) WriteAny(value any) {
 		for _, v := range v {
 			e.WriteString(v)
 		}
+	case []time.Time:
+		size := uint32(len(v))
+		e.WriteArraySize(size)
+		for _, v := range v {
+			e.WriteTime(v)
+		}
 	case []bool:
 		size := uint32(len(v))
 		e.WriteArraySize(size)
-- 
2.43.0


From deb145256b667bf38d3bd0e57fb98cd93f2b1efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:00 +0000
Subject: [PATCH 58/66] fix: a map key that Go cannot hash is a decoding error,
 not a panic

---
 go/msgpack/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index be05dce..d3d7ac6 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -858,6 +858,10 @@ func (d *Decoder) readMap(m map[any]any, length uint32) error {
 		if err != nil {
 			return err
 		}
+		switch key.(type) {
+		case []byte, []any, map[any]any:
+			return ReadError{"bad type for map key"}
+		}
 		value, err := d.ReadAny()
 		if err != nil {
 			return err
-- 
2.43.0


From db7752e5d99e7fc0f6e013263b7846802f8c89a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:18 +0000
Subject: [PATCH 59/66] fix: ReadAny no longer allocates what a payload merely
 claims to hold

---
 go/msgpack/decoder.go | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index d3d7ac6..4874bfb 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -736,14 +736,12 @@ func (d *Decoder) ReadAny() (any, error) {
 
 	if isFixedArray(prefix) {
 		aryLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		ary := make([]any, aryLen)
-		err := d.readArray(ary)
-		return ary, err
+		return d.readArray(aryLen)
 	}
 
 	if isFixedMap(prefix) {
 		mapLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		m := make(map[any]any, mapLen)
+		m := make(map[any]any)
 		err := d.readMap(m, mapLen)
 		return m, err
 	}
@@ -789,23 +787,19 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(v))
 	case FormatArray32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(v))
 	case FormatMap16:
 		v, err := d.reader.GetUint16()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
+		m := make(map[any]any)
 		err = d.readMap(m, uint32(v))
 		return m, err
 	case FormatMap32:
@@ -813,7 +807,7 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
+		m := make(map[any]any)
 		err = d.readMap(m, v)
 		return m, err
 	case FormatBin8:
@@ -841,15 +835,18 @@ func (d *Decoder) ReadAny() (any, error) {
 	return nil, ReadError{"bad value for bool"}
 }
 
-func (d *Decoder) readArray(array []any) error {
-	for i := 0; i < len(array); i++ {
+// readArray grows the array with the values found: the length is only what the
+// payload claims.
+func (d *Decoder) readArray(length uint32) ([]any, error) {
+	array := []any{}
+	for i := uint32(0); i < length; i++ {
 		value, err := d.ReadAny()
 		if err != nil {
-			return err
+			return nil, err
 		}
-		array[i] = value
+		array = append(array, value)
 	}
-	return nil
+	return array, nil
 }
 
 func (d *Decoder) readMap(m map[any]any, length uint32) error {
-- 
2.43.0


From c8e3f6ea6354d19b14c481ac2110a79b9f11bf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:40 +0000
Subject: [PATCH 60/66] fix: Skip reports a value that is cut short, and nests
 as deep as the payload does

---
 go/msgpack/decoder.go | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 4874bfb..4d7c1f7 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -594,27 +594,22 @@ func (d *Decoder) ReadMapSize() (uint32, error) {
 }
 
 func (d *Decoder) Skip() error {
-	numberOfObjectsToDiscard, err := d.getSize()
-	if err != nil {
-		return err
-	}
-
-	for numberOfObjectsToDiscard > 0 {
-		err = d.Skip() // Skip recursively
+	for remaining := uint64(1); remaining > 0; remaining-- {
+		nested, err := d.getSize()
 		if err != nil {
 			return err
 		}
-		numberOfObjectsToDiscard--
+		remaining += nested
 	}
 	return nil
 }
 
-func (d *Decoder) getSize() (uint32, error) {
+func (d *Decoder) getSize() (uint64, error) {
 	leadByte, err := d.reader.GetUint8()
 	if err != nil {
 		return 0, err
 	}
-	var objectsToDiscard uint32 = 0
+	var objectsToDiscard uint64 = 0
 
 	if isNegativeFixedInt(leadByte) || isFixedInt(leadByte) {
 		// Noop, will just discard the leadbyte
@@ -622,9 +617,9 @@ func (d *Decoder) getSize() (uint32, error) {
 		strLen := uint32(leadByte & 0x1f)
 		d.reader.Discard(strLen)
 	} else if isFixedArray(leadByte) {
-		objectsToDiscard = uint32(leadByte & FormatFourLeastSigBitsInByte)
+		objectsToDiscard = uint64(leadByte & FormatFourLeastSigBitsInByte)
 	} else if isFixedMap(leadByte) {
-		objectsToDiscard = 2 * uint32(leadByte&FormatFourLeastSigBitsInByte)
+		objectsToDiscard = 2 * uint64(leadByte&FormatFourLeastSigBitsInByte)
 	} else {
 		switch leadByte {
 		case FormatNil, FormatTrue, FormatFalse:
@@ -692,31 +687,31 @@ func (d *Decoder) getSize() (uint32, error) {
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = uint32(v)
+			objectsToDiscard = uint64(v)
 		case FormatArray32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = v
+			objectsToDiscard = uint64(v)
 		case FormatMap16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * uint32(v)
+			objectsToDiscard = 2 * uint64(v)
 		case FormatMap32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * v
+			objectsToDiscard = 2 * uint64(v)
 		default:
 			return 0, ReadError{"bad prefix"}
 		}
 	}
 
-	return objectsToDiscard, nil
+	return objectsToDiscard, d.reader.Err()
 }
 
 func (d *Decoder) ReadAny() (any, error) {
-- 
2.43.0


From b1d68671af2d26e69d712d59a354916ff3ed9c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 61/66] fix: a deeply nested payload is a decoding error, not a
 stack overflow

---
 go/msgpack/decoder.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 4d7c1f7..790fcf9 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -7,8 +7,12 @@ import (
 	"time"
 )
 
+// maxDepth is how deep ReadAny follows arrays and maps in each other.
+const maxDepth = 10000
+
 type Decoder struct {
 	reader DataReader
+	depth  int
 }
 
 func NewDecoder(buffer []byte) Decoder {
@@ -833,6 +837,12 @@ func (d *Decoder) ReadAny() (any, error) {
 // readArray grows the array with the values found: the length is only what the
 // payload claims.
 func (d *Decoder) readArray(length uint32) ([]any, error) {
+	if d.depth >= maxDepth {
+		return nil, ReadError{"nested too deeply"}
+	}
+	d.depth++
+	defer func() { d.depth-- }()
+
 	array := []any{}
 	for i := uint32(0); i < length; i++ {
 		value, err := d.ReadAny()
@@ -845,6 +855,12 @@ func (d *Decoder) readArray(length uint32) ([]any, error) {
 }
 
 func (d *Decoder) readMap(m map[any]any, length uint32) error {
+	if d.depth >= maxDepth {
+		return ReadError{"nested too deeply"}
+	}
+	d.depth++
+	defer func() { d.depth-- }()
+
 	for i := uint32(0); i < length; i++ {
 		key, err := d.ReadAny()
 		if err != nil {
-- 
2.43.0


From 355c3e78f5b5b92c2c07ca22617046863a46fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:01 +0000
Subject: [PATCH 62/66] fix: converting an absent nillable value gives nil, not
 a panic

---
 go/msgpack/convert/convert.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/go/msgpack/convert/convert.go b/go/msgpack/convert/convert.go
index 455fc93..35b6550 100644
--- a/go/msgpack/convert/convert.go
+++ b/go/msgpack/convert/convert.go
@@ -71,6 +71,9 @@ func String[T ~string](value string, err error) (T, error) {
 }
 
 func NillableString[T ~string](value *string, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
@@ -80,6 +83,9 @@ func Bool[T ~bool](value bool, err error) (T, error) {
 }
 
 func NillableBool[T ~bool](value *bool, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
@@ -95,6 +101,9 @@ func Numeric[T, I numberic](value I, err error) (T, error) {
 }
 
 func NillableNumeric[T, I numberic](value *I, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
-- 
2.43.0


From 3da7b3dbfd4d25029653f7ab3a2d3ab09932c796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 63/66] fix: SliceDecode reports a payload it cannot decode

---
 go/transform/transform.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/go/transform/transform.go b/go/transform/transform.go
index a4fa130..79f6531 100644
--- a/go/transform/transform.go
+++ b/go/transform/transform.go
@@ -375,16 +375,19 @@ func StringEncode[T ~string](val T) (payload.Payload, error) {
 
 func SliceDecode[T any, P MsgPackCodecPtr[T]](raw payload.Payload) ([]T, error) {
 	decoder := msgpack.NewDecoder(raw.Data())
-	size, _ := decoder.ReadArraySize()
-	items := make([]T, size)
-	i := 0
+	size, err := decoder.ReadArraySize()
+	if err != nil {
+		return nil, err
+	}
+	items := []T{}
 	for size > 0 {
 		size--
 		var item T
 		p := (P)(&item)
-		p.Decode(&decoder)
-		items[i] = item
-		i++
+		if err := p.Decode(&decoder); err != nil {
+			return nil, err
+		}
+		items = append(items, item)
 	}
 	return items, nil
 }
-- 
2.43.0


From ccc7beb11ea7a41306b96a9dcff223d23cc5365d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:06 +0000
Subject: [PATCH 64/66] fix: FlagNext and FlagComplete are different flags

---
 go/invoke/portio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/invoke/portio.go b/go/invoke/portio.go
index 0f787ce..44e7e80 100644
--- a/go/invoke/portio.go
+++ b/go/invoke/portio.go
@@ -71,7 +71,7 @@ func (f Flags) String() string {
 
 // All frame flags
 const (
-	FlagNext Flags = 1
+	FlagNext Flags = 1 << iota
 	FlagComplete
 )
 
-- 
2.43.0


From 456355af799c49185bb98d4bebd44816d0ca0387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:09 +0000
Subject: [PATCH 65/66] fix: PortIO.Decode reports data cut short instead of
 panicking

---
 go/invoke/portio.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/go/invoke/portio.go b/go/invoke/portio.go
index 44e7e80..3fd5b42 100644
--- a/go/invoke/portio.go
+++ b/go/invoke/portio.go
@@ -2,6 +2,7 @@ package invoke
 
 import (
 	"encoding/binary"
+	"errors"
 	"strings"
 )
 
@@ -12,13 +13,21 @@ type PortIO struct {
 	Next     bool
 }
 
+var errPortIOTooShort = errors.New("port data is too short")
+
 func (f *PortIO) Decode(data []byte) error {
+	if len(data) < 3 {
+		return errPortIOTooShort
+	}
 	flags := Flags(data[0])
 	complete := flags.Check(FlagComplete)
 	next := flags.Check(FlagNext)
 	data = data[1:]
 	portLength := binary.BigEndian.Uint16(data)
 	data = data[2:]
+	if len(data) < int(portLength) {
+		return errPortIOTooShort
+	}
 	port := string(data[:portLength])
 	data = data[portLength:]
 
-- 
2.43.0


From b4c5f43726e2cd8c0aa04fb8374402d4fe1966fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:15 +0000
Subject: [PATCH 66/66] fix: an extension of one byte is skipped whole

---
 go/msgpack/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 790fcf9..ed4cf22 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -667,7 +667,7 @@ func (d *Decoder) getSize() (uint64, error) {
 		case FormatUint64, FormatInt64:
 			d.reader.Discard(8)
 		case FormatFixExt1:
-			d.reader.Discard(1)
+			d.reader.Discard(2)
 		case FormatFixExt2:
 			d.reader.Discard(3)
 		case FormatFixExt4:
-- 
2.43.0


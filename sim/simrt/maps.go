//go:build go1.22

package simrt

import (
	"reflect"
	"runtime"
)

// The Go runtime ends the process when it finds a map being written by one goroutine while another uses it. MapW
// marks the write, gives every other task a chance, and MapR/MapW of another task inside that window is that crash.
// Accesses ordered by any lock or channel never overlap the window.

func mapPtr[M ~map[K]V, K comparable, V any](m M) uintptr {
	return reflect.ValueOf(map[K]V(m)).Pointer()
}

func (s *Sim) mapClash(p uintptr, what string) {
	if len(s.mapw) == 0 {
		return
	}
	if w, ok := s.mapw[p]; ok && w != s.cur {
		s.finish(OutPanic, "fatal error: "+what, trimHere())
		s.end()
	}
}

func trimHere() string {
	var pcs [16]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	out := ""
	for {
		f, more := fr.Next()
		if f.Function != "" {
			if out != "" {
				out += " < "
			}
			out += trimFn(f.Function)
		}
		if !more {
			return out
		}
	}
}

// MapR returns m for a read of one entry.
func MapR[M ~map[K]V, K comparable, V any](m M) M {
	s := S
	if s.active && !s.aborting && len(s.mapw) > 0 && m != nil {
		s.mapClash(mapPtr(m), "concurrent map read and map write")
	}
	return m
}

// MapW returns m for a write of one entry.
func MapW[M ~map[K]V, K comparable, V any](m M) M {
	s := S
	if !s.active || m == nil {
		return m
	}
	if s.aborting {
		runtime.Goexit()
	}
	p := mapPtr(m)
	s.mapClash(p, "concurrent map writes")
	if s.mapw == nil {
		s.mapw = map[uintptr]*Task{}
	}
	s.mapw[p] = s.cur
	Y(0)
	delete(s.mapw, p)
	return m
}

// SK numbers an address-like key and returns it.
func SK[K any](k K) K { SeenKey(k); return k }

// MapZero gives zero loop variables for a range over m.
func MapZero[M ~map[K]V, K comparable, V any](m M) (k K, v V) { return }

// ChanZero gives a zero loop variable for a range over ch.
func ChanZero[T any](ch <-chan T) (v T) { return }

//go:build go1.22

package simrt

import (
	"fmt"
	"io"
	mrand "math/rand"
	"os"
	"reflect"
	"sort"
)

// MapKeys returns the keys of m in an order that does not depend on hashing or addresses, rotated by a choice.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	less := keyLess(ks[0])
	for _, k := range ks {
		if reflect.TypeOf(k) != reflect.TypeOf(ks[0]) {
			less = func(a, b any) bool { return fmt.Sprintf("%T %v", a, a) < fmt.Sprintf("%T %v", b, b) }
			break
		}
	}
	sort.SliceStable(ks, func(i, j int) bool { return less(ks[i], ks[j]) })
	if S.active && !S.aborting {
		if o := Choose(len(ks)); o > 0 {
			ks = append(append(make([]K, 0, len(ks)), ks[o:]...), ks[:o]...)
		}
	}
	return ks
}

func keyLess(k any) func(a, b any) bool {
	switch reflect.TypeOf(k).Kind() {
	case reflect.String:
		return func(a, b any) bool { return reflect.ValueOf(a).String() < reflect.ValueOf(b).String() }
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return func(a, b any) bool { return reflect.ValueOf(a).Int() < reflect.ValueOf(b).Int() }
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return func(a, b any) bool { return reflect.ValueOf(a).Uint() < reflect.ValueOf(b).Uint() }
	case reflect.Pointer, reflect.Chan, reflect.Interface, reflect.UnsafePointer:
		return func(a, b any) bool { return S.keySeq[a] < S.keySeq[b] }
	}
	return func(a, b any) bool { return fmt.Sprint(a) < fmt.Sprint(b) }
}

// SeenKey numbers address-like map keys by first use, so that their order is a function of the run.
func SeenKey(k any) {
	s := S
	if !s.active || k == nil {
		return
	}
	switch reflect.TypeOf(k).Kind() {
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
	default:
		return
	}
	if _, ok := s.keySeq[k]; !ok {
		s.keyN++
		s.keySeq[k] = s.keyN
	}
}

// RandPkg replaces the top-level functions of math/rand.
var RandPkg = mrand.New(src{})

type src struct{}

func (src) Int63() int64 {
	return int64(uint64(Choose(1<<30))<<33|uint64(Choose(1<<30))<<3) & (1<<63 - 1)
}
func (src) Seed(int64) {}

// Output of the code under test goes to the run's trace.
func Println(a ...any) (int, error)          { Logf("stdout: %s", fmt.Sprintln(a...)); return 0, nil }
func Print(a ...any) (int, error)            { Logf("stdout: %s", fmt.Sprint(a...)); return 0, nil }
func Printf(f string, a ...any) (int, error) { Logf("stdout: "+f, a...); return 0, nil }
func BPrintln(a ...any)                      { Println(a...) }
func BPrint(a ...any)                        { Print(a...) }

// SetFile puts a file into the simulated file system.
func SetFile(name string, b []byte, err error) { S.vfs[name] = b; S.vfsErr[name] = err }

// OSReadFile replaces os.ReadFile.
func OSReadFile(name string) ([]byte, error) {
	gate()
	Y(0)
	if e := S.vfsErr[name]; e != nil {
		Stat("fault_file_read_error")
		return nil, e
	}
	b, ok := S.vfs[name]
	if !ok {
		return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrNotExist}
	}
	return append([]byte(nil), b...), nil
}

// Discard is where replaced writers go.
var Discard io.Writer = io.Discard

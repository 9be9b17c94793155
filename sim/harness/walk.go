//go:build go1.22

package main

import (
	"fmt"
	"reflect"
	"strings"
	"sync/atomic"
	"unsafe"

	"github.com/nanobus/iota/go/internal/verifsim/simrt"
	"github.com/nanobus/iota/go/proxy"
)

// reachable visits everything that is reachable from root through pointers, interfaces, structs, maps, slices and
// arrays, whatever it is called. What the simulator and the standard library own is not entered.
func reachable(root any, visit func(v reflect.Value, path string) bool) {
	type key struct {
		p unsafe.Pointer
		t reflect.Type
	}
	seen := map[key]bool{}
	type item struct {
		v    reflect.Value
		path string
	}
	queue := []item{{reflect.ValueOf(root), ""}}
	simPkg := reflect.TypeOf(simrt.Conn{}).PkgPath()
	push := func(v reflect.Value, path string) { queue = append(queue, item{v, path}) }
	for len(queue) > 0 {
		it := queue[len(queue)-1]
		queue = queue[:len(queue)-1]
		v := it.v
		if !v.IsValid() {
			continue
		}
		t := v.Type()
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				continue
			}
			k := key{v.UnsafePointer(), t}
			if seen[k] {
				continue
			}
			seen[k] = true
			if !visit(v, it.path) {
				continue
			}
			if pp := t.Elem().PkgPath(); pp == simPkg && !strings.HasPrefix(t.Elem().Name(), "Map") || pp == "reflect" {
				continue
			}
			push(v.Elem(), it.path)
		case reflect.Interface:
			if !v.IsNil() {
				push(v.Elem(), it.path)
			}
		case reflect.Map:
			if v.IsNil() {
				continue
			}
			k := key{v.UnsafePointer(), t}
			if seen[k] {
				continue
			}
			seen[k] = true
			visit(v, it.path)
			for i := v.MapRange(); i.Next(); {
				push(i.Key(), it.path+"[key]")
				push(i.Value(), it.path+"[]")
			}
		case reflect.Slice:
			if v.IsNil() || v.Len() == 0 {
				continue
			}
			k := key{v.UnsafePointer(), t}
			if seen[k] {
				continue
			}
			seen[k] = true
			visit(v, it.path)
			if scalar(t.Elem()) {
				continue
			}
			for i := 0; i < v.Len(); i++ {
				push(v.Index(i), it.path+"[]")
			}
		case reflect.Array:
			if scalar(t.Elem()) {
				continue
			}
			for i := 0; i < v.Len(); i++ {
				push(v.Index(i), it.path+"[]")
			}
		case reflect.Struct:
			if !v.CanAddr() { // a copy, so that its fields can be read
				n := reflect.New(t).Elem()
				n.Set(v)
				v = n
			}
			visit(v.Addr(), it.path)
			if t.PkgPath() == "sync/atomic" && strings.HasPrefix(t.Name(), "Pointer[") {
				et := t.Field(0).Type.Elem() // [0]*T
				if p := atomic.LoadPointer((*unsafe.Pointer)(unsafe.Pointer(v.FieldByName("v").UnsafeAddr()))); p != nil {
					push(reflect.NewAt(et.Elem(), p), it.path)
				}
				continue
			}
			for i := 0; i < t.NumField(); i++ {
				f := v.Field(i)
				push(reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem(), it.path+"."+t.Field(i).Name)
			}
		}
	}
}

func scalar(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer, reflect.Interface, reflect.Map, reflect.Slice, reflect.Array, reflect.Struct:
		return false
	}
	return true
}

var streamType = reflect.TypeOf((*proxy.Stream)(nil)).Elem()

// guestStreamType is what the streams of a guest, whose packages are copies, have in common with it.
var guestStreamType = reflect.TypeOf((*interface {
	StreamID() uint32
	OnComplete()
	OnError(error)
})(nil)).Elem()

// holdings counts the streams root holds, and everything it holds by the piece.
func holdings(root any) (streams int, where string, pieces int) {
	seen := map[unsafe.Pointer]bool{}
	reachable(root, func(v reflect.Value, path string) bool {
		switch v.Kind() {
		case reflect.Map, reflect.Slice:
			pieces += v.Len()
			return true
		}
		if v.Type().Implements(streamType) || v.Type().Implements(guestStreamType) {
			if !seen[v.UnsafePointer()] {
				seen[v.UnsafePointer()] = true
				streams++
				where = fmt.Sprintf("%s at %s", v.Type(), path)
			}
			return false
		}
		return true
	})
	return
}

// holdsConn looks for a connection that root still holds although it has ended.
func holdsConn(root any, ended func(c *simrt.Conn) bool) (found *simrt.Conn, where string) {
	reachable(root, func(v reflect.Value, path string) bool {
		if c, ok := v.Interface().(*simrt.Conn); ok && c != nil {
			if ended(c) && found == nil {
				found, where = c, path
			}
			return false
		}
		return true
	})
	return
}

func nilSub(s any) bool {
	if s == nil {
		return true
	}
	v := reflect.ValueOf(s)
	return v.Kind() == reflect.Pointer && v.IsNil()
}

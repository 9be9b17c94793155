//go:build go1.22

// Package simwz stands in for the WebAssembly engine: a "module" is a copy of iota's guest code compiled into this
// binary, its linear memory maps fake 32-bit addresses to that copy's buffers, and a panic inside a call is returned
// as an error, as wazero does with traps.
package simwz

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"reflect"
	"strconv"
	"strings"
	"unsafe"

	"github.com/nanobus/iota/go/internal/verifsim/simrt"
	"github.com/tetratelabs/wazero/api"
	"github.com/tetratelabs/wazero/sys"
)

var guestExports = map[int]map[string]reflect.Value{}

// GuestExport is called by generated code.
func GuestExport(k int, name string, fn any) {
	if guestExports[k] == nil {
		guestExports[k] = map[string]reflect.Value{}
	}
	guestExports[k][name] = reflect.ValueOf(fn)
}

var guestGlobals = map[int][]any{}

// GuestGlobals is called by generated code with the addresses of a guest's package-level variables.
func GuestGlobals(k int, vars ...any) { guestGlobals[k] = append(guestGlobals[k], vars...) }

// Globals are the addresses of guest k's package-level variables.
func Globals(k int) []any { return guestGlobals[k] }

// Wild is a module written by the harness: raw linear memory, and whatever exports the plan gives it.
type Wild struct {
	Mem     []byte // nil: no memory
	Exports map[string]any
}

// WildAt and later are the wild modules of a run.
const WildAt = 100

// Wilds returns wild module k of this run; set by the harness.
var Wilds func(k int) *Wild

// StartGuest runs the start function of guest k; set by the harness.
var StartGuest func(k int)

// Trap is a panic that left a guest call.
type Trap struct {
	Guest int
	Fn    string
	Msg   string
}

type state struct {
	mods  map[int]*Module
	traps []Trap
	oob   []string
	conc  []string
}

var st *state

func init() {
	reset := func() { st = &state{mods: map[int]*Module{}} }
	reset()
	simrt.OnReset(reset)
}

// Traps of this run.
func Traps() []Trap { return st.traps }

// OutOfBounds lists host accesses outside the buffer the guest gave it.
func OutOfBounds() []string { return st.oob }

// Concurrent lists calls into a guest made while another thread was inside it.
func Concurrent() []string { return st.conc }

// Source returns the fake binary of guest k.
func Source(k int) []byte { return []byte("\x00asm guest " + strconv.Itoa(k)) }

// ---- runtime ----

type RuntimeConfig interface {
	WithCoreFeatures(api.CoreFeatures) RuntimeConfig
	WithMemoryLimitPages(uint32) RuntimeConfig
	WithMemoryCapacityFromMax(bool) RuntimeConfig
	WithDebugInfoEnabled(bool) RuntimeConfig
}
type rconf struct{}

func (c rconf) WithCoreFeatures(api.CoreFeatures) RuntimeConfig { return c }
func (c rconf) WithMemoryLimitPages(uint32) RuntimeConfig       { return c }
func (c rconf) WithMemoryCapacityFromMax(bool) RuntimeConfig    { return c }
func (c rconf) WithDebugInfoEnabled(bool) RuntimeConfig         { return c }
func NewRuntimeConfig() RuntimeConfig                           { return rconf{} }
func NewRuntimeConfigCompiler() RuntimeConfig                   { return rconf{} }
func NewRuntimeConfigInterpreter() RuntimeConfig                { return rconf{} }

type Namespace interface {
	Module(moduleName string) api.Module
	InstantiateModule(ctx context.Context, compiled CompiledModule, config ModuleConfig) (api.Module, error)
	api.Closer
}

type Runtime interface {
	NewHostModuleBuilder(moduleName string) HostModuleBuilder
	CompileModule(ctx context.Context, binary []byte) (CompiledModule, error)
	InstantiateModuleFromBinary(ctx context.Context, source []byte) (api.Module, error)
	Namespace
	NewNamespace(context.Context) Namespace
	CloseWithExitCode(ctx context.Context, exitCode uint32) error
}

type CompiledModule interface {
	Name() string
	Close(context.Context) error
}

type runtime struct {
	host  map[string]api.GoFunction // name -> function
	mod   *Module
	names map[string]bool // of the modules instantiated and not closed
}

func NewRuntime(ctx context.Context) Runtime { return NewRuntimeWithConfig(ctx, nil) }
func NewRuntimeWithConfig(ctx context.Context, c RuntimeConfig) Runtime {
	return &runtime{host: map[string]api.GoFunction{}, names: map[string]bool{}}
}

type compiled struct{ k int }

func (c *compiled) Name() string                { return "" }
func (c *compiled) Close(context.Context) error { return nil }

func (r *runtime) NewHostModuleBuilder(n string) HostModuleBuilder { return &hmb{r: r, name: n} }
func (r *runtime) CompileModule(ctx context.Context, b []byte) (CompiledModule, error) {
	s := string(b)
	if !strings.HasPrefix(s, "\x00asm guest ") {
		return nil, errors.New("invalid magic number")
	}
	k, err := strconv.Atoi(s[len("\x00asm guest "):])
	if err != nil || guestExports[k] == nil && k < WildAt {
		return nil, errors.New("invalid module")
	}
	return &compiled{k}, nil
}
func (r *runtime) InstantiateModuleFromBinary(ctx context.Context, b []byte) (api.Module, error) {
	c, err := r.CompileModule(ctx, b)
	if err != nil {
		return nil, err
	}
	return r.InstantiateModule(ctx, c, NewModuleConfig())
}
func (r *runtime) Module(string) api.Module                        { return nil }
func (r *runtime) NewNamespace(context.Context) Namespace          { return r }
func (r *runtime) Close(ctx context.Context) error                 { return nil }
func (r *runtime) CloseWithExitCode(context.Context, uint32) error { return nil }
func (r *runtime) InstantiateModule(ctx context.Context, c CompiledModule, config ModuleConfig) (api.Module, error) {
	k := c.(*compiled).k
	if st.mods[k] != nil {
		panic(simrt.HarnessError{Msg: fmt.Sprintf("guest copy %d instantiated twice", k)})
	}
	name := ""
	if c, ok := config.(mconf); ok {
		name = c.name
	}
	if r.names[name] {
		return nil, fmt.Errorf("module[%s] has already been instantiated", name)
	}
	r.names[name] = true
	m := &Module{k: k, r: r, ctx: map[int][]context.Context{}, next: 0x10000, name: name}
	if k >= WildAt {
		m.wild = Wilds(k)
	}
	st.mods[k] = m
	r.mod = m
	simrt.Stat("guest_instantiated")
	start := func() { StartGuest(k) }
	if m.wild != nil {
		start = func() {}
		if s, ok := m.wild.Exports["_start"]; ok {
			start = s.(func())
		}
	}
	f := &function{m: m, name: "_start", fn: reflect.ValueOf(start)}
	if _, err := f.Call(ctx); err != nil {
		m.release()
		return nil, err
	}
	return m, nil
}

// ---- module config: all but the name is accepted and ignored ----

type ModuleConfig interface {
	WithArgs(...string) ModuleConfig
	WithEnv(key, value string) ModuleConfig
	WithFS(fs.FS) ModuleConfig
	WithName(string) ModuleConfig
	WithStartFunctions(...string) ModuleConfig
	WithStderr(io.Writer) ModuleConfig
	WithStdin(io.Reader) ModuleConfig
	WithStdout(io.Writer) ModuleConfig
	WithWalltime(sys.Walltime, sys.ClockResolution) ModuleConfig
	WithSysWalltime() ModuleConfig
	WithNanotime(sys.Nanotime, sys.ClockResolution) ModuleConfig
	WithSysNanotime() ModuleConfig
	WithNanosleep(sys.Nanosleep) ModuleConfig
	WithSysNanosleep() ModuleConfig
	WithRandSource(io.Reader) ModuleConfig
}
type mconf struct{ name string }

func NewModuleConfig() ModuleConfig                                         { return mconf{} }
func (c mconf) WithArgs(...string) ModuleConfig                             { return c }
func (c mconf) WithEnv(key, value string) ModuleConfig                      { return c }
func (c mconf) WithFS(fs.FS) ModuleConfig                                   { return c }
func (c mconf) WithName(n string) ModuleConfig                              { c.name = n; return c }
func (c mconf) WithStartFunctions(...string) ModuleConfig                   { return c }
func (c mconf) WithStderr(io.Writer) ModuleConfig                           { return c }
func (c mconf) WithStdin(io.Reader) ModuleConfig                            { return c }
func (c mconf) WithStdout(io.Writer) ModuleConfig                           { return c }
func (c mconf) WithWalltime(sys.Walltime, sys.ClockResolution) ModuleConfig { return c }
func (c mconf) WithSysWalltime() ModuleConfig                               { return c }
func (c mconf) WithNanotime(sys.Nanotime, sys.ClockResolution) ModuleConfig { return c }
func (c mconf) WithSysNanotime() ModuleConfig                               { return c }
func (c mconf) WithNanosleep(sys.Nanosleep) ModuleConfig                    { return c }
func (c mconf) WithSysNanosleep() ModuleConfig                              { return c }
func (c mconf) WithRandSource(io.Reader) ModuleConfig                       { return c }

// ---- host modules ----

type HostFunctionBuilder interface {
	WithGoFunction(fn api.GoFunction, params, results []api.ValueType) HostFunctionBuilder
	WithGoModuleFunction(fn api.GoModuleFunction, params, results []api.ValueType) HostFunctionBuilder
	WithFunc(interface{}) HostFunctionBuilder
	WithName(name string) HostFunctionBuilder
	WithParameterNames(names ...string) HostFunctionBuilder
	WithResultNames(names ...string) HostFunctionBuilder
	Export(name string) HostModuleBuilder
}
type HostModuleBuilder interface {
	NewFunctionBuilder() HostFunctionBuilder
	Compile(context.Context) (CompiledModule, error)
	Instantiate(context.Context, Namespace) (api.Module, error)
}
type hmb struct {
	r    *runtime
	name string
}
type hfb struct {
	b  *hmb
	fn api.GoFunction
}

func (b *hmb) NewFunctionBuilder() HostFunctionBuilder                    { return &hfb{b: b} }
func (b *hmb) Compile(context.Context) (CompiledModule, error)            { return &compiled{-1}, nil }
func (b *hmb) Instantiate(context.Context, Namespace) (api.Module, error) { return &Module{k: -1}, nil }
func (f *hfb) WithGoFunction(fn api.GoFunction, p, r []api.ValueType) HostFunctionBuilder {
	f.fn = fn
	return f
}
func (f *hfb) WithGoModuleFunction(fn api.GoModuleFunction, p, r []api.ValueType) HostFunctionBuilder {
	f.fn = api.GoFunc(func(ctx context.Context, s []uint64) { fn.Call(ctx, f.b.r.mod, s) })
	return f
}
func (f *hfb) WithFunc(x interface{}) HostFunctionBuilder {
	v := reflect.ValueOf(x)
	t := v.Type()
	f.fn = api.GoFunc(func(ctx context.Context, s []uint64) {
		var in []reflect.Value
		k := 0
		for i := 0; i < t.NumIn(); i++ {
			p := t.In(i)
			switch {
			case p == reflect.TypeOf((*context.Context)(nil)).Elem():
				in = append(in, reflect.ValueOf(ctx))
			case p == reflect.TypeOf((*api.Module)(nil)).Elem():
				in = append(in, reflect.ValueOf(api.Module(f.b.r.mod)))
			default:
				in = append(in, reflect.ValueOf(s[k]).Convert(p))
				k++
			}
		}
		out := v.Call(in)
		for i, o := range out {
			s[i] = o.Convert(reflect.TypeOf(uint64(0))).Uint()
		}
	})
	return f
}
func (f *hfb) WithName(string) HostFunctionBuilder              { return f }
func (f *hfb) WithParameterNames(...string) HostFunctionBuilder { return f }
func (f *hfb) WithResultNames(...string) HostFunctionBuilder    { return f }
func (f *hfb) Export(n string) HostModuleBuilder                { f.b.r.host[n] = f.fn; return f.b }

// ---- module instances ----

type region struct {
	base uint32
	size uint32
	mem  []byte
	addr uintptr
}

// Module is an instantiated guest.
type Module struct {
	api.Module
	k            int
	name         string
	r            *runtime
	ctx          map[int][]context.Context
	regions      []region
	next         uint32
	initA        []uint64
	closed       bool
	wild         *Wild
	owner, depth int
}

func (m *Module) Name() string       { return m.name }
func (m *Module) String() string     { return m.Name() }
func (m *Module) Memory() api.Memory { return &memory{m: m} }
func (m *Module) ExportedMemory(string) api.Memory {
	if m.wild != nil && m.wild.Mem == nil {
		return nil
	}
	return &memory{m: m}
}
func (m *Module) Close(context.Context) error                     { m.release(); return nil }
func (m *Module) CloseWithExitCode(context.Context, uint32) error { m.release(); return nil }

func (m *Module) release() {
	if !m.closed {
		m.closed = true
		delete(m.r.names, m.name)
	}
}

func (m *Module) ExportedFunction(n string) api.Function {
	if m.wild != nil {
		fn, ok := m.wild.Exports[n]
		if !ok {
			return nil
		}
		return &function{m: m, name: n, fn: reflect.ValueOf(fn)}
	}
	fn, ok := guestExports[m.k][n]
	if !ok {
		return nil
	}
	return &function{m: m, name: n, fn: fn}
}

type function struct {
	m    *Module
	name string
	fn   reflect.Value
}

func (f *function) Definition() api.FunctionDefinition { return nil }

func (f *function) Call(ctx context.Context, params ...uint64) (ret []uint64, err error) {
	m := f.m
	simrt.Yield()
	if m.closed {
		return nil, sys.NewExitError(m.Name(), 1)
	}
	simrt.Stat("wasm_calls_into_guest")
	t := f.fn.Type()
	if t.NumIn() != len(params) {
		return nil, fmt.Errorf("expected %d params, but passed %d", t.NumIn(), len(params))
	}
	if f.name == "__wasmrs_init" {
		m.initA = append([]uint64(nil), params...)
	}
	id := simrt.TaskID()
	m.ctx[id] = append(m.ctx[id], ctx)
	if m.depth > 0 && m.owner != id {
		st.conc = append(st.conc, fmt.Sprintf("guest %d: %s", m.k, f.name))
	}
	m.owner = id
	m.depth++
	defer func() {
		if simrt.Aborting() {
			return
		}
		m.depth--
		m.ctx[id] = m.ctx[id][:len(m.ctx[id])-1]
		if r := recover(); r != nil {
			if h, ok := r.(simrt.HarnessError); ok {
				panic(h)
			}
			if e, ok := r.(*sys.ExitError); ok && m.wild != nil {
				m.release()
				simrt.Logf("guest %d exits", m.k)
				err = e
				return
			}
			if m.wild != nil {
				simrt.Stat("wild_traps")
				simrt.Logf("wild guest %d trapped in %s: %v", m.k, f.name, r)
				err = fmt.Errorf("wasm error: %v", r)
				return
			}
			st.traps = append(st.traps, Trap{m.k, f.name, fmt.Sprint(r)})
			simrt.Stat("guest_traps")
			simrt.Logf("guest %d trapped in %s: %v", m.k, f.name, r)
			err = fmt.Errorf("wasm error: %v", r)
		}
	}()
	var in []reflect.Value
	for i, p := range params {
		pt := t.In(i)
		switch pt.Kind() {
		case reflect.Bool:
			in = append(in, reflect.ValueOf(p != 0))
		default:
			in = append(in, reflect.ValueOf(p).Convert(pt))
		}
	}
	out := f.fn.Call(in)
	for _, o := range out {
		switch o.Kind() {
		case reflect.Bool:
			v := uint64(0)
			if o.Bool() {
				v = 1
			}
			ret = append(ret, v)
		default:
			ret = append(ret, o.Convert(reflect.TypeOf(uint64(0))).Uint())
		}
	}
	return ret, nil
}

func (m *Module) region(p uintptr, size uint32) uint32 {
	for _, r := range m.regions {
		if r.addr == p && r.size == size {
			return r.base
		}
	}
	var mem []byte
	if p != 0 && size > 0 {
		mem = unsafe.Slice((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&p))), int(size))
	}
	b := m.next
	m.regions = append(m.regions, region{b, size, mem, p})
	m.next += size + 0x1000
	return b
}

// HostCall is a guest calling an imported function.
func HostCall(k int, name string, args ...any) uint64 {
	m := st.mods[k]
	if m == nil {
		panic(simrt.HarnessError{Msg: "host call from a guest that is not instantiated"})
	}
	fn := m.r.host[name]
	if fn == nil {
		panic("module does not import " + name)
	}
	var stack []uint64
	np := 0
	for i, a := range args {
		switch v := a.(type) {
		case uintptr:
			size := uint32(0)
			switch name {
			case "__init_buffers":
				if np < len(m.initA) {
					size = uint32(m.initA[np])
				}
			default:
				if i+1 < len(args) {
					size = uint32(reflect.ValueOf(args[i+1]).Convert(reflect.TypeOf(uint64(0))).Uint())
				}
			}
			np++
			stack = append(stack, uint64(m.region(v, size)))
		default:
			stack = append(stack, reflect.ValueOf(a).Convert(reflect.TypeOf(uint64(0))).Uint())
		}
	}
	if len(stack) == 0 {
		stack = make([]uint64, 1)
	}
	simrt.Yield()
	simrt.Stat("wasm_calls_into_host")
	id := simrt.TaskID()
	if m.wild != nil {
		for i := range stack {
			stack[i] = uint64(uint32(stack[i]))
		}
	}
	cs := m.ctx[id]
	ctx := context.Background()
	if len(cs) > 0 {
		ctx = cs[len(cs)-1]
	}
	m.r.mod = m
	fn.Call(ctx, stack)
	return stack[0]
}

type memory struct {
	api.Memory
	m *Module
}

func (x *memory) Size() uint32 {
	if w := x.m.wild; w != nil {
		return uint32(len(w.Mem))
	}
	return 1 << 24
}

// span is the host's access to a wild guest's memory, which wazero bounds.
func (w *Wild) span(off uint32, n int) ([]byte, bool) {
	if w.Mem == nil {
		panic("runtime error: invalid memory address or nil pointer dereference")
	}
	if uint64(off)+uint64(n) > uint64(len(w.Mem)) {
		simrt.Stat("wild_access_refused")
		return nil, false
	}
	return w.Mem[off : int(off)+n : int(off)+n], true
}

func (x *memory) find(off, n uint32) []byte {
	for _, r := range x.m.regions {
		if off >= r.base && off < r.base+r.size+0x1000 {
			o := off - r.base
			if uint64(o)+uint64(n) <= uint64(r.size) {
				return r.mem[o : o+n : o+n]
			}
			st.oob = append(st.oob, fmt.Sprintf("guest %d: %d bytes at offset %d of a %d byte buffer", x.m.k, n, o, r.size))
			simrt.Stat("guest_memory_out_of_bounds")
			b := make([]byte, n)
			for i := range b {
				b[i] = 0xA5
			}
			if o < r.size {
				copy(b, r.mem[o:])
			}
			return b
		}
	}
	return nil
}

func (x *memory) Read(off, n uint32) ([]byte, bool) {
	simrt.Yield()
	if w := x.m.wild; w != nil {
		return w.span(off, int(n))
	}
	if n == 0 && off < 1<<24 {
		return []byte{}, true
	}
	if uint64(off)+uint64(n) > 1<<24 {
		return nil, false
	}
	b := x.find(off, n)
	if b == nil {
		return make([]byte, n), true
	}
	return b, true
}
func (x *memory) Write(off uint32, v []byte) bool {
	if w := x.m.wild; w != nil {
		b, ok := w.span(off, len(v))
		copy(b, v)
		return ok
	}
	if uint64(off)+uint64(len(v)) > 1<<24 {
		return false
	}
	copy(x.find(off, uint32(len(v))), v)
	return true
}
func (x *memory) WriteString(off uint32, v string) bool { return x.Write(off, []byte(v)) }
func (x *memory) ReadByte(off uint32) (byte, bool) {
	b, ok := x.Read(off, 1)
	if !ok {
		return 0, false
	}
	return b[0], true
}
func (x *memory) WriteByte(off uint32, v byte) bool { return x.Write(off, []byte{v}) }

package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"path/filepath"
	"strconv"
	"strings"
)

const (
	modeHost = iota
	modeGuest
)

const rt = "verif_simrt"
const wz = "verif_simwz"

type instrumenter struct {
	sites []string
}

// light packages are pure computation: scheduling points only where they touch package-level variables.
var light = map[string]bool{mod + "/msgpack": true, mod + "/msgpack/convert": true}

// goVersion is the minor language version of the module.
var goVersion = 99

type rw struct {
	ins    *instrumenter
	p      *pkg
	mode   int
	light  bool
	shared map[types.Object]bool
	used   map[string]bool // import paths (by local name) still referenced
	usesRT bool
	usesWZ bool
	tmp    int
	file   string
	inits  int
}

// selector replacements: package path -> name -> simrt name
var selTable = map[string]map[string]string{
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Pool": "Pool", "Cond": "Cond", "NewCond": "NewCond",
		"Map": "Map", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues"},
	"time": {"Now": "TimeNow", "Since": "TimeSince", "Until": "TimeUntil", "Sleep": "TimeSleep", "After": "TimeAfter", "AfterFunc": "TimeAfterFunc",
		"Tick": "TimeTick", "NewTimer": "NewTimer", "Timer": "Timer", "NewTicker": "NewTicker", "Ticker": "Ticker"},
	"context": {"WithTimeout": "CtxWithTimeout", "WithDeadline": "CtxWithDeadline", "WithTimeoutCause": "CtxWithTimeoutCause",
		"WithDeadlineCause": "CtxWithDeadlineCause", "AfterFunc": "CtxAfterFunc"},
	"runtime": {"Gosched": "Gosched"},
	"net":     {"Dialer": "NetDialer", "ListenConfig": "NetListenConfig", "Dial": "NetDial", "DialTimeout": "NetDialTimeout", "Listen": "NetListen"},
	"os":      {"ReadFile": "OSReadFile"},
	"fmt":     {"Println": "Println", "Print": "Print", "Printf": "Printf"},
}

// math/rand's top-level functions become methods of simrt.RandPkg
var randFuncs = map[string]bool{"Int": true, "Intn": true, "Int31": true, "Int31n": true, "Int63": true, "Int63n": true, "Uint32": true, "Uint64": true,
	"Float64": true, "Float32": true, "Perm": true, "Shuffle": true, "Read": true, "Seed": true, "NormFloat64": true, "ExpFloat64": true}

func id(s string) *ast.Ident { return ast.NewIdent(s) }
func sel(a, b string) ast.Expr {
	return &ast.SelectorExpr{X: id(a), Sel: id(b)}
}
func lit(n int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: f, Args: a}
}

func (r *rw) rt(name string) ast.Expr { r.usesRT = true; return sel(rt, name) }
func (r *rw) newTmp(p string) string  { r.tmp++; return fmt.Sprintf("vs%s%d", p, r.tmp) }

func (r *rw) site(pos token.Pos) ast.Expr {
	ps := r.p.fset.Position(pos)
	name := strings.TrimPrefix(strings.TrimPrefix(r.p.path, mod), "/")
	if r.mode == modeGuest && !strings.Contains(r.p.path, "verifsim") {
		name = "wasm:" + name
	}
	name = strings.TrimPrefix(name, "internal/verifsim/")
	r.ins.sites = append(r.ins.sites, fmt.Sprintf("%s/%s:%d", name, filepath.Base(ps.Filename), ps.Line))
	return lit(len(r.ins.sites)) // site 0 is reserved
}
func (r *rw) yield(pos token.Pos) ast.Stmt {
	return &ast.ExprStmt{X: call(r.rt("Y"), r.site(pos))}
}

// pkg returns one instrumented source per file, plus the reset file.
func (ins *instrumenter) pkg(p *pkg, mode int) [][]byte {
	r := &rw{ins: ins, p: p, mode: mode, light: light[p.path], shared: map[types.Object]bool{}}
	base := len(ins.sites)
	for _, f := range p.files {
		r.markShared(f)
	}
	var out [][]byte
	var calls []string // reset calls in order
	type vinit struct{ fn string }
	byRhs := map[ast.Expr]string{}
	var zero []string
	var exports [][2]string
	initNames := []string{}
	for fi, f := range p.files {
		r.used = map[string]bool{}
		r.usesRT, r.usesWZ = false, false
		r.file = p.names[fi]
		dirs := map[*ast.FuncDecl][]string{}
		var decls []ast.Decl
		var extra []string
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok == token.IMPORT {
					continue
				}
				decls = append(decls, r.genDecl(d, true))
				if d.Tok == token.VAR {
					for _, sp := range d.Specs {
						vs := sp.(*ast.ValueSpec)
						if len(vs.Values) == 0 {
							for _, n := range vs.Names {
								if n.Name != "_" {
									fn := fmt.Sprintf("simReset%d_%d", fi, len(byRhs)+len(zero))
									t := printNode(p.fset, r.expr(vs.Type))
									extra = append(extra, fmt.Sprintf("func %s() { %s = *new(%s) }\n", fn, n.Name, t))
									zero = append(zero, fn)
								}
							}
						} else {
							for _, v := range vs.Values {
								byRhs[v] = ""
							}
						}
					}
				}
			case *ast.FuncDecl:
				nd := r.funcDecl(d, &initNames, &exports)
				if d.Doc != nil {
					for _, c := range d.Doc.List {
						if strings.HasPrefix(c.Text, "//go:") && mode == modeHost && d.Body != nil {
							dirs[nd] = append(dirs[nd], c.Text)
						}
					}
				}
				decls = append(decls, nd)
			}
		}
		// initialisers whose right-hand side is in this file
		for _, in := range p.info.InitOrder {
			if in.Rhs.Pos() < f.Pos() || in.Rhs.Pos() > f.End() {
				continue
			}
			var lhs []string
			keep := false
			for _, v := range in.Lhs {
				lhs = append(lhs, v.Name())
				if v.Name() != "_" {
					keep = true
				}
			}
			if !keep {
				byRhs[in.Rhs] = "-"
				continue
			}
			fn := fmt.Sprintf("simReset%d_%d", fi, len(extra)+1000)
			byRhs[in.Rhs] = fn
			rhs := printNode(p.fset, r.rhs2(in.Rhs, len(in.Lhs) == 2))
			extra = append(extra, fmt.Sprintf("func %s() { %s = %s }\n", fn, strings.Join(lhs, ", "), rhs))
		}
		var bb bytes.Buffer
		if goVersion < 20 { // maps with interface keys pass through generic helpers
			fmt.Fprintf(&bb, "//go:build go1.20\n\n")
		}
		fmt.Fprintf(&bb, "// Code generated by simgen from %s; DO NOT EDIT.\n\npackage %s\n\n", filepath.Join(p.dir, p.names[fi]), f.Name.Name)
		var body bytes.Buffer
		for _, d := range decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				for _, l := range dirs[fd] {
					fmt.Fprintln(&body, l)
				}
			}
			body.WriteString(printNode(p.fset, d))
			body.WriteString("\n\n")
		}
		for _, e := range extra {
			body.WriteString(e)
		}
		for _, im := range f.Imports {
			path := strings.Trim(im.Path.Value, "\"")
			name := ""
			if im.Name != nil {
				name = im.Name.Name
			}
			local := name
			if local == "" {
				if o, ok := p.info.Implicits[im].(*types.PkgName); ok {
					local = o.Name()
				}
			}
			if name != "_" && name != "." && !r.used[local] {
				continue
			}
			if path == "github.com/tetratelabs/wazero" {
				path = wzPath
				if name == "" {
					name = "wazero"
				}
			} else if strings.HasPrefix(path, "github.com/tetratelabs/wazero/imports/") {
				path = wzPath + strings.TrimPrefix(path, "github.com/tetratelabs/wazero/imports")
			}
			fmt.Fprintf(&bb, "import %s %q\n", name, path)
		}
		if r.usesRT {
			fmt.Fprintf(&bb, "import %s %q\n", rt, simPath)
		}
		if r.usesWZ {
			fmt.Fprintf(&bb, "import %s %q\n", wz, wzPath)
		}
		bb.WriteString("\n")
		bb.Write(body.Bytes())
		src, err := format.Source(bb.Bytes())
		if err != nil {
			die("generated %s/%s does not parse: %v\n%s", p.path, p.names[fi], err, bb.String())
		}
		out = append(out, src)
	}
	calls = append(calls, zero...)
	for _, in := range p.info.InitOrder {
		if fn := byRhs[in.Rhs]; fn != "" && fn != "-" {
			calls = append(calls, fn)
		}
	}
	calls = append(calls, initNames...)
	var zb bytes.Buffer
	fmt.Fprintf(&zb, "package %s\n\nimport %s %q\n", p.files[0].Name.Name, rt, simPath)
	var globals []string // what a guest holds
	if mode == modeGuest && !strings.HasPrefix(p.path, vmod) {
		scope := p.types.Scope()
		for _, n := range scope.Names() {
			if _, ok := scope.Lookup(n).(*types.Var); ok && n != "_" {
				globals = append(globals, "&"+n)
			}
		}
	}
	if len(exports) > 0 || len(globals) > 0 {
		fmt.Fprintf(&zb, "import %s %q\n", wz, wzPath)
	}
	fmt.Fprintf(&zb, "\nfunc init() {\n")
	fmt.Fprintf(&zb, "\t%s.RegisterSites(%d, []string{\n", rt, base+1)
	for _, s := range ins.sites[base:] {
		fmt.Fprintf(&zb, "\t\t%q,\n", s)
	}
	fmt.Fprintf(&zb, "\t})\n")
	for _, e := range exports {
		fmt.Fprintf(&zb, "\t%s.GuestExport(VERIFGUESTK, %q, %s)\n", wz, e[0], e[1])
	}
	if len(globals) > 0 {
		fmt.Fprintf(&zb, "\t%s.GuestGlobals(VERIFGUESTK, %s)\n", wz, strings.Join(globals, ", "))
	}
	for _, n := range initNames {
		fmt.Fprintf(&zb, "\t%s()\n", n)
	}
	if len(calls) > 0 {
		fmt.Fprintf(&zb, "\t%s.OnReset(func() {\n", rt)
		for _, c := range calls {
			fmt.Fprintf(&zb, "\t\t%s()\n", c)
		}
		fmt.Fprintf(&zb, "\t})\n")
	}
	fmt.Fprintf(&zb, "}\n")
	out = append(out, zb.Bytes())
	return out
}

// markShared finds local variables that several goroutines may see: captured by a closure or address taken.
func (r *rw) markShared(f *ast.File) {
	var lits []*ast.FuncLit
	var walk func(n ast.Node) bool
	mark := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				e = x.X
				continue
			case *ast.IndexExpr:
				e = x.X
				continue
			case *ast.Ident:
				if v, ok := r.p.info.Uses[x].(*types.Var); ok {
					r.shared[v] = true
				}
			}
			return
		}
	}
	walk = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			lits = append(lits, x)
			ast.Inspect(x.Body, walk)
			lits = lits[:len(lits)-1]
			return false
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				mark(x.X)
			}
		case *ast.Ident:
			if v, ok := r.p.info.Uses[x].(*types.Var); ok && !v.IsField() {
				for _, l := range lits {
					if v.Pos() < l.Pos() || v.Pos() >= l.End() {
						r.shared[v] = true
					}
				}
			}
		}
		return true
	}
	ast.Inspect(f, walk)
}

func (r *rw) isGlobal(o types.Object) bool {
	return o != nil && o.Parent() != nil && o.Pkg() != nil && o.Parent() == o.Pkg().Scope()
}

func (r *rw) isType(e ast.Expr) bool {
	tv, ok := r.p.info.Types[e]
	return ok && tv.IsType()
}

func (r *rw) builtin(e ast.Expr) string {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	if i, ok := e.(*ast.Ident); ok {
		if b, ok := r.p.info.Uses[i].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

// touchy tells whether evaluating n (nested blocks and function literals aside) can see or change shared state.
func (r *rw) touchy(ns ...ast.Node) bool {
	found := false
	for _, n := range ns {
		if n == nil {
			continue
		}
		ast.Inspect(n, func(n ast.Node) bool {
			if found || n == nil {
				return false
			}
			if r.light {
				switch x := n.(type) {
				case *ast.FuncLit, *ast.BlockStmt:
					return false
				case *ast.Ident:
					v, ok := r.p.info.Uses[x].(*types.Var)
					found = ok && !v.IsField() && r.isGlobal(v)
				}
				return !found
			}
			switch x := n.(type) {
			case *ast.FuncLit, *ast.BlockStmt:
				return false
			case *ast.SelectorExpr:
				if s, ok := r.p.info.Selections[x]; ok && s.Kind() == types.FieldVal {
					found = true
				}
			case *ast.CallExpr:
				if r.isType(x.Fun) {
					return true
				}
				if b := r.builtin(x.Fun); b != "" {
					switch b {
					case "close", "delete", "copy", "clear", "panic", "print", "println":
						found = true
					}
					return true
				}
				found = true
			case *ast.IndexExpr:
				if tv, ok := r.p.info.Types[x.X]; ok && tv.IsValue() {
					if _, sig := tv.Type.Underlying().(*types.Signature); !sig {
						found = true
					}
				}
			case *ast.StarExpr:
				if !r.isType(x) {
					found = true
				}
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					found = true
				}
			case *ast.SendStmt, *ast.GoStmt, *ast.SelectStmt:
				found = true
			case *ast.Ident:
				if v, ok := r.p.info.Uses[x].(*types.Var); ok && (r.shared[v] || (!v.IsField() && r.isGlobal(v))) {
					found = true
				}
			}
			return !found
		})
	}
	return found
}

func node(s ast.Stmt) ast.Node {
	if s == nil {
		return nil
	}
	return s
}
func enode(e ast.Expr) ast.Node {
	if e == nil {
		return nil
	}
	return e
}

// ---- expressions (functional: never mutates the original tree) ----

func (r *rw) typ(e ast.Expr) types.Type {
	if tv, ok := r.p.info.Types[e]; ok {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := r.p.info.ObjectOf(i); o != nil {
			return o.Type()
		}
	}
	return nil
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}
func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rw) exprs(l []ast.Expr) []ast.Expr {
	if l == nil {
		return nil
	}
	o := make([]ast.Expr, len(l))
	for i, e := range l {
		o[i] = r.expr(e)
	}
	return o
}

// calls tells whether evaluating e calls anything or receives.
func (r *rw) calls(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if b := r.builtin(x.Fun); !r.isType(x.Fun) && b != "len" && b != "cap" {
				found = true
			}
		case *ast.UnaryExpr:
			found = found || x.Op == token.ARROW
		}
		return !found
	})
	return found
}

// seq rewrites expressions that are evaluated one after the other, with scheduling points between those that look at
// shared state. Where one of them calls something the order of the others is the compiler's, and there are none.
func (r *rw) seq(l []ast.Expr) []ast.Expr {
	o := r.exprs(l)
	if r.light || len(l) < 2 {
		return o
	}
	val := func(e ast.Expr) (ast.Expr, *ast.KeyValueExpr) {
		if kv, ok := e.(*ast.KeyValueExpr); ok {
			return kv.Value, kv
		}
		return e, nil
	}
	for _, e := range l {
		if v, _ := val(e); r.calls(v) {
			return o
		}
	}
	later := false
	for i := len(l) - 1; i >= 0; i-- {
		v, kv := val(l[i])
		if !r.touchy(v) {
			continue
		}
		if !later {
			later = true
			continue
		}
		tv, ok := r.p.info.Types[v]
		if !ok || !tv.IsValue() || tv.Value != nil || tv.IsNil() || tv.Type == nil || isTuple(tv.Type) {
			continue
		}
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			continue
		}
		if c, ok := v.(*ast.CompositeLit); ok && c.Type == nil {
			continue
		}
		if kv != nil {
			o[i] = &ast.KeyValueExpr{Key: o[i].(*ast.KeyValueExpr).Key, Value: call(r.rt("YV"), r.site(v.Pos()), o[i].(*ast.KeyValueExpr).Value)}
		} else {
			o[i] = call(r.rt("YV"), r.site(v.Pos()), o[i])
		}
	}
	return o
}

func (r *rw) fields(f *ast.FieldList) *ast.FieldList {
	if f == nil {
		return nil
	}
	o := &ast.FieldList{Opening: f.Opening, Closing: f.Closing}
	for _, x := range f.List {
		o.List = append(o.List, &ast.Field{Names: x.Names, Type: r.expr(x.Type), Tag: x.Tag})
	}
	return o
}

// rhs2 rewrites the right-hand side of a possibly two-valued assignment.
func (r *rw) rhs2(e ast.Expr, two bool) ast.Expr {
	if two {
		x := e
		for {
			if p, ok := x.(*ast.ParenExpr); ok {
				x = p.X
				continue
			}
			break
		}
		if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return call(r.rt("Recv2"), r.expr(u.X))
		}
	}
	return r.expr(e)
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.Ident:
		return &ast.Ident{NamePos: x.NamePos, Name: x.Name}
	case *ast.BasicLit:
		return x
	case *ast.Ellipsis:
		return &ast.Ellipsis{Ellipsis: x.Ellipsis, Elt: r.expr(x.Elt)}
	case *ast.FuncLit:
		return &ast.FuncLit{Type: r.expr(x.Type).(*ast.FuncType), Body: r.block(x.Body, false)}
	case *ast.CompositeLit:
		return &ast.CompositeLit{Type: r.expr(x.Type), Lbrace: x.Lbrace, Elts: r.seq(x.Elts), Rbrace: x.Rbrace}
	case *ast.ParenExpr:
		return &ast.ParenExpr{Lparen: x.Lparen, X: r.expr(x.X), Rparen: x.Rparen}
	case *ast.SelectorExpr:
		if i, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.p.info.Uses[i].(*types.PkgName); ok {
				path := pn.Imported().Path()
				if n, ok := selTable[path][x.Sel.Name]; ok {
					return r.rt(n)
				}
				if (path == "math/rand" || path == "math/rand/v2") && randFuncs[x.Sel.Name] {
					r.usesRT = true
					return &ast.SelectorExpr{X: sel(rt, "RandPkg"), Sel: id(x.Sel.Name)}
				}
				r.used[i.Name] = true
				return &ast.SelectorExpr{X: &ast.Ident{NamePos: i.NamePos, Name: i.Name}, Sel: &ast.Ident{NamePos: x.Sel.NamePos, Name: x.Sel.Name}}
			}
		}
		return &ast.SelectorExpr{X: r.expr(x.X), Sel: &ast.Ident{NamePos: x.Sel.NamePos, Name: x.Sel.Name}}
	case *ast.IndexExpr:
		if isMap(r.typ(x.X)) {
			return &ast.IndexExpr{X: call(r.rt("MapR"), r.expr(x.X)), Index: r.expr(x.Index)}
		}
		return &ast.IndexExpr{X: r.expr(x.X), Lbrack: x.Lbrack, Index: r.expr(x.Index), Rbrack: x.Rbrack}
	case *ast.IndexListExpr:
		return &ast.IndexListExpr{X: r.expr(x.X), Lbrack: x.Lbrack, Indices: r.exprs(x.Indices), Rbrack: x.Rbrack}
	case *ast.SliceExpr:
		return &ast.SliceExpr{X: r.expr(x.X), Lbrack: x.Lbrack, Low: r.expr(x.Low), High: r.expr(x.High), Max: r.expr(x.Max), Slice3: x.Slice3, Rbrack: x.Rbrack}
	case *ast.TypeAssertExpr:
		return &ast.TypeAssertExpr{X: r.expr(x.X), Lparen: x.Lparen, Type: r.expr(x.Type), Rparen: x.Rparen}
	case *ast.CallExpr:
		switch r.builtin(x.Fun) {
		case "close":
			return call(r.rt("Close"), r.expr(x.Args[0]))
		case "delete":
			return call(id("delete"), call(r.rt("MapW"), r.expr(x.Args[0])), r.expr(x.Args[1]))
		case "print":
			return call(r.rt("BPrint"), r.exprs(x.Args)...)
		case "println":
			return call(r.rt("BPrintln"), r.exprs(x.Args)...)
		}
		return &ast.CallExpr{Fun: r.expr(x.Fun), Lparen: x.Lparen, Args: r.seq(x.Args), Ellipsis: x.Ellipsis, Rparen: x.Rparen}
	case *ast.StarExpr:
		return &ast.StarExpr{Star: x.Star, X: r.expr(x.X)}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return call(r.rt("Recv"), r.expr(x.X))
		}
		return &ast.UnaryExpr{OpPos: x.OpPos, Op: x.Op, X: r.expr(x.X)}
	case *ast.BinaryExpr:
		if x.Op == token.LAND || x.Op == token.LOR {
			y := r.expr(x.Y)
			if !r.light && r.touchy(x.X) && r.touchy(x.Y) {
				y = &ast.ParenExpr{X: &ast.BinaryExpr{X: &ast.BinaryExpr{X: call(r.rt("YI"), r.site(x.Y.Pos())), Op: token.EQL, Y: lit(0)}, Op: token.LAND, Y: &ast.ParenExpr{X: y}}}
			}
			return &ast.BinaryExpr{X: r.expr(x.X), Op: x.Op, Y: y}
		}
		if xy := r.seq([]ast.Expr{x.X, x.Y}); x.Op != token.SHL && x.Op != token.SHR {
			return &ast.BinaryExpr{X: xy[0], OpPos: x.OpPos, Op: x.Op, Y: xy[1]}
		}
		return &ast.BinaryExpr{X: r.expr(x.X), OpPos: x.OpPos, Op: x.Op, Y: r.expr(x.Y)}
	case *ast.KeyValueExpr:
		return &ast.KeyValueExpr{Key: r.expr(x.Key), Colon: x.Colon, Value: r.expr(x.Value)}
	case *ast.ArrayType:
		return &ast.ArrayType{Lbrack: x.Lbrack, Len: r.expr(x.Len), Elt: r.expr(x.Elt)}
	case *ast.StructType:
		return &ast.StructType{Struct: x.Struct, Fields: r.fields(x.Fields)}
	case *ast.FuncType:
		return &ast.FuncType{Func: x.Func, TypeParams: r.fields(x.TypeParams), Params: r.fields(x.Params), Results: r.fields(x.Results)}
	case *ast.InterfaceType:
		return &ast.InterfaceType{Interface: x.Interface, Methods: r.fields(x.Methods)}
	case *ast.MapType:
		return &ast.MapType{Map: x.Map, Key: r.expr(x.Key), Value: r.expr(x.Value)}
	case *ast.ChanType:
		return &ast.ChanType{Begin: x.Begin, Arrow: x.Arrow, Dir: x.Dir, Value: r.expr(x.Value)}
	}
	die("%s: unsupported expression %T", r.p.fset.Position(e.Pos()), e)
	return nil
}

// lexpr rewrites an assignment target.
func (r *rw) lexpr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.lexpr(x.X)}
	case *ast.IndexExpr:
		if t := r.typ(x.X); isMap(t) {
			k := r.expr(x.Index)
			switch t.Underlying().(*types.Map).Key().Underlying().(type) {
			case *types.Pointer, *types.Chan, *types.Interface:
				k = call(r.rt("SK"), k)
			}
			return &ast.IndexExpr{X: call(r.rt("MapW"), r.expr(x.X)), Index: k}
		}
	}
	return r.expr(e)
}

// pure tells whether e can be evaluated twice.
func (r *rw) pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.ParenExpr:
		return r.pure(x.X)
	case *ast.SelectorExpr:
		return r.pure(x.X)
	case *ast.StarExpr:
		return r.pure(x.X)
	case *ast.IndexExpr:
		return r.pure(x.X) && r.pure(x.Index)
	case *ast.BinaryExpr:
		return r.pure(x.X) && r.pure(x.Y)
	}
	return false
}

// sharedL tells whether assignment target e may be visible to another goroutine.
func (r *rw) sharedL(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.sharedL(x.X)
	case *ast.Ident:
		if x.Name == "_" {
			return false
		}
		v, ok := r.p.info.Uses[x].(*types.Var)
		return ok && (r.shared[v] || r.isGlobal(v))
	case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
		return true
	}
	return false
}

// ---- statements ----

func (r *rw) block(b *ast.BlockStmt, loop bool) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	o := &ast.BlockStmt{Lbrace: b.Lbrace, Rbrace: b.Rbrace}
	l := r.stmts(b.List)
	if loop && !r.light && !(len(b.List) > 0 && r.stmtTouchy(b.List[0])) {
		o.List = append(o.List, r.yield(b.Lbrace))
	}
	o.List = append(o.List, l...)
	return o
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	var o []ast.Stmt
	for _, s := range l {
		o = append(o, r.stmt(s, nil)...)
	}
	return o
}

// stmtTouchy looks at the part of s that is evaluated before any nested block.
func (r *rw) stmtTouchy(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.IfStmt:
		return r.touchy(node(x.Init), x.Cond)
	case *ast.ForStmt:
		return r.touchy(node(x.Init), enode(x.Cond))
	case *ast.RangeStmt:
		return r.touchy(x.X)
	case *ast.SwitchStmt:
		if r.touchy(node(x.Init), enode(x.Tag)) {
			return true
		}
		for _, c := range x.Body.List {
			for _, e := range c.(*ast.CaseClause).List {
				if r.touchy(e) {
					return true
				}
			}
		}
		return false
	case *ast.TypeSwitchStmt:
		return r.touchy(node(x.Init), x.Assign)
	case *ast.SelectStmt:
		return true
	case *ast.BlockStmt:
		return false
	case *ast.LabeledStmt:
		return r.stmtTouchy(x.Stmt)
	case *ast.DeclStmt:
		return r.touchy(x)
	}
	return r.touchy(s)
}

func (r *rw) stmt(s ast.Stmt, label *ast.Ident) []ast.Stmt {
	if x, ok := s.(*ast.LabeledStmt); ok {
		return r.stmt(x.Stmt, x.Label)
	}
	var pre []ast.Stmt
	if r.stmtTouchy(s) {
		pre = append(pre, r.yield(s.Pos()))
	}
	lab := func(m ast.Stmt) ast.Stmt {
		if label != nil {
			return &ast.LabeledStmt{Label: id(label.Name), Stmt: m}
		}
		return m
	}
	one := func(m ast.Stmt) []ast.Stmt { return append(pre, lab(m)) }
	switch x := s.(type) {
	case *ast.BlockStmt:
		return one(r.block(x, false))
	case *ast.IfStmt:
		return one(r.ifStmt(x))
	case *ast.ForStmt:
		return one(&ast.ForStmt{For: x.For, Init: r.simple(x.Init), Cond: r.expr(x.Cond), Post: r.simple(x.Post), Body: r.block(x.Body, true)})
	case *ast.RangeStmt:
		return append(pre, r.rangeStmt(x, label)...)
	case *ast.SwitchStmt:
		return one(&ast.SwitchStmt{Switch: x.Switch, Init: r.simple(x.Init), Tag: r.expr(x.Tag), Body: r.cases(x.Body)})
	case *ast.TypeSwitchStmt:
		return one(&ast.TypeSwitchStmt{Switch: x.Switch, Init: r.simple(x.Init), Assign: r.typeGuard(x.Assign), Body: r.cases(x.Body)})
	case *ast.SelectStmt:
		return append(pre, r.selectStmt(x, label)...)
	case *ast.GoStmt:
		return one(r.goStmt(x))
	case *ast.DeferStmt:
		return one(&ast.DeferStmt{Defer: x.Defer, Call: r.expr(x.Call).(*ast.CallExpr)})
	case *ast.ReturnStmt:
		return one(&ast.ReturnStmt{Return: x.Return, Results: r.seq(x.Results)})
	case *ast.BranchStmt:
		var l *ast.Ident
		if x.Label != nil {
			l = id(x.Label.Name)
		}
		return one(&ast.BranchStmt{TokPos: x.TokPos, Tok: x.Tok, Label: l})
	case *ast.DeclStmt:
		return one(&ast.DeclStmt{Decl: r.genDecl(x.Decl.(*ast.GenDecl), false)})
	case *ast.AssignStmt:
		if b := r.split(x); b != nil {
			return one(b)
		}
		return one(r.simple(x))
	case *ast.IncDecStmt:
		if !r.light && r.sharedL(x.X) && r.pure(x.X) {
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			return one(r.splitRMW(x.X, &ast.BinaryExpr{X: r.expr(x.X), Op: op, Y: lit(1)}, x.Pos()))
		}
		return one(r.simple(x))
	case *ast.ExprStmt, *ast.SendStmt, *ast.EmptyStmt:
		return one(r.simple(s))
	}
	die("%s: unsupported statement %T", r.p.fset.Position(s.Pos()), s)
	return nil
}

// splitRMW gives { t := v; Y; target = t }.
func (r *rw) splitRMW(target, v ast.Expr, pos token.Pos) ast.Stmt {
	t := r.newTmp("T")
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{v}},
		r.yield(pos),
		&ast.AssignStmt{Lhs: []ast.Expr{r.lexpr(target)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}},
	}}
}

var assignOps = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL,
	token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}

// split separates the load from the store of a shared location.
func (r *rw) split(x *ast.AssignStmt) ast.Stmt {
	if r.light || x.Tok == token.DEFINE || len(x.Lhs) != 1 || len(x.Rhs) != 1 || !r.sharedL(x.Lhs[0]) || !r.pure(x.Lhs[0]) {
		return nil
	}
	if op, ok := assignOps[x.Tok]; ok {
		return r.splitRMW(x.Lhs[0], &ast.BinaryExpr{X: r.expr(x.Lhs[0]), Op: op, Y: &ast.ParenExpr{X: r.expr(x.Rhs[0])}}, x.Pos())
	}
	if x.Tok != token.ASSIGN || !r.touchy(x.Rhs[0]) {
		return nil
	}
	tv := r.p.info.Types[x.Rhs[0]]
	lt := r.typ(x.Lhs[0])
	if tv.Value != nil || tv.IsNil() || lt == nil || tv.Type == nil {
		return nil
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return nil
	}
	e := x.Rhs[0]
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	switch e.(type) {
	case *ast.BinaryExpr, *ast.UnaryExpr:
		if _, ok := lt.(*types.Basic); !ok {
			return nil
		}
	}
	return r.splitRMW(x.Lhs[0], r.expr(x.Rhs[0]), x.Pos())
}

func (r *rw) simple(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.EmptyStmt:
		return x
	case *ast.ExprStmt:
		return &ast.ExprStmt{X: r.expr(x.X)}
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(r.rt("SendTo"), r.expr(x.Chan)), r.expr(x.Value))}
	case *ast.IncDecStmt:
		return &ast.IncDecStmt{X: r.lexpr(x.X), TokPos: x.TokPos, Tok: x.Tok}
	case *ast.AssignStmt:
		o := &ast.AssignStmt{Tok: x.Tok, TokPos: x.TokPos}
		for _, l := range x.Lhs {
			if x.Tok == token.DEFINE {
				o.Lhs = append(o.Lhs, r.expr(l))
			} else {
				o.Lhs = append(o.Lhs, r.lexpr(l))
			}
		}
		if len(x.Rhs) > 1 {
			o.Rhs = r.seq(x.Rhs)
			return o
		}
		for _, e := range x.Rhs {
			o.Rhs = append(o.Rhs, r.rhs2(e, len(x.Lhs) == 2 && len(x.Rhs) == 1))
		}
		return o
	}
	die("%s: unsupported simple statement %T", r.p.fset.Position(s.Pos()), s)
	return nil
}

func (r *rw) ifStmt(x *ast.IfStmt) *ast.IfStmt {
	o := &ast.IfStmt{If: x.If, Init: r.simple(x.Init), Cond: r.expr(x.Cond), Body: r.block(x.Body, false)}
	switch e := x.Else.(type) {
	case *ast.BlockStmt:
		o.Else = r.block(e, false)
	case *ast.IfStmt:
		if !r.light && r.stmtTouchy(e) {
			o.Else = &ast.BlockStmt{List: []ast.Stmt{r.yield(e.Pos()), r.ifStmt(e)}}
		} else {
			o.Else = r.ifStmt(e)
		}
	}
	return o
}

func (r *rw) cases(b *ast.BlockStmt) *ast.BlockStmt {
	o := &ast.BlockStmt{Lbrace: b.Lbrace, Rbrace: b.Rbrace}
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		o.List = append(o.List, &ast.CaseClause{Case: cc.Case, List: r.exprs(cc.List), Colon: cc.Colon, Body: r.stmts(cc.Body)})
	}
	return o
}

func (r *rw) typeGuard(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.ExprStmt:
		return &ast.ExprStmt{X: r.expr(x.X)}
	case *ast.AssignStmt:
		return &ast.AssignStmt{Lhs: r.exprs(x.Lhs), Tok: x.Tok, Rhs: r.exprs(x.Rhs)}
	}
	die("type switch guard %T", s)
	return nil
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (r *rw) rangeStmt(x *ast.RangeStmt, label *ast.Ident) []ast.Stmt {
	lab := func(m ast.Stmt) ast.Stmt {
		if label != nil {
			return &ast.LabeledStmt{Label: id(label.Name), Stmt: m}
		}
		return m
	}
	t := r.typ(x.X)
	body := r.block(x.Body, true)
	switch {
	case isMap(t):
		m, k, v, ok := r.newTmp("M"), r.newTmp("K"), r.newTmp("V"), r.newTmp("B")
		out := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(m)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(x.X)}}}
		var head []ast.Stmt
		vv := v
		if blank(x.Value) {
			vv = "_"
		}
		head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{id(vv), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: call(r.rt("MapR"), id(m)), Index: id(k)}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		if x.Tok == token.DEFINE && !(blank(x.Key) && blank(x.Value)) {
			kn, vn := ast.Expr(id("_")), ast.Expr(id("_"))
			if !blank(x.Key) {
				kn = r.expr(x.Key)
			}
			if !blank(x.Value) {
				vn = r.expr(x.Value)
			}
			out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{kn, vn}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.rt("MapZero"), id(m))}})
		}
		if !blank(x.Key) {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{r.lexpr(x.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(k)}})
		}
		if !blank(x.Value) {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{r.lexpr(x.Value)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}})
		}
		body.List = append(head, body.List...)
		out = append(out, lab(&ast.RangeStmt{Key: id("_"), Value: id(k), Tok: token.DEFINE, X: call(r.rt("MapKeys"), id(m)), Body: body}))
		return []ast.Stmt{&ast.BlockStmt{List: out}}
	case isChan(t):
		c, v, ok := r.newTmp("C"), r.newTmp("V"), r.newTmp("B")
		out := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(c)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(x.X)}}}
		vv := v
		if blank(x.Key) {
			vv = "_"
		}
		head := []ast.Stmt{r.yield(x.Pos()), &ast.AssignStmt{Lhs: []ast.Expr{id(vv), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.rt("Recv2"), id(c))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}
		if !blank(x.Key) {
			if x.Tok == token.DEFINE {
				out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(x.Key)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.rt("ChanZero"), id(c))}})
			}
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{r.lexpr(x.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}})
		}
		body.List = append(head, body.List...)
		out = append(out, lab(&ast.ForStmt{Body: body}))
		return []ast.Stmt{&ast.BlockStmt{List: out}}
	}
	n := &ast.RangeStmt{For: x.For, Tok: x.Tok, TokPos: x.TokPos, X: r.expr(x.X), Body: body}
	if x.Key != nil {
		n.Key = r.lexpr(x.Key)
	}
	if x.Value != nil {
		n.Value = r.lexpr(x.Value)
	}
	return []ast.Stmt{lab(n)}
}

func (r *rw) selectStmt(x *ast.SelectStmt, label *ast.Ident) []ast.Stmt {
	if len(x.Body.List) == 0 {
		return []ast.Stmt{&ast.ExprStmt{X: call(r.rt("BlockForever"))}}
	}
	var lhs, rhs, args []ast.Expr
	body := &ast.BlockStmt{}
	hasDef := false
	var def []ast.Stmt
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			def = r.stmts(cc.Body)
			continue
		}
		n := r.newTmp("S")
		lhs = append(lhs, id(n))
		args = append(args, id(n))
		var head []ast.Stmt
		recv := func(e ast.Expr) ast.Expr {
			for {
				if p, ok := e.(*ast.ParenExpr); ok {
					e = p.X
					continue
				}
				break
			}
			return e.(*ast.UnaryExpr).X
		}
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, call(call(r.rt("SendCase"), r.expr(s.Chan)), r.expr(s.Value)))
		case *ast.ExprStmt:
			rhs = append(rhs, call(r.rt("RecvCase"), r.expr(recv(s.X))))
		case *ast.AssignStmt:
			rhs = append(rhs, call(r.rt("RecvCase"), r.expr(recv(s.Rhs[0]))))
			var l []ast.Expr
			for _, e := range s.Lhs {
				if s.Tok == token.DEFINE {
					l = append(l, r.expr(e))
				} else {
					l = append(l, r.lexpr(e))
				}
			}
			v := []ast.Expr{sel(n, "V")}
			if len(l) == 2 {
				v = append(v, sel(n, "OK"))
			}
			tok := s.Tok
			if tok == token.DEFINE {
				all := true
				for _, e := range s.Lhs {
					all = all && blank(e)
				}
				if all {
					tok = token.ASSIGN
				}
			}
			head = append(head, &ast.AssignStmt{Lhs: l, Tok: tok, Rhs: v})
		}
		body.List = append(body.List, &ast.CaseClause{List: []ast.Expr{lit(len(lhs) - 1)}, Body: append(head, r.stmts(cc.Body)...)})
	}
	if !hasDef {
		def = []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"simgen: no select case"`})}}
	}
	body.List = append(body.List, &ast.CaseClause{Body: def})
	sw := &ast.SwitchStmt{Body: body, Tag: call(r.rt("Select"), append([]ast.Expr{id(fmt.Sprint(hasDef))}, args...)...)}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	if label != nil {
		return []ast.Stmt{&ast.LabeledStmt{Label: id(label.Name), Stmt: sw}}
	}
	return []ast.Stmt{sw}
}

func (r *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	var lhs, rhs []ast.Expr
	bind := func(e ast.Expr) ast.Expr {
		n := r.newTmp("G")
		lhs = append(lhs, id(n))
		rhs = append(rhs, r.expr(e))
		return id(n)
	}
	c := &ast.CallExpr{}
	fun := x.Call.Fun
	for {
		if p, ok := fun.(*ast.ParenExpr); ok {
			fun = p.X
			continue
		}
		break
	}
	if b := r.builtin(fun); b != "" {
		c = r.expr(x.Call).(*ast.CallExpr)
	} else {
		static := false
		switch f := fun.(type) {
		case *ast.FuncLit:
			static = true
		case *ast.Ident:
			_, static = r.p.info.Uses[f].(*types.Func)
		case *ast.SelectorExpr:
			if i, ok := f.X.(*ast.Ident); ok {
				if _, pk := r.p.info.Uses[i].(*types.PkgName); pk {
					_, static = r.p.info.Uses[f.Sel].(*types.Func)
				}
			}
		case *ast.IndexExpr, *ast.IndexListExpr:
			static = !r.touchy(f)
		}
		if static {
			c.Fun = r.expr(fun)
		} else {
			c.Fun = bind(fun)
		}
		if x.Call.Ellipsis.IsValid() {
			c.Ellipsis = 1
		}
		sig, _ := r.typ(fun).Underlying().(*types.Signature)
		for i, a := range x.Call.Args {
			tv := r.p.info.Types[a]
			inline := tv.Value != nil || tv.IsNil()
			if _, ok := a.(*ast.FuncLit); ok {
				inline = true
			}
			if inline || len(x.Call.Args) == 1 && isTuple(tv.Type) {
				c.Args = append(c.Args, r.expr(a))
				continue
			}
			_ = sig
			_ = i
			c.Args = append(c.Args, bind(a))
		}
	}
	var inner ast.Stmt = &ast.ExprStmt{X: c}
	var body []ast.Stmt
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && len(fl.Type.Params.List) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		g := call(r.rt("Go"), r.site(x.Pos()), fl)
		return &ast.ExprStmt{X: g}
	}
	g := &ast.ExprStmt{X: call(r.rt("Go"), r.site(x.Pos()), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{inner}}})}
	if len(lhs) == 0 {
		return g
	}
	body = append(body, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}, g)
	return &ast.BlockStmt{List: body}
}

func isTuple(t types.Type) bool { _, ok := t.(*types.Tuple); return ok }

// ---- declarations ----

func (r *rw) genDecl(d *ast.GenDecl, top bool) *ast.GenDecl {
	o := &ast.GenDecl{Tok: d.Tok, TokPos: d.TokPos, Lparen: d.Lparen, Rparen: d.Rparen}
	for _, sp := range d.Specs {
		switch x := sp.(type) {
		case *ast.ValueSpec:
			n := &ast.ValueSpec{Type: r.expr(x.Type)}
			for _, i := range x.Names {
				n.Names = append(n.Names, &ast.Ident{NamePos: i.NamePos, Name: i.Name})
			}
			for _, v := range x.Values {
				n.Values = append(n.Values, r.rhs2(v, len(x.Names) == 2 && len(x.Values) == 1))
			}
			o.Specs = append(o.Specs, n)
		case *ast.TypeSpec:
			o.Specs = append(o.Specs, &ast.TypeSpec{Name: id(x.Name.Name), TypeParams: r.fields(x.TypeParams), Assign: x.Assign, Type: r.expr(x.Type)})
		}
	}
	return o
}

func exportName(d *ast.FuncDecl) (string, bool) {
	if d.Doc == nil {
		return "", false
	}
	for _, c := range d.Doc.List {
		for _, p := range []string{"//go:export ", "//export ", "//go:wasmexport "} {
			if strings.HasPrefix(c.Text, p) {
				return strings.TrimSpace(strings.TrimPrefix(c.Text, p)), true
			}
		}
		if strings.HasPrefix(c.Text, "//go:wasmimport ") {
			f := strings.Fields(c.Text)
			return f[len(f)-1], true
		}
	}
	return "", false
}

func (r *rw) funcDecl(d *ast.FuncDecl, initNames *[]string, exports *[][2]string) *ast.FuncDecl {
	o := &ast.FuncDecl{Recv: r.fields(d.Recv), Name: id(d.Name.Name), Type: r.expr(d.Type).(*ast.FuncType), Body: r.block(d.Body, false)}
	if d.Name.Name == "init" && d.Recv == nil {
		n := fmt.Sprintf("simInit%d", r.inits)
		r.inits++
		o.Name = id(n)
		*initNames = append(*initNames, n)
	}
	name, exp := exportName(d)
	if r.mode == modeGuest && d.Body != nil && exp && d.Recv == nil {
		*exports = append(*exports, [2]string{name, d.Name.Name})
	}
	if d.Body == nil {
		if r.mode != modeGuest || !exp {
			die("%s: function %s has no body", r.p.path, d.Name.Name)
		}
		r.usesWZ = true
		args := []ast.Expr{id("VERIFGUESTK"), &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(name)}}
		nf := &ast.FieldList{}
		k := 0
		for _, f := range d.Type.Params.List {
			c := len(f.Names)
			if c == 0 {
				c = 1
			}
			for i := 0; i < c; i++ {
				n := fmt.Sprintf("a%d", k)
				k++
				nf.List = append(nf.List, &ast.Field{Names: []*ast.Ident{id(n)}, Type: r.expr(f.Type)})
				args = append(args, id(n))
			}
		}
		o.Type.Params = nf
		c := call(sel(wz, "HostCall"), args...)
		if d.Type.Results == nil || len(d.Type.Results.List) == 0 {
			o.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}
		} else {
			o.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call(r.expr(d.Type.Results.List[0].Type), c)}}}}
		}
	}
	return o
}

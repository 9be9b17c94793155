// simgen instruments the packages of nanobus/iota for deterministic simulation and writes a Go build overlay.
// It reads /repo's working tree, changes nothing in it, and judges nothing: it only replaces goroutines, channels,
// locks, clocks, network and map iteration by the simulated runtime and adds scheduling points.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const mod = "github.com/nanobus/iota/go"
const vmod = mod + "/internal/verifsim"
const simPath = vmod + "/simrt"
const wzPath = vmod + "/simwz"

type listPkg struct {
	Dir, ImportPath, Export string
	Standard                bool
	GoFiles                 []string
	Imports                 []string
	Error                   *struct{ Err string }
}

type pkg struct {
	path, dir string
	fset      *token.FileSet
	files     []*ast.File
	names     []string
	types     *types.Package
	info      *types.Info
	instr     bool
	imports   []string
}

type universe struct {
	root   string
	simDir string
	tags   string
	exp    map[string]string
	pkgs   map[string]*pkg
	order  []*pkg
	gc     types.Importer
	fset   *token.FileSet
}

func (u *universe) Import(p string) (*types.Package, error) {
	if x, ok := u.pkgs[p]; ok {
		if x.types == nil {
			return nil, fmt.Errorf("package %s not ready", p)
		}
		return x.types, nil
	}
	if p == "unsafe" {
		return types.Unsafe, nil
	}
	return u.gc.Import(p)
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simgen: "+f+"\n", a...)
	os.Exit(3)
}

func goList(dir, tags string, export bool, roots ...string) []listPkg {
	args := []string{"list", "-deps", "-json=Dir,ImportPath,Export,Standard,GoFiles,Imports,Error"}
	if export {
		args = append(args, "-export")
	}
	if tags != "" {
		args = append(args, "-tags", tags)
	}
	cmd := exec.Command("go", append(args, roots...)...)
	cmd.Dir = dir
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, eb.String())
	}
	var out []listPkg
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		var p listPkg
		if err := d.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		out = append(out, p)
	}
	return out
}

func newUniverse(root, simDir, tags string, roots []string) *universe {
	u := &universe{root: root, simDir: simDir, tags: tags, exp: map[string]string{}, pkgs: map[string]*pkg{}, fset: token.NewFileSet()}
	// the union of what the tree needs and what the simulated packages need
	std := []string{"net", "context", "sync", "time", "math/rand", "os", "io", "reflect", "container/heap", "runtime/debug", "math", "sort", "errors", "bytes", "encoding/json", "encoding/binary", "hash/fnv", "strings", "fmt", "unsafe", "sync/atomic"}
	l := goList(root, tags, false, roots...)
	// export data of everything outside the module; the tagged build itself need not compile for this host
	for _, p := range l {
		if p.Standard || !(p.ImportPath == mod || strings.HasPrefix(p.ImportPath, mod+"/")) {
			if p.ImportPath != "unsafe" && !strings.Contains(p.ImportPath, "internal/") && !strings.HasPrefix(p.ImportPath, "vendor/") {
				std = append(std, p.ImportPath)
			}
		}
	}
	for _, p := range goList(root, "", true, std...) {
		if p.Export != "" {
			u.exp[p.ImportPath] = p.Export
		}
	}
	u.gc = importer.ForCompiler(u.fset, "gc", func(p string) (io.ReadCloser, error) {
		f, ok := u.exp[p]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", p)
		}
		return os.Open(f)
	})
	u.addSrc(simPath, filepath.Join(simDir, "simrt"), false, nil)
	u.addSrc(vmod+"/gspec", filepath.Join(simDir, "gspec"), false, nil)
	for _, p := range l {
		if p.Standard || !(p.ImportPath == mod || strings.HasPrefix(p.ImportPath, mod+"/")) {
			continue
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		u.addSrc(p.ImportPath, p.Dir, true, p.GoFiles)
	}
	return u
}

// addSrc parses and type-checks one package from source. files nil: every non-test file of dir.
func (u *universe) addSrc(path, dir string, instr bool, files []string) *pkg {
	if files == nil {
		m, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, f := range m {
			if !strings.HasSuffix(f, "_test.go") {
				files = append(files, filepath.Base(f))
			}
		}
	}
	p := &pkg{path: path, dir: dir, fset: u.fset, names: files, instr: instr}
	for _, f := range files {
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			die("%v", err)
		}
		af, err := parser.ParseFile(u.fset, filepath.Join(dir, f), b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		p.files = append(p.files, af)
	}
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}}
	conf := types.Config{Importer: u, FakeImportC: true, GoVersion: "go1.22"}
	var errs []string
	conf.Error = func(e error) { errs = append(errs, e.Error()) }
	tp, _ := conf.Check(path, u.fset, p.files, p.info)
	if len(errs) > 0 {
		die("type-checking %s:\n%s", path, strings.Join(errs, "\n"))
	}
	p.types = tp
	u.pkgs[path] = p
	u.order = append(u.order, p)
	return p
}

type overlay struct {
	Replace map[string]string
}

func main() {
	repo := flag.String("repo", "/repo/go", "module root")
	sim := flag.String("sim", "/verif/sim", "simulation sources")
	out := flag.String("out", "", "output directory")
	nguest := flag.Int("guests", 4, "guest copies")
	flag.Parse()
	if *out == "" {
		die("-out is required")
	}
	os.MkdirAll(*out, 0o755)
	ov := overlay{map[string]string{}}
	n := 0
	vroot := filepath.Join(*repo, "internal", "verifsim")
	put := func(virtual string, b []byte) {
		n++
		f := filepath.Join(*out, fmt.Sprintf("f%04d_%s", n, filepath.Base(virtual)))
		if err := os.WriteFile(f, b, 0o644); err != nil {
			die("%v", err)
		}
		ov.Replace[virtual] = f
	}
	copyDir := func(name string) {
		m, _ := filepath.Glob(filepath.Join(*sim, name, "*.go"))
		if len(m) == 0 {
			die("no files in %s", name)
		}
		for _, f := range m {
			ov.Replace[filepath.Join(vroot, name, filepath.Base(f))] = f
		}
	}
	ins := &instrumenter{}
	if b, err := os.ReadFile(filepath.Join(*repo, "go.mod")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			fmt.Sscanf(l, "go 1.%d", &goVersion)
		}
	}

	// host side
	roots := []string{"./handler", "./transport/rsocket", "./transport/wasmrs/host", "./transport/wasmrs/mesh", "./rx/flow", "./invoke",
		"./internal/buffer", "./internal/socket", "./internal/frames", "./operations", "./payload", "./proxy", "./internal/u24", "./transform", "./msgpack/convert"}
	hu := newUniverse(*repo, *sim, "", roots)
	var hostPaths []string
	for _, p := range hu.order {
		if !p.instr {
			continue
		}
		hostPaths = append(hostPaths, p.path)
		for i, b := range ins.pkg(p, modeHost) {
			if i < len(p.names) {
				put(filepath.Join(p.dir, p.names[i]), b)
			} else if b != nil {
				put(filepath.Join(p.dir, "zz_sim_reset.go"), b)
			}
		}
	}
	// the uuid module, which stands beside the main one in the workspace: under a name inside it
	uuidDir := filepath.Join(*repo, "types", "uuid")
	ul := goList(uuidDir, "", false, ".")
	var ustd []string
	for _, p := range ul {
		if p.Standard && p.ImportPath != "unsafe" && !strings.Contains(p.ImportPath, "internal/") && !strings.HasPrefix(p.ImportPath, "vendor/") {
			ustd = append(ustd, p.ImportPath)
		}
	}
	for _, p := range goList(*repo, "", true, ustd...) {
		if p.Export != "" && hu.exp[p.ImportPath] == "" {
			hu.exp[p.ImportPath] = p.Export
		}
	}
	for _, p := range ul {
		if p.Standard {
			continue
		}
		if p.Dir != uuidDir {
			die("types/uuid now needs %s", p.ImportPath)
		}
		up := hu.addSrc(vmod+"/uuid", p.Dir, true, p.GoFiles)
		hostPaths = append(hostPaths, p.ImportPath)
		for i, b := range ins.pkg(up, modeHost) {
			if i < len(up.names) {
				put(filepath.Join(vroot, "uuid", up.names[i]), b)
			} else if b != nil {
				put(filepath.Join(vroot, "uuid", "zz_sim_reset.go"), b)
			}
		}
	}
	// guest side: the same sources as they are selected for a WebAssembly target
	gu := newUniverse(*repo, *sim, "wasi", []string{"./transport/wasmrs/guest", "./rx/flow"})
	ga := gu.addSrc(vmod+"/guestapp", filepath.Join(*sim, "guestapp"), true, nil)
	_ = ga
	type gf struct {
		rel, name string
		b         []byte
	}
	var gfs []gf
	for _, p := range gu.order {
		if !p.instr {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.path, mod), "/")
		if p.path == vmod+"/guestapp" {
			rel = "guestapp"
		}
		for i, b := range ins.pkg(p, modeGuest) {
			if i < len(p.names) {
				gfs = append(gfs, gf{rel, p.names[i], b})
			} else if b != nil {
				gfs = append(gfs, gf{rel, "zz_sim_reset.go", b})
			}
		}
	}
	for k := 0; k < *nguest; k++ {
		for _, f := range gfs {
			b := bytes.ReplaceAll(f.b, []byte("VERIFGUESTK"), []byte(fmt.Sprintf("%d", k)))
			b = rewriteImports(b, func(p string) string {
				if p == vmod+"/guestapp" {
					return fmt.Sprintf("%s/g%d/guestapp", vmod, k)
				}
				if p == simPath || p == wzPath || strings.HasPrefix(p, vmod) {
					return p
				}
				if _, ok := gu.pkgs[p]; ok {
					return fmt.Sprintf("%s/g%d/%s", vmod, k, strings.TrimPrefix(p, mod+"/"))
				}
				return p
			})
			name := f.name
			// a virtual name without a GOOS/GOARCH-like suffix
			name = "g_" + strings.TrimSuffix(name, ".go") + "_x.go"
			put(filepath.Join(vroot, fmt.Sprintf("g%d", k), f.rel, name), b)
		}
	}
	copyDir("simrt")
	copyDir("simwz")
	copyDir("gspec")
	for _, d := range []string{"assemblyscript", "wasi_snapshot_preview1"} {
		m, _ := filepath.Glob(filepath.Join(*sim, "simwz", d, "*.go"))
		for _, f := range m {
			ov.Replace[filepath.Join(vroot, "simwz", d, filepath.Base(f))] = f
		}
	}
	copyDir("harness")
	// copies of the rx rigs over the guest build of rx
	for _, name := range []string{"fluxrig.go", "monorig.go", "flowrig.go"} {
		b, err := os.ReadFile(filepath.Join(*sim, "harness", name))
		if err != nil {
			continue
		}
		b = prefixDecls(b, "g_")
		b = rewriteImports(b, func(p string) string {
			if _, ok := gu.pkgs[p]; ok && strings.HasPrefix(p, mod+"/rx") {
				return fmt.Sprintf("%s/g0/%s", vmod, strings.TrimPrefix(p, mod+"/"))
			}
			return p
		})
		put(filepath.Join(vroot, "harness", "zz_g_"+name), b)
	}
	// the guests' link-in
	var gb bytes.Buffer
	fmt.Fprintf(&gb, "//go:build go1.22\n\npackage main\n\nimport (\n")
	for k := 0; k < *nguest; k++ {
		fmt.Fprintf(&gb, "\tg%d %q\n", k, fmt.Sprintf("%s/g%d/guestapp", vmod, k))
	}
	fmt.Fprintf(&gb, ")\n\nconst numGuests = %d\n\nvar guestMains = []func(any){", *nguest)
	for k := 0; k < *nguest; k++ {
		fmt.Fprintf(&gb, "g%d.Setup, ", k)
	}
	fmt.Fprintf(&gb, "}\n")
	put(filepath.Join(vroot, "harness", "zz_guests.go"), gb.Bytes())
	sort.Strings(hostPaths)
	fmt.Printf("instrumented %d host packages, %d files; %d scheduling points\n", len(hostPaths), n, len(ins.sites))
	b, _ := json.MarshalIndent(ov, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		die("%v", err)
	}
}

// prefixDecls renames everything a file declares at package level.
func prefixDecls(b []byte, prefix string) []byte {
	fs := token.NewFileSet()
	af, err := parser.ParseFile(fs, "", b, 0)
	if err != nil {
		die("%v", err)
	}
	names := map[string]bool{}
	for _, d := range af.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name != "init" {
				names[d.Name.Name] = true
			}
		case *ast.GenDecl:
			for _, sp := range d.Specs {
				switch sp := sp.(type) {
				case *ast.TypeSpec:
					names[sp.Name.Name] = true
				case *ast.ValueSpec:
					for _, n := range sp.Names {
						names[n.Name] = true
					}
				}
			}
		}
	}
	skip := map[int]bool{}
	ast.Inspect(af, func(n ast.Node) bool {
		if x, ok := n.(*ast.SelectorExpr); ok {
			skip[fs.Position(x.Sel.Pos()).Offset] = true
		}
		return true
	})
	var at []int
	ast.Inspect(af, func(n ast.Node) bool {
		if x, ok := n.(*ast.Ident); ok && names[x.Name] && x.Name != "_" && !skip[fs.Position(x.Pos()).Offset] {
			at = append(at, fs.Position(x.Pos()).Offset)
		}
		return true
	})
	sort.Ints(at)
	var out []byte
	last := 0
	for i, o := range at {
		if i > 0 && at[i-1] == o {
			continue
		}
		out = append(append(out, b[last:o]...), prefix...)
		last = o
	}
	return append(out, b[last:]...)
}

// rewriteImports maps import paths in source text.
func rewriteImports(b []byte, f func(string) string) []byte {
	fs := token.NewFileSet()
	af, err := parser.ParseFile(fs, "", b, parser.ImportsOnly)
	if err != nil {
		die("generated code: %v\n%s", err, b)
	}
	type ed struct {
		s, e int
		t    string
	}
	var eds []ed
	for _, im := range af.Imports {
		p := strings.Trim(im.Path.Value, "\"")
		if q := f(p); q != p {
			eds = append(eds, ed{fs.Position(im.Path.Pos()).Offset, fs.Position(im.Path.End()).Offset, "\"" + q + "\""})
		}
	}
	for i := len(eds) - 1; i >= 0; i-- {
		b = append(append(append([]byte{}, b[:eds[i].s]...), eds[i].t...), b[eds[i].e:]...)
	}
	return b
}

func printNode(fset *token.FileSet, n any) string {
	var bb bytes.Buffer
	c := printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}
	if err := c.Fprint(&bb, fset, n); err != nil {
		die("print: %v", err)
	}
	return bb.String()
}

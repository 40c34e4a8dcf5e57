// Command rewrite copies every non-test package under a source tree into a GOPATH, replacing the operations
// the simulator must control (goroutines, channels, locks, clocks, randomness, files, process exit, output, map
// order) by calls to package cfsim/sim and adding preemption points. It judges nothing about the code.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

const root = "github.com/ryanbressler/CloudForest"

// repl maps "path.Name" to the simulator's name.
var repl = map[string]string{}

func init() {
	add := func(path, prefix string, names ...string) {
		for _, n := range names {
			repl[path+"."+n] = prefix + n
		}
	}
	add("sync", "", "Mutex", "RWMutex", "WaitGroup", "Once", "Cond", "NewCond", "Locker", "OnceFunc", "OnceValue", "OnceValues")
	add("time", "Time", "Now", "Since", "Until", "Sleep", "After", "AfterFunc", "Tick", "NewTimer", "NewTicker")
	add("time", "", "Timer", "Ticker")
	add("math/rand", "Rand", "Seed", "NewSource", "Intn", "Int31n", "Int63n", "Float64", "Float32", "Int", "Int31", "Int63", "Uint32", "Uint64", "Perm", "NormFloat64", "ExpFloat64", "Shuffle", "Read")
	add("math/rand/v2", "Rand2", "IntN", "Int64N", "UintN", "Int32N", "Shuffle")
	for a, b := range map[string]string{"Float64": "RandFloat64", "Float32": "RandFloat32", "Int": "RandInt", "Perm": "RandPerm", "Uint64": "RandUint64", "Uint32": "RandUint32", "NormFloat64": "RandNormFloat64", "ExpFloat64": "RandExpFloat64", "Int64": "RandInt63", "Int32": "RandInt31"} {
		repl["math/rand/v2."+a] = b
	}
	add("os", "Os", "Open", "Create", "OpenFile", "ReadFile", "WriteFile", "Remove", "Rename", "Stat", "Mkdir", "MkdirAll", "CreateTemp", "ReadDir", "Args", "Getenv", "Getpid", "Hostname")
	add("os", "", "File", "Stdin", "Stdout", "Stderr", "Exit")
	repl["os.Lstat"] = "OsStat"
	repl["os.RemoveAll"] = "OsRemove"
	add("io/ioutil", "Os", "ReadFile", "WriteFile")
	repl["io/ioutil.TempFile"] = "OsCreateTemp"
	repl["archive/zip.OpenReader"] = "ZipOpenReader"
	repl["archive/zip.ReadCloser"] = "ReadCloser"
	add("log", "Log", "Print", "Println", "Printf", "Fatal", "Fatalln", "Fatalf", "Panic", "Panicln", "Panicf", "SetFlags", "SetPrefix", "SetOutput")
	add("fmt", "Fmt", "Print", "Println", "Printf")
	add("flag", "Flag", "Parse", "Var", "Func", "Bool", "BoolVar", "Int", "IntVar", "Int64", "Int64Var", "Uint", "UintVar", "Uint64", "Uint64Var", "String", "StringVar", "Float64", "Float64Var", "Duration", "DurationVar")
	add("runtime", "", "GOMAXPROCS", "NumCPU", "NumGoroutine", "Gosched")
	repl["runtime/pprof.StartCPUProfile"] = "PprofStart"
	repl["runtime/pprof.StopCPUProfile"] = "PprofStop"
	add("maps", "Maps", "Keys", "Values")
	repl["maps.All"] = "MapSeq"
}

// probes are the methods the harness observes.
var probes = map[string]bool{
	"Tree.Grow": true, "Tree.GrowJungle": true, "GradBoostTarget.Boost": true, "GradBoostClassTarget.Boost": true,
	"Tree.Vote": true, "Tree.VoteCases": true, "ForestWriter.WriteTree": true,
}

type pkg struct {
	path, dir string
	files     []*ast.File
	names     []string
	types     *types.Package
	info      *types.Info
	imports   []string
	main      bool
}

var (
	fset  = token.NewFileSet()
	pkgs  = map[string]*pkg{}
	order []*pkg
	std   types.Importer
)

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(1)
}

// pool writes a copy of sync.Pool's source that never reuses anything: with reuse, the race detector would see
// memory move between goroutines through the pools of the standard library as the real scheduler happens to.
func pool(src, dst string) {
	b, err := os.ReadFile(src)
	if err != nil {
		fatal(err)
	}
	a, err := parser.ParseFile(fset, src, b, parser.ParseComments)
	if err != nil {
		fatal(err)
	}
	type edit struct {
		at   int
		text string
	}
	var eds []edit
	for _, d := range a.Decls {
		f, ok := d.(*ast.FuncDecl)
		if !ok || f.Recv == nil || f.Name.Name != "Put" && f.Name.Name != "Get" {
			continue
		}
		if st, ok := f.Recv.List[0].Type.(*ast.StarExpr); !ok || st.X.(*ast.Ident).Name != "Pool" {
			continue
		}
		r := f.Recv.List[0].Names[0].Name
		at := fset.Position(f.Body.Lbrace).Offset + 1
		if f.Name.Name == "Put" {
			eds = append(eds, edit{at, "\n\tif true {\n\t\treturn\n\t}\n"})
		} else {
			eds = append(eds, edit{at, "\n\tif true {\n\t\tif " + r + ".New != nil {\n\t\t\treturn " + r + ".New()\n\t\t}\n\t\treturn nil\n\t}\n"})
		}
	}
	if len(eds) != 2 {
		fatal("sync.Pool not recognised")
	}
	sort.Slice(eds, func(i, j int) bool { return eds[i].at > eds[j].at })
	t := string(b)
	for _, e := range eds {
		t = t[:e.at] + e.text + t[e.at:]
	}
	if err := os.WriteFile(dst, []byte(t), 0644); err != nil {
		fatal(err)
	}
}

func main() {
	if len(os.Args) == 4 && os.Args[1] == "pool" {
		pool(os.Args[2], os.Args[3])
		return
	}
	src, dst := os.Args[1], os.Args[2]
	build.Default.CgoEnabled = false
	std = importer.ForCompiler(fset, "source", nil)
	ctx := build.Default
	err := filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() {
			return nil
		}
		b := fi.Name()
		if p != src && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
			return filepath.SkipDir
		}
		bp, err := ctx.ImportDir(p, 0)
		if err != nil || len(bp.GoFiles) == 0 {
			return nil
		}
		rel, _ := filepath.Rel(src, p)
		ip := root
		if rel != "." {
			ip = root + "/" + filepath.ToSlash(rel)
		}
		k := &pkg{path: ip, dir: p, main: bp.Name == "main", imports: bp.Imports}
		for _, f := range bp.GoFiles {
			a, err := parser.ParseFile(fset, filepath.Join(p, f), nil, parser.SkipObjectResolution)
			if err != nil {
				fatal("parse:", err)
			}
			k.files = append(k.files, a)
			k.names = append(k.names, f)
		}
		pkgs[ip] = k
		return nil
	})
	if err != nil {
		fatal(err)
	}
	var paths []string
	for p := range pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		if _, err := check(p); err != nil {
			if pkgs[p].main && p != root {
				// a broken tool must not hide the others; whoever needs it will notice
				fmt.Fprintln(os.Stderr, "skip", p, err)
				delete(pkgs, p)
				continue
			}
			fatal("typecheck:", err)
		}
	}
	var reg bytes.Buffer
	fmt.Fprintf(&reg, "package progs\n\nimport (\n")
	for i, k := range order {
		fmt.Fprintf(&reg, "\tp%d %q\n", i, k.path)
	}
	fmt.Fprintf(&reg, ")\n\nfunc init() {\n")
	for i, k := range order {
		write(k, dst)
		rel := strings.TrimPrefix(strings.TrimPrefix(k.path, root), "/")
		m := "nil"
		if k.main {
			m = fmt.Sprintf("p%d.CfsimMain", i)
		}
		deps := map[string]bool{}
		closure(k, deps)
		var ds []string
		for _, o := range order {
			if deps[o.path] {
				ds = append(ds, fmt.Sprintf("p%d.CfsimReset", index(o)))
			}
		}
		fmt.Fprintf(&reg, "\tadd(%q, %s, []func(){%s})\n", rel, m, strings.Join(ds, ", "))
	}
	fmt.Fprintf(&reg, "}\n")
	rd := filepath.Join(dst, "src/cfsim/progs")
	os.MkdirAll(rd, 0755)
	if err := os.WriteFile(filepath.Join(rd, "reg.go"), reg.Bytes(), 0644); err != nil {
		fatal(err)
	}
	os.WriteFile(filepath.Join(rd, "progs.go"), []byte(`// Package progs lists the instrumented programs.
package progs

type Prog struct {
	Main  func()
	Reset []func()
}

var Progs = map[string]*Prog{}

func add(name string, main func(), reset []func()) { Progs[name] = &Prog{main, reset} }
`), 0644)
}

func index(k *pkg) int {
	for i, o := range order {
		if o == k {
			return i
		}
	}
	return -1
}

func closure(k *pkg, seen map[string]bool) {
	if seen[k.path] {
		return
	}
	seen[k.path] = true
	for _, i := range k.imports {
		if o := pkgs[i]; o != nil {
			closure(o, seen)
		}
	}
}

type imp struct{}

func (imp) Import(p string) (*types.Package, error) {
	if pkgs[p] != nil {
		return check(p)
	}
	return std.Import(p)
}

func check(p string) (*types.Package, error) {
	k := pkgs[p]
	if k.types != nil {
		return k.types, nil
	}
	k.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances: map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: imp{}}
	t, err := conf.Check(p, fset, k.files, k.info)
	if err != nil {
		return nil, err
	}
	k.types = t
	order = append(order, k)
	return t, nil
}

// rw is the state of rewriting one package.
type rw struct {
	k        *pkg
	info     *types.Info
	captured map[types.Object]bool
	funcs    []ast.Node
	recv2    map[ast.Node]bool
	vwrap    map[ast.Node]bool
	chans    map[ast.Node]bool
	maps     map[ast.Node]bool
	consts   map[ast.Node]bool
	skipY    map[ast.Node]bool
	postStmt map[ast.Node]bool
	generic  map[ast.Node]bool
	multi    map[ast.Node]bool
	builtin  map[ast.Node]string
	used     map[*types.PkgName]int
	nsel     int
}

func id(s string) *ast.Ident                       { return &ast.Ident{Name: s} }
func sim(s string) ast.Expr                        { return &ast.SelectorExpr{X: id("cfsim"), Sel: id(s)} }
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }
func yield() ast.Stmt                              { return &ast.ExprStmt{X: call(sim("Y"))} }

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func write(k *pkg, dst string) {
	r := &rw{k: k, info: k.info, captured: map[types.Object]bool{}, recv2: map[ast.Node]bool{}, vwrap: map[ast.Node]bool{},
		chans: map[ast.Node]bool{}, maps: map[ast.Node]bool{}, consts: map[ast.Node]bool{}, skipY: map[ast.Node]bool{},
		postStmt: map[ast.Node]bool{}, generic: map[ast.Node]bool{}, multi: map[ast.Node]bool{}, builtin: map[ast.Node]string{}}
	// which variables are captured by function literals
	for _, f := range k.files {
		var lits []*ast.FuncLit
		ast.Inspect(f, func(n ast.Node) bool {
			if l, ok := n.(*ast.FuncLit); ok {
				lits = append(lits, l)
			}
			return true
		})
		for _, l := range lits {
			ast.Inspect(l, func(n ast.Node) bool {
				if i, ok := n.(*ast.Ident); ok {
					if v, ok := r.info.Uses[i].(*types.Var); ok && !v.IsField() && (v.Pos() < l.Pos() || v.Pos() > l.End()) {
						r.captured[v] = true
					}
				}
				return true
			})
		}
	}
	// package variables: initialisation order
	owner := map[types.Object]int{}
	for fi, f := range k.files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						if o := r.info.Defs[n]; o != nil {
							owner[o] = fi
						}
					}
				}
			}
		}
	}
	type initf struct {
		file int
		body []ast.Stmt
		name string
	}
	var inits []*initf
	hasInit := map[types.Object]bool{}
	ninit := 0
	addInit := func(fi int, body ...ast.Stmt) {
		ninit++
		inits = append(inits, &initf{fi, body, "cfsimInit" + strconv.Itoa(ninit)})
	}
	// zero the variables without initialiser first
	for fi, f := range k.files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					vs := s.(*ast.ValueSpec)
					if len(vs.Values) == 0 {
						for _, n := range vs.Names {
							if n.Name != "_" {
								addInit(fi, &ast.AssignStmt{Lhs: []ast.Expr{id(n.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.StarExpr{X: call(id("new"), vs.Type)}}})
							}
						}
					}
				}
			}
		}
	}
	for _, in := range r.info.InitOrder {
		var lhs []ast.Expr
		fi := -1
		for _, v := range in.Lhs {
			hasInit[v] = true
			lhs = append(lhs, id(v.Name()))
			if f, ok := owner[v]; ok {
				fi = f
			}
		}
		if fi < 0 { // blank variables
			for i, f := range k.files {
				if in.Rhs.Pos() >= f.Pos() && in.Rhs.Pos() <= f.End() {
					fi = i
				}
			}
		}
		addInit(fi, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{in.Rhs}})
	}
	nreal := 0
	var realInits []string
	out := filepath.Join(dst, "src", filepath.FromSlash(k.path))
	os.MkdirAll(out, 0755)
	for fi, f := range k.files {
		r.used = map[*types.PkgName]int{}
		f.Comments = nil
		f.Doc = nil
		r.walk(reflect.ValueOf(f))
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			if fd.Name.Name == "init" {
				nreal++
				fd.Name = id("cfsimRealInit" + strconv.Itoa(nreal))
				realInits = append(realInits, fd.Name.Name)
			}
			if k.main && fd.Name.Name == "main" {
				fd.Name = id("CfsimMain")
			}
		}
		for _, in := range inits {
			if in.file == fi {
				f.Decls = append(f.Decls, &ast.FuncDecl{Name: id(in.name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: in.body}})
			}
		}
		if fi == len(k.files)-1 {
			var body []ast.Stmt
			for _, in := range inits {
				body = append(body, &ast.ExprStmt{X: call(id(in.name))})
			}
			for _, n := range realInits {
				body = append(body, &ast.ExprStmt{X: call(id(n))})
			}
			f.Decls = append(f.Decls, &ast.FuncDecl{Name: id("CfsimReset"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
		}
		// imports
		for _, is := range f.Imports {
			var pn *types.PkgName
			if is.Name != nil {
				if is.Name.Name == "_" || is.Name.Name == "." {
					continue
				}
				pn, _ = r.info.Defs[is.Name].(*types.PkgName)
			} else {
				pn, _ = r.info.Implicits[is].(*types.PkgName)
			}
			if pn != nil && r.used[pn] == 0 {
				is.Name = id("_")
			}
		}
		if k.main {
			f.Name = id("tool_" + strings.Map(func(c rune) rune {
				if c >= 'a' && c <= 'z' || c >= '0' && c <= '9' {
					return c
				}
				return '_'
			}, strings.ToLower(filepath.Base(k.dir))))
		}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id("cfsim"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"cfsim/sim"`}}}}}, f.Decls...)
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{sim("Y")}}}})
		clearPos(reflect.ValueOf(f), map[uintptr]bool{})
		var b bytes.Buffer
		if err := (&printer.Config{Mode: printer.TabIndent, Tabwidth: 8}).Fprint(&b, token.NewFileSet(), f); err != nil {
			fatal("print", k.names[fi], err)
		}
		if err := os.WriteFile(filepath.Join(out, k.names[fi]), b.Bytes(), 0644); err != nil {
			fatal(err)
		}
	}
}

var posType = reflect.TypeOf(token.NoPos)

// clearPos drops positions, which would only confuse the printer, except where their presence has a meaning.
func clearPos(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			clearPos(v.Elem(), seen)
		}
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		switch v.Interface().(type) {
		case *ast.Object, *ast.Scope:
			return
		case *ast.CommentGroup:
			return
		}
		clearPos(v.Elem(), seen)
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			clearPos(v.Index(i), seen)
		}
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			n := t.Field(i).Name
			if t.Field(i).Type == posType {
				keep := n == "Ellipsis" || n == "Assign" || (t.Name() == "GenDecl" && (n == "Lparen" || n == "Rparen"))
				if v.Field(i).CanSet() {
					if keep && v.Field(i).Int() != 0 {
						v.Field(i).SetInt(1)
					} else {
						v.Field(i).SetInt(0)
					}
				}
				continue
			}
			if t.Name() == "File" && (n == "Scope" || n == "Imports" || n == "Unresolved" || n == "Comments") {
				continue
			}
			if n == "Doc" || n == "Comment" {
				if v.Field(i).CanSet() {
					v.Field(i).Set(reflect.Zero(t.Field(i).Type))
				}
				continue
			}
			clearPos(v.Field(i), seen)
		}
	}
}

// walk visits the tree below v: pre-order hook, children, post-order replacement.
func (r *rw) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		n, isNode := v.Interface().(ast.Node)
		r.walk(v.Elem())
		if isNode && v.CanSet() {
			switch x := n.(type) {
			case ast.Stmt:
				if s := r.stmt(x); s != x {
					v.Set(reflect.ValueOf(s))
				}
			case ast.Expr:
				if e := r.expr(x); e != x {
					v.Set(reflect.ValueOf(e))
				}
			}
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		n, ok := v.Interface().(ast.Node)
		if !ok {
			return
		}
		r.pre(n)
		t := v.Elem()
		for i := 0; i < t.NumField(); i++ {
			nm := t.Type().Field(i).Name
			if nm == "Obj" || nm == "Scope" || nm == "Imports" || nm == "Unresolved" || nm == "Comments" || nm == "Doc" || nm == "Comment" {
				continue
			}
			r.walk(t.Field(i))
		}
		r.post(n)
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i))
		}
	}
}

func (r *rw) typ(e ast.Expr) types.Type {
	if t, ok := r.info.Types[e]; ok {
		return t.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(i); o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	u := t.Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		return nil
	}
	return u
}

func (r *rw) shared(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		v, ok := r.info.Uses[x].(*types.Var)
		if !ok {
			return false
		}
		return r.captured[v] || v.Parent() == r.k.types.Scope()
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true
	}
	return false
}

func (r *rw) pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (r *rw) pre(n ast.Node) {
	switch x := n.(type) {
	case *ast.ForStmt:
		if x.Post != nil {
			r.postStmt[x.Post] = true
		}
	case *ast.IncDecStmt:
		if !r.postStmt[x] && r.shared(x.X) && r.pure(x.X) && r.typ(x.X) != nil {
			r.vwrap[x] = true
		}
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.recv2[u] = true
			}
		}
		if r.postStmt[x] || len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE || !r.shared(x.Lhs[0]) {
			break
		}
		lt := r.typ(x.Lhs[0])
		tv := r.info.Types[x.Rhs[0]]
		if lt == nil {
			break
		}
		if x.Tok == token.ASSIGN {
			if tv.Type == nil || tv.Value != nil || tv.IsNil() || !types.Identical(lt, tv.Type) {
				break
			}
			switch y := unparen(x.Rhs[0]).(type) {
			case *ast.BinaryExpr:
				switch y.Op {
				case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ, token.LAND, token.LOR, token.SHL, token.SHR:
					return
				}
			case *ast.UnaryExpr:
				if y.Op == token.NOT {
					return
				}
			}
			r.vwrap[x] = true
			break
		}
		if x.Tok == token.SHL_ASSIGN || x.Tok == token.SHR_ASSIGN {
			break
		}
		if r.pure(x.Lhs[0]) {
			r.vwrap[x] = true
		}
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			if u, ok := unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.recv2[u] = true
			}
		}
	case *ast.RangeStmt:
		switch under(r.typ(x.X)).(type) {
		case *types.Chan:
			r.chans[x] = true
		case *types.Map:
			r.maps[x] = true
		}
	case *ast.CommClause:
		// the communication itself is rewritten with the select statement
		if x.Comm != nil {
			r.postStmt[x.Comm] = true
		}
	case *ast.GoStmt:
		c := x.Call
		if i, ok := unparen(c.Fun).(*ast.Ident); ok {
			if b, ok := r.info.Uses[i].(*types.Builtin); ok {
				r.builtin[c] = b.Name()
			}
			if _, ok := r.info.Instances[i]; ok {
				r.generic[c] = true
			}
		}
		if s, ok := unparen(c.Fun).(*ast.SelectorExpr); ok {
			if _, ok := r.info.Instances[s.Sel]; ok {
				r.generic[c] = true
			}
		}
		if tv, ok := r.info.Types[c.Fun]; ok && tv.IsType() {
			r.generic[c] = true
		}
		for _, a := range c.Args {
			tv := r.info.Types[a]
			if tv.Value != nil || tv.IsNil() {
				r.consts[a] = true
			}
			if _, ok := tv.Type.(*types.Tuple); ok {
				r.multi[c] = true
			}
			if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				r.consts[a] = true
			}
		}
	case *ast.CallExpr:
		if i, ok := unparen(x.Fun).(*ast.Ident); ok && len(x.Args) == 1 {
			if b, ok := r.info.Uses[i].(*types.Builtin); ok {
				if c, ok := under(r.typ(x.Args[0])).(*types.Chan); ok {
					switch b.Name() {
					case "close":
						r.builtin[x] = "Close"
					case "len":
						r.builtin[x] = "ChanLen"
						if c.Dir() == types.SendOnly {
							r.builtin[x] = "ChanLenS"
						}
					}
				}
			}
		}
	case *ast.SelectorExpr:
		if i, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[i].(*types.PkgName); ok {
				if _, ok := repl[pn.Imported().Path()+"."+x.Sel.Name]; !ok {
					r.used[pn]++
				}
			}
		}
	}
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		if i, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[i].(*types.PkgName); ok {
				if n, ok := repl[pn.Imported().Path()+"."+x.Sel.Name]; ok {
					return sim(n)
				}
			}
		}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			if r.recv2[x] {
				return call(sim("Recv2"), x.X)
			}
			return call(sim("Recv"), x.X)
		}
	case *ast.CallExpr:
		if b := r.builtin[x]; b == "Close" || b == "ChanLen" || b == "ChanLenS" {
			return call(sim(b), x.Args[0])
		}
	}
	return e
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(sim("SendTo"), x.Chan), x.Value)}
	case *ast.IncDecStmt:
		if r.vwrap[x] {
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			return &ast.AssignStmt{Lhs: []ast.Expr{x.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{call(sim("V"), &ast.BinaryExpr{X: x.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}})}}
		}
	case *ast.AssignStmt:
		if r.vwrap[x] {
			if x.Tok == token.ASSIGN {
				x.Rhs[0] = call(sim("V"), x.Rhs[0])
			} else {
				op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
					token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
					token.XOR_ASSIGN: token.XOR, token.AND_NOT_ASSIGN: token.AND_NOT}[x.Tok]
				x.Tok = token.ASSIGN
				x.Rhs[0] = call(sim("V"), &ast.BinaryExpr{X: x.Lhs[0], Op: op, Y: &ast.ParenExpr{X: x.Rhs[0]}})
			}
		}
	case *ast.RangeStmt:
		if r.chans[x] {
			x.X = call(sim("ChanSeq"), x.X)
		} else if r.maps[x] {
			x.X = call(sim("MapSeq"), x.X)
		}
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.SelectStmt:
		return r.selectStmt(x, nil)
	case *ast.LabeledStmt:
		if b, ok := x.Stmt.(*ast.BlockStmt); ok && len(b.List) > 0 {
			if sw, ok := b.List[len(b.List)-1].(*ast.SwitchStmt); ok && r.skipY[sw] {
				b.List[len(b.List)-1] = &ast.LabeledStmt{Label: x.Label, Stmt: sw}
				return b
			}
		}
	}
	return s
}

func (r *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	lit, isLit := unparen(c.Fun).(*ast.FuncLit)
	if isLit && len(c.Args) == 0 && lit.Type.Results == nil {
		return &ast.ExprStmt{X: call(sim("Go"), lit)}
	}
	wrap := func() ast.Stmt {
		return &ast.ExprStmt{X: call(sim("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}})}
	}
	if r.builtin[c] != "" || r.multi[c] {
		return wrap()
	}
	var pre []ast.Stmt
	if !r.generic[c] {
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id("cfsimF")}, Tok: token.DEFINE, Rhs: []ast.Expr{c.Fun}})
		c.Fun = id("cfsimF")
	}
	for i, a := range c.Args {
		if r.consts[a] {
			continue
		}
		if _, ok := a.(*ast.FuncLit); ok {
			continue
		}
		if l, ok := a.(*ast.BasicLit); ok {
			_ = l
			continue
		}
		n := id("cfsimA" + strconv.Itoa(i))
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{n}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		c.Args[i] = n
	}
	return &ast.BlockStmt{List: append(pre, wrap())}
}

// selectStmt turns a select (its children already rewritten) into a switch.
func (r *rw) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	r.nsel++
	p := "cfsimS" + strconv.Itoa(r.nsel) + "_"
	var pre []ast.Stmt
	var cases []ast.Expr
	hasDef := "false"
	body := &ast.BlockStmt{}
	n := 0
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			body.List = append(body.List, &ast.CaseClause{List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}, Body: cc.Body})
			continue
		}
		cv := id(p + "c" + strconv.Itoa(n))
		lit := &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}
		n++
		inner := cc.Body
		recvChan := func(e ast.Expr) ast.Expr { // the channel of a rewritten receive
			return unparen(e).(*ast.CallExpr).Args[0]
		}
		switch s := cc.Comm.(type) {
		case *ast.ExprStmt:
			c := unparen(s.X).(*ast.CallExpr)
			if inn, ok := c.Fun.(*ast.CallExpr); ok { // SendTo(ch)(v)
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{cv}, Tok: token.DEFINE, Rhs: []ast.Expr{inn.Args[0]}})
				cases = append(cases, call(call(sim("CaseSend"), cv), c.Args[0]))
			} else {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{cv}, Tok: token.DEFINE, Rhs: []ast.Expr{recvChan(s.X)}})
				cases = append(cases, call(sim("CaseRecv"), cv))
			}
		case *ast.AssignStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{cv}, Tok: token.DEFINE, Rhs: []ast.Expr{recvChan(s.Rhs[0])}})
			cases = append(cases, call(sim("CaseRecv"), cv))
			rhs := []ast.Expr{call(sim("CastOf"), cv, id(p+"v"))}
			if len(s.Lhs) == 2 {
				rhs = append(rhs, id(p+"ok"))
			}
			inner = append([]ast.Stmt{&ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: rhs}}, inner...)
		}
		body.List = append(body.List, &ast.CaseClause{List: []ast.Expr{lit}, Body: inner})
	}
	body.List = append(body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(p + "i"), id(p + "v"), id(p + "ok")}, Tok: token.DEFINE,
		Rhs: []ast.Expr{call(sim("Select"), append([]ast.Expr{id(hasDef)}, cases...)...)}},
		&ast.AssignStmt{Lhs: []ast.Expr{id("_"), id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(p + "v"), id(p + "ok")}})
	sw := &ast.SwitchStmt{Tag: id(p + "i"), Body: body}
	r.skipY[sw] = true
	return &ast.BlockStmt{List: append(pre, sw)}
}

func withYields(l []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, 2*len(l))
	for _, s := range l {
		switch x := s.(type) {
		case *ast.EmptyStmt:
			continue
		case *ast.CaseClause, *ast.CommClause:
			out = append(out, s)
			continue
		case *ast.BranchStmt:
			if x.Tok == token.FALLTHROUGH {
				out = append(out, s)
				continue
			}
		}
		out = append(out, yield(), s)
	}
	return out
}

func (r *rw) post(n ast.Node) {
	switch x := n.(type) {
	case *ast.BlockStmt:
		for i, s := range x.List {
			_ = i
			_ = s
		}
		x.List = withYields(x.List)
	case *ast.CaseClause:
		x.Body = withYields(x.Body)
	case *ast.CommClause:
		x.Body = withYields(x.Body)
	case *ast.ForStmt:
		if len(x.Body.List) == 0 {
			x.Body.List = []ast.Stmt{yield()}
		}
	case *ast.FuncDecl:
		if x.Recv != nil && len(x.Recv.List) == 1 && x.Body != nil {
			t := x.Recv.List[0].Type
			if s, ok := t.(*ast.StarExpr); ok {
				t = s.X
			}
			if ti, ok := t.(*ast.Ident); ok && probes[ti.Name+"."+x.Name.Name] {
				args := []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(ti.Name + "." + x.Name.Name)}}
				if len(x.Recv.List[0].Names) == 0 || x.Recv.List[0].Names[0].Name == "_" {
					x.Recv.List[0].Names = []*ast.Ident{id("cfsimRecv")}
				}
				args = append(args, id(x.Recv.List[0].Names[0].Name))
				k := 0
				for _, f := range x.Type.Params.List {
					if len(f.Names) == 0 {
						f.Names = []*ast.Ident{id("_")}
					}
					for j, nm := range f.Names {
						if nm.Name == "_" {
							f.Names[j] = id("cfsimP" + strconv.Itoa(k))
						}
						args = append(args, id(f.Names[j].Name))
						k++
					}
				}
				d := &ast.DeferStmt{Call: call(call(sim("Probe"), args...))}
				x.Body.List = append([]ast.Stmt{d}, x.Body.List...)
			}
		}
	}
}

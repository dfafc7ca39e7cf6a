// Command vinstr rewrites the non-test sources of goji so that every
// synchronisation operation goes through package vrt, and every plain access to
// possibly shared memory is announced to its race detector. It writes the
// rewritten files to a directory and an overlay file for go build -overlay; the
// sources in the repository are not touched. It works on the type-checked
// syntax tree of whatever the repository contains.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	Imports    []string
	ImportMap  map[string]string
	Error      *struct{ Err string }
}

var (
	flagOut     = flag.String("out", "", "output directory")
	flagOverlay = flag.String("overlay", "", "overlay to use when listing packages and to extend")
	flagMod     = flag.String("modfile", "", "go.mod of the harness")
	flagPlain   = flag.String("plain", "", "comma-separated packages without data-access instrumentation")
	flagHTTP    = flag.Bool("http", false, "substitute verif.local/mc/vhttp for net/http.Server in package graceful")
	flagPkgs    = flag.String("pkgs", "", "comma-separated import paths to instrument")
)

const vrtPath = "verif.local/mc/vrt"

func main() {
	flag.Parse()
	overlay := map[string]string{}
	if *flagOverlay != "" {
		b, err := os.ReadFile(*flagOverlay)
		check(err)
		var o struct{ Replace map[string]string }
		check(json.Unmarshal(b, &o))
		overlay = o.Replace
	}
	pkgs := strings.Split(*flagPkgs, ",")
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,CgoFiles,Export,Standard,Imports,ImportMap,Error"}
	if *flagMod != "" {
		args = append(args, "-modfile="+*flagMod)
	}
	if *flagOverlay != "" {
		args = append(args, "-overlay="+*flagOverlay)
	}
	args = append(args, pkgs...)
	cmd := exec.Command("go", args...)
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	check(err)
	all := map[string]*listPkg{}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else {
			check(err)
		}
		all[p.ImportPath] = &p
	}
	fset := token.NewFileSet()
	lookup := func(path string) (io.ReadCloser, error) {
		p := all[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	}
	imp := importer.ForCompiler(fset, "gc", lookup)
	plain := map[string]bool{}
	for _, p := range strings.Split(*flagPlain, ",") {
		plain[p] = true
	}
	for i, path := range pkgs {
		p := all[path]
		if p == nil {
			check(fmt.Errorf("package %s not found", path))
		}
		if len(p.CgoFiles) > 0 {
			check(fmt.Errorf("cgo in %s", path))
		}
		instrument(fset, imp, p, int32(i+1)*100000, overlay, !plain[path])
	}
	b, err := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	check(err)
	check(os.WriteFile(filepath.Join(*flagOut, "overlay.json"), b, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "vinstr:", err)
		os.Exit(2)
	}
}

type rw struct {
	fset   *token.FileSet
	info   *types.Info
	pkg    *types.Package
	data   bool
	shared map[types.Object]bool
	base   int32
	sites  []string
	used   map[string]bool // overridden packages in this file
	dot    string
	tmp    int
	vrtRef bool
}

func instrument(fset *token.FileSet, imp types.Importer, p *listPkg, base int32, overlay map[string]string, data bool) {
	var files []*ast.File
	var names []string
	for _, f := range p.GoFiles {
		full := filepath.Join(p.Dir, f)
		src := full
		if o, ok := overlay[full]; ok {
			src = o
		}
		b, err := os.ReadFile(src)
		check(err)
		af, err := parser.ParseFile(fset, full, b, 0)
		check(err)
		files = append(files, af)
		names = append(names, full)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: imp, GoVersion: "go1.20", Error: func(error) {}}
	pkg, err := conf.Check(p.ImportPath, fset, files, info)
	check(err)
	r := &rw{fset: fset, info: info, pkg: pkg, data: data, shared: map[types.Object]bool{}, base: base}
	for _, f := range files {
		r.findShared(f)
	}
	// Package variable initialisers, by the file that declares them.
	fileOf := func(pos token.Pos) int {
		n := fset.Position(pos).Filename
		for i, f := range files {
			if fset.Position(f.Pos()).Filename == n {
				return i
			}
		}
		return 0
	}
	inits := map[types.Object]int{}
	type initFn struct {
		file int
		name string
		lhs  []*types.Var
		rhs  ast.Expr
	}
	var order []initFn
	for i, in := range info.InitOrder {
		fn := initFn{name: fmt.Sprintf("verifVar%d", i), lhs: in.Lhs, rhs: in.Rhs}
		fn.file = fileOf(in.Rhs.Pos())
		order = append(order, fn)
		for _, l := range in.Lhs {
			inits[l] = i
		}
	}
	var zeros []string
	scope := pkg.Scope()
	for _, n := range scope.Names() {
		if v, ok := scope.Lookup(n).(*types.Var); ok {
			if _, has := inits[v]; !has {
				zeros = append(zeros, n)
			}
		}
	}
	var resetCalls []string
	dir := filepath.Join(*flagOut, strings.ReplaceAll(p.ImportPath, "/", "_"))
	check(os.MkdirAll(dir, 0o755))
	nInit := 0
	for i, f := range files {
		r.used = map[string]bool{}
		r.vrtRef = false
		// Initialisers first: they share the rewritten expressions.
		var extra []ast.Decl
		for _, d := range f.Decls {
			r.decl(d)
		}
		for _, fn := range order {
			if fn.file != i {
				continue
			}
			rhs := r.rewritten(fn.rhs)
			as := &ast.AssignStmt{Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}
			for _, l := range fn.lhs {
				as.Lhs = append(as.Lhs, ast.NewIdent(l.Name()))
			}
			extra = append(extra, &ast.FuncDecl{Name: ast.NewIdent(fn.name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{as}}})
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				nInit++
				fd.Name = ast.NewIdent(fmt.Sprintf("verifInit%d", nInit))
				resetCalls = append(resetCalls, fd.Name.Name)
				extra = append(extra, &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}},
					Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(fd.Name.Name)}}}}})
			}
		}
		f.Decls = append(f.Decls, extra...)
		r.overrides(f)
		if r.vrtRef {
			addImport(f, "vrt", vrtPath)
			f.Decls = append(f.Decls, blankVar(&ast.SelectorExpr{X: ast.NewIdent("vrt"), Sel: ast.NewIdent("Keep")}))
		}
		if r.used["vhttp"] {
			addImport(f, "vhttp", "verif.local/mc/vhttp")
		}
		r.keepImports(f)
		f.Comments = nil
		stripDocs(f)
		var buf bytes.Buffer
		cfg := printer.Config{Mode: printer.UseSpaces | printer.TabIndent | printer.SourcePos, Tabwidth: 8}
		check(cfg.Fprint(&buf, fset, f))
		dst := filepath.Join(dir, filepath.Base(names[i]))
		check(os.WriteFile(dst, buf.Bytes(), 0o644))
		overlay[names[i]] = dst
	}
	var g bytes.Buffer
	fmt.Fprintf(&g, "package %s\n\nimport vrt %q\n\n// VerifReset restores the package's initial state.\nfunc VerifReset() {\n", pkg.Name(), vrtPath)
	for _, z := range zeros {
		if z != "_" {
			fmt.Fprintf(&g, "\tvrt.Zero(&%s)\n", z)
		}
	}
	for _, fn := range order {
		fmt.Fprintf(&g, "\t%s()\n", fn.name)
	}
	for _, c := range resetCalls {
		fmt.Fprintf(&g, "\t%s()\n", c)
	}
	fmt.Fprintf(&g, "}\n\nfunc init() {\n\tvrt.RegisterSites(%d, []string{\n", base)
	for _, s := range r.sites {
		fmt.Fprintf(&g, "\t\t%q,\n", s)
	}
	fmt.Fprintf(&g, "\t})\n}\n")
	dst := filepath.Join(dir, "verif_reset.go")
	check(os.WriteFile(dst, g.Bytes(), 0o644))
	overlay[filepath.Join(p.Dir, "verif_reset.go")] = dst
}

func stripDocs(f *ast.File) {
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch d := n.(type) {
		case *ast.GenDecl:
			d.Doc = nil
		case *ast.FuncDecl:
			d.Doc = nil
		case *ast.Field:
			d.Doc, d.Comment = nil, nil
		case *ast.ValueSpec:
			d.Doc, d.Comment = nil, nil
		case *ast.TypeSpec:
			d.Doc, d.Comment = nil, nil
		case *ast.ImportSpec:
			d.Doc, d.Comment = nil, nil
		}
		return true
	})
}

func blankVar(t ast.Expr) ast.Decl {
	return &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Type: t}}}
}

func addImport(f *ast.File, name, path string) {
	sp := &ast.ImportSpec{Name: ast.NewIdent(name), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{sp}}}, f.Decls...)
	f.Imports = append(f.Imports, sp)
}

// keepImports keeps imports used whose uses were all redirected.
func (r *rw) keepImports(f *ast.File) {
	usedNames := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				usedNames[id.Name] = true
			}
		}
		return true
	})
	var decls []ast.Decl
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		var specs []ast.Spec
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			if _, over := overrideSel[path]; over || path == "net/http" {
				name := path[strings.LastIndex(path, "/")+1:]
				if is.Name != nil {
					name = is.Name.Name
				}
				if name != "_" && name != "." && !usedNames[name] {
					is.Name = ast.NewIdent("_")
				}
			}
			specs = append(specs, s)
		}
		gd.Specs = specs
		decls = append(decls, gd)
	}
	f.Decls = decls
}

// findShared records local variables that escape into closures or whose address
// is taken.
func (r *rw) findShared(f *ast.File) {
	var stack []ast.Node // enclosing functions
	var visit func(n ast.Node)
	declFn := map[types.Object]ast.Node{}
	visit = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == n {
				return true
			}
			switch x := m.(type) {
			case *ast.FuncLit:
				stack = append(stack, x)
				visit(x)
				stack = stack[:len(stack)-1]
				return false
			case *ast.Ident:
				if o := r.info.Defs[x]; o != nil {
					if v, ok := o.(*types.Var); ok && !v.IsField() && len(stack) > 0 {
						declFn[o] = stack[len(stack)-1]
					}
				}
				if o := r.info.Uses[x]; o != nil {
					if v, ok := o.(*types.Var); ok && !v.IsField() && len(stack) > 0 {
						if d, ok := declFn[o]; ok && d != stack[len(stack)-1] {
							r.shared[o] = true
						}
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					e := x.X
					for {
						switch y := e.(type) {
						case *ast.ParenExpr:
							e = y.X
							continue
						case *ast.SelectorExpr:
							if t := r.info.TypeOf(y.X); t != nil {
								if _, ptr := t.Underlying().(*types.Pointer); !ptr {
									e = y.X
									continue
								}
							}
						case *ast.Ident:
							if o, ok := r.info.Uses[y].(*types.Var); ok {
								r.shared[o] = true
							}
						}
						break
					}
				}
			}
			return true
		})
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		stack = []ast.Node{fd}
		// Implicit objects of type switches are declared in place.
		visit(fd)
	}
}

func (r *rw) site(n ast.Node) ast.Expr {
	p := r.fset.Position(n.Pos())
	name := fmt.Sprintf("%s:%d", filepath.Base(filepath.Dir(p.Filename))+"/"+filepath.Base(p.Filename), p.Line)
	r.sites = append(r.sites, name)
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(int(r.base) + len(r.sites) - 1)}
}

func (r *rw) vrt(name string, args ...ast.Expr) *ast.CallExpr {
	r.vrtRef = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vrt"), Sel: ast.NewIdent(name)}, Args: args}
}

func method(x ast.Expr, name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: x, Sel: ast.NewIdent(name)}, Args: args}
}

func addr(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }
func star(e ast.Expr) ast.Expr { return &ast.ParenExpr{X: &ast.StarExpr{X: e}} }

func syncType(t types.Type, depth int) bool {
	if t == nil || depth > 6 {
		return false
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if o := n.Obj(); o.Pkg() != nil {
			switch o.Pkg().Path() {
			case "sync", "sync/atomic":
				return true
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if syncType(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Array:
		return syncType(u.Elem(), depth+1)
	}
	return false
}

func (r *rw) varOf(id *ast.Ident) *types.Var {
	v, _ := r.info.Uses[id].(*types.Var)
	if v == nil {
		v, _ = r.info.Defs[id].(*types.Var)
	}
	return v
}

func (r *rw) isField(s *ast.SelectorExpr) bool {
	sel := r.info.Selections[s]
	return sel != nil && sel.Kind() == types.FieldVal
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// embeddedPtr: the field path goes through an embedded pointer.
func (r *rw) viaPtr(s *ast.SelectorExpr) bool {
	sel := r.info.Selections[s]
	return sel != nil && sel.Indirect()
}

func (r *rw) addressable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return r.varOf(x) != nil
	case *ast.ParenExpr:
		return r.addressable(x.X)
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		if r.isField(x) {
			return r.viaPtr(x) || isPtr(r.info.TypeOf(x.X)) || r.addressable(x.X)
		}
		if id, ok := x.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.PkgName); ok {
				_, isVar := r.info.Uses[x.Sel].(*types.Var)
				return isVar
			}
		}
	case *ast.IndexExpr:
		switch t := r.info.TypeOf(x.X).Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			_, arr := t.Elem().Underlying().(*types.Array)
			return arr
		case *types.Array:
			return r.addressable(x.X)
		}
	}
	return false
}

func (r *rw) isShared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		v := r.varOf(x)
		if v == nil {
			return false
		}
		return v.Parent() == r.pkg.Scope() || r.shared[v]
	case *ast.ParenExpr:
		return r.isShared(x.X)
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		if r.isField(x) {
			return r.viaPtr(x) || isPtr(r.info.TypeOf(x.X)) || r.isShared(x.X)
		}
		if v, ok := r.info.Uses[x.Sel].(*types.Var); ok && v.Pkg() != nil {
			return strings.HasPrefix(v.Pkg().Path(), "github.com/zenazn/goji")
		}
	case *ast.IndexExpr:
		switch r.info.TypeOf(x.X).Underlying().(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return r.isShared(x.X)
		}
	}
	return false
}

func (r *rw) record(e ast.Expr) bool {
	if !r.data {
		return false
	}
	tv, ok := r.info.Types[e]
	if !ok {
		if id, ok2 := e.(*ast.Ident); ok2 && r.varOf(id) != nil {
			tv.Type = r.varOf(id).Type()
		} else {
			return false
		}
	} else if tv.IsType() || tv.IsBuiltin() || tv.Value != nil {
		return false
	}
	if tv.Type == nil || !r.addressable(e) || !r.isShared(e) || syncType(tv.Type, 0) {
		return false
	}
	return true
}

func side(e ast.Expr) bool {
	bad := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			bad = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				bad = true
			}
		}
		return !bad
	})
	return bad
}

func (r *rw) rewritten(e ast.Expr) ast.Expr { return r.expr(e) }

var memo = map[ast.Expr]ast.Expr{}

// expr rewrites an rvalue. Results are memoised: package initialisers are used
// twice.
func (r *rw) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if m, ok := memo[e]; ok {
		return m
	}
	n := r.expr1(e)
	memo[e] = n
	return n
}

func (r *rw) exprs(l []ast.Expr) []ast.Expr {
	out := make([]ast.Expr, len(l))
	for i, e := range l {
		out[i] = r.expr(e)
	}
	return out
}

func (r *rw) expr1(e ast.Expr) ast.Expr {
	if tv, ok := r.info.Types[e]; ok {
		if tv.IsType() || tv.IsBuiltin() {
			return e
		}
		if tv.Value != nil && !side(e) {
			return e
		}
	}
	switch x := e.(type) {
	case *ast.Ident, *ast.StarExpr, *ast.SelectorExpr, *ast.IndexExpr:
		if ix, ok := e.(*ast.IndexExpr); ok {
			t := r.info.TypeOf(ix.X)
			if _, isFn := t.Underlying().(*types.Signature); isFn {
				return e // instantiation
			}
			if _, isMap := t.Underlying().(*types.Map); isMap {
				m := r.expr(ix.X)
				k := r.expr(ix.Index)
				if r.data {
					return &ast.IndexExpr{X: r.vrt("MapR", m, r.site(e)), Index: k}
				}
				return &ast.IndexExpr{X: m, Index: k}
			}
		}
		if r.record(e) {
			return star(r.vrt("R", addr(r.lv(e)), r.site(e)))
		}
		return r.lv(e)
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.expr(x.X)}
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			if _, ok := unparen(x.X).(*ast.CompositeLit); ok {
				return &ast.UnaryExpr{OpPos: x.OpPos, Op: x.Op, X: r.expr(x.X)}
			}
			return &ast.UnaryExpr{OpPos: x.OpPos, Op: x.Op, X: r.lv(x.X)}
		}
		if x.Op == token.ARROW {
			return r.vrt("Recv", r.expr(x.X))
		}
		return &ast.UnaryExpr{OpPos: x.OpPos, Op: x.Op, X: r.expr(x.X)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: r.expr(x.X), OpPos: x.OpPos, Op: x.Op, Y: r.expr(x.Y)}
	case *ast.SliceExpr:
		var b ast.Expr
		if _, arr := r.info.TypeOf(x.X).Underlying().(*types.Array); arr {
			b = r.lv(x.X)
		} else {
			b = r.expr(x.X)
		}
		return &ast.SliceExpr{X: b, Lbrack: x.Lbrack, Low: r.expr(x.Low), High: r.expr(x.High), Max: r.expr(x.Max), Slice3: x.Slice3}
	case *ast.TypeAssertExpr:
		return &ast.TypeAssertExpr{X: r.expr(x.X), Type: x.Type}
	case *ast.CompositeLit:
		n := &ast.CompositeLit{Type: x.Type, Lbrace: x.Lbrace, Rbrace: x.Rbrace}
		_, isStruct := r.info.TypeOf(x).Underlying().(*types.Struct)
		if p, ok := r.info.TypeOf(x).Underlying().(*types.Pointer); ok {
			_, isStruct = p.Elem().Underlying().(*types.Struct)
		}
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				k := kv.Key
				if !isStruct {
					k = r.elem(kv.Key)
				}
				n.Elts = append(n.Elts, &ast.KeyValueExpr{Key: k, Colon: kv.Colon, Value: r.elem(kv.Value)})
				continue
			}
			n.Elts = append(n.Elts, r.elem(el))
		}
		return n
	case *ast.FuncLit:
		return &ast.FuncLit{Type: x.Type, Body: r.block(x.Body)}
	case *ast.CallExpr:
		return r.call(x)
	}
	return e
}

func (r *rw) elem(e ast.Expr) ast.Expr {
	if c, ok := e.(*ast.CompositeLit); ok {
		return r.expr1(c)
	}
	return r.expr(e)
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// lv rewrites an operand without recording an access to the operand itself.
func (r *rw) lv(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		return x
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.lv(x.X)}
	case *ast.StarExpr:
		return &ast.StarExpr{Star: x.Star, X: r.expr(x.X)}
	case *ast.SelectorExpr:
		sel := r.info.Selections[x]
		if sel == nil {
			return x // qualified identifier
		}
		if sel.Kind() == types.MethodExpr {
			return x
		}
		bt := r.info.TypeOf(x.X)
		var b ast.Expr
		if isPtr(bt) {
			b = r.expr(x.X)
		} else if sel.Kind() == types.FieldVal {
			b = r.lv(x.X)
			if _, isCall := x.X.(*ast.CallExpr); isCall {
				b = r.expr(x.X)
			}
		} else {
			// Method value: does it take the address of its operand?
			f := sel.Obj().(*types.Func)
			recv := f.Type().(*types.Signature).Recv().Type()
			if isPtr(recv) || syncType(bt, 0) {
				b = r.lv(x.X)
			} else {
				b = r.expr(x.X)
			}
		}
		return &ast.SelectorExpr{X: b, Sel: x.Sel}
	case *ast.IndexExpr:
		t := r.info.TypeOf(x.X)
		var b ast.Expr
		if _, arr := t.Underlying().(*types.Array); arr {
			b = r.lv(x.X)
		} else {
			b = r.expr(x.X)
		}
		return &ast.IndexExpr{X: b, Index: r.expr(x.Index)}
	}
	return r.expr(e)
}

func (r *rw) call(x *ast.CallExpr) ast.Expr {
	fun := unparen(x.Fun)
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			switch b.Name() {
			case "close":
				return r.vrt("Close", r.expr(x.Args[0]))
			case "delete":
				if r.data {
					return method(r.vrt("MapW", r.expr(x.Args[0]), r.site(x)), "Delete", r.expr(x.Args[1]))
				}
				return method(r.vrt("MapW", r.expr(x.Args[0]), &ast.BasicLit{Kind: token.INT, Value: "0"}), "Delete", r.expr(x.Args[1]))
			case "len", "cap":
				t := r.info.TypeOf(x.Args[0])
				switch t.Underlying().(type) {
				case *types.Chan:
					if b.Name() == "len" {
						return r.vrt("Len", r.expr(x.Args[0]))
					}
				case *types.Map:
					if r.data {
						return &ast.CallExpr{Fun: x.Fun, Args: []ast.Expr{r.vrt("MapR", r.expr(x.Args[0]), r.site(x))}}
					}
				}
			case "append":
				if r.data && len(x.Args) > 1 {
					return r.appendCall(x)
				}
			case "copy":
				if r.data {
					if b, ok := r.info.TypeOf(x.Args[1]).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
						return r.vrt("CopyString", r.expr(x.Args[0]), r.expr(x.Args[1]), r.site(x))
					}
					return r.vrt("Copy", r.expr(x.Args[0]), r.expr(x.Args[1]), r.site(x))
				}
			case "new", "make":
				n := &ast.CallExpr{Fun: x.Fun, Args: []ast.Expr{x.Args[0]}}
				n.Args = append(n.Args, r.exprs(x.Args[1:])...)
				return n
			}
			return &ast.CallExpr{Fun: x.Fun, Args: r.exprs(x.Args), Ellipsis: x.Ellipsis}
		}
	}
	if tv, ok := r.info.Types[x.Fun]; ok && tv.IsType() {
		return &ast.CallExpr{Fun: x.Fun, Args: r.exprs(x.Args)}
	}
	args := r.exprs(x.Args)
	f := r.expr(x.Fun)
	if s, ok := fun.(*ast.SelectorExpr); ok && r.data {
		if sel := r.info.Selections[s]; sel == nil {
			r.stdCall(s, x, args)
		} else if sel.Kind() == types.MethodVal && len(sel.Index()) == 1 {
			if b := r.stdMethod(s); b != nil {
				f = &ast.SelectorExpr{X: b, Sel: s.Sel}
			}
		}
	}
	return &ast.CallExpr{Fun: f, Lparen: x.Lparen, Args: args, Ellipsis: x.Ellipsis, Rparen: x.Rparen}
}

// appendCall announces what append does to the array behind the slice.
func (r *rw) appendCall(x *ast.CallExpr) ast.Expr {
	args := r.exprs(x.Args)
	isNil := func(i int) bool { return r.info.Types[x.Args[i]].IsNil() }
	switch {
	case isNil(0):
	case !x.Ellipsis.IsValid():
		args[0] = r.vrt("AppendTo", args[0], &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(x.Args) - 1)}, r.site(x))
	case isNil(1):
	default:
		name := "AppendAll"
		if b, ok := r.info.TypeOf(x.Args[1]).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			name = "AppendString"
		}
		return r.vrt(name, args[0], args[1], r.site(x))
	}
	return &ast.CallExpr{Fun: x.Fun, Args: args, Ellipsis: x.Ellipsis}
}

// mutable lists types of the standard library that are not safe for concurrent
// use, and whose methods (except for these) change them.
var mutable = map[string]string{
	"bytes.Buffer":          " Bytes String Len Cap Available ",
	"strings.Builder":       " String Len Cap ",
	"bytes.Reader":          " Len Size ",
	"strings.Reader":        " Len Size ",
	"bufio.Reader":          " Buffered Size ",
	"bufio.Writer":          " Buffered Available Size ",
	"bufio.Scanner":         " Bytes Text Err ",
	"container/list.List":   " Front Back Len ",
	"container/ring.Ring":   " Len Next Prev Do Move ",
	"math/rand.Rand":        "",
	"math/rand/v2.Rand":     "",
	"text/tabwriter.Writer": "",
}

func typeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// stdMethod returns the receiver of a call of a method of one of these types, or
// of a map type of the standard library, with the access announced.
func (r *rw) stdMethod(s *ast.SelectorExpr) ast.Expr {
	t := r.info.TypeOf(s.X)
	name := typeName(t)
	m := " " + s.Sel.Name + " "
	switch name {
	case "net/http.Header", "net/url.Values", "net/textproto.MIMEHeader":
		if isPtr(t) {
			return nil
		}
		w := "false"
		if strings.Contains(" Set Add Del ", m) {
			w = "true"
		}
		return r.vrt("MapTouch", r.expr(s.X), &ast.Ident{Name: w}, r.site(s))
	}
	ro, ok := mutable[name]
	if !ok {
		return nil
	}
	f := "RW"
	if strings.Contains(ro, m) {
		f = "R"
	}
	return r.touch(s.X, f)
}

// touch announces an access to what e is or points to; nil if it is not shared.
func (r *rw) touch(e ast.Expr, f string) ast.Expr {
	if isPtr(r.info.TypeOf(e)) {
		return r.vrt(f, r.expr(e), r.site(e))
	}
	if !r.record(e) {
		return nil
	}
	return star(r.vrt(f, addr(r.lv(e)), r.site(e)))
}

// stdCall announces what some functions of other packages do to their arguments.
func (r *rw) stdCall(s *ast.SelectorExpr, x *ast.CallExpr, args []ast.Expr) {
	f, ok := r.info.Uses[s.Sel].(*types.Func)
	if !ok || f.Pkg() == nil || len(args) == 0 || x.Ellipsis.IsValid() && len(args) == 1 {
		return
	}
	slice := func(i int) bool {
		_, ok := r.info.TypeOf(x.Args[i]).Underlying().(*types.Slice)
		return ok
	}
	switch p := f.Pkg().Path(); {
	case p == "fmt" && strings.HasPrefix(f.Name(), "Fprint"), p == "io" && strings.HasPrefix(f.Name(), "Copy"), p == "io" && f.Name() == "WriteString":
		for i := range args[:1] {
			if t := r.info.TypeOf(x.Args[i]); isPtr(t) && mutable[typeName(t)] != "" {
				if u, ok := unparen(x.Args[i]).(*ast.UnaryExpr); ok && u.Op == token.AND {
					if r.record(u.X) {
						args[i] = r.vrt("RW", args[i], r.site(x))
					}
				} else {
					args[i] = r.vrt("RW", args[i], r.site(x))
				}
			}
		}
	case (p == "strconv" || p == "fmt" || p == "unicode/utf8") && strings.HasPrefix(f.Name(), "Append"):
		if slice(0) {
			args[0] = r.vrt("AppendTo", args[0], &ast.BasicLit{Kind: token.INT, Value: "1"}, r.site(x))
		}
	case (p == "sort" || p == "slices" && strings.HasPrefix(f.Name(), "Sort")) && !strings.HasPrefix(f.Name(), "Search"):
		if slice(0) {
			args[0] = r.vrt("WriteAll", args[0], r.site(x))
		} else if c, ok := unparen(x.Args[0]).(*ast.CallExpr); ok && p == "sort" {
			// sort.Sort(byName(list))
			if tv, ok := r.info.Types[c.Fun]; ok && tv.IsType() {
				if _, ok := tv.Type.Underlying().(*types.Slice); ok {
					args[0] = r.vrt("WriteAll", args[0], r.site(x))
				}
			}
		}
	}
}

func (r *rw) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	return &ast.BlockStmt{Lbrace: b.Lbrace, List: r.stmts(b.List), Rbrace: b.Rbrace}
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, r.stmt(s))
	}
	return out
}

func (r *rw) name(p string) *ast.Ident {
	r.tmp++
	return ast.NewIdent(fmt.Sprintf("verif%s%d", p, r.tmp))
}

func (r *rw) isMap(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rw) mapIndex(e ast.Expr) *ast.IndexExpr {
	ix, ok := unparen(e).(*ast.IndexExpr)
	if ok && r.isMap(ix.X) {
		return ix
	}
	return nil
}

func (r *rw) siteOr0(n ast.Node) ast.Expr {
	if r.data {
		return r.site(n)
	}
	return &ast.BasicLit{Kind: token.INT, Value: "0"}
}

// target rewrites an assignment target in place (access recorded early).
func (r *rw) target(e ast.Expr) ast.Expr {
	if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
		return e
	}
	if r.record(e) {
		return star(r.vrt("W", addr(r.lv(e)), r.site(e)))
	}
	if m := r.mapIndex(e); m != nil && r.data {
		return &ast.IndexExpr{X: star2(r.vrt("MapR", r.expr(m.X), r.site(e))), Index: r.expr(m.Index)}
	}
	return r.lv(e)
}

func star2(e ast.Expr) ast.Expr { return e }

func setTo(r *rw, lhs, val ast.Expr) ast.Stmt {
	if m := r.mapIndex(lhs); m != nil {
		return &ast.ExprStmt{X: method(r.vrt("MapW", r.expr(m.X), r.siteOr0(lhs)), "Set", r.expr(m.Index), val)}
	}
	if r.record(lhs) {
		return &ast.ExprStmt{X: method(r.vrt("Ptr", addr(r.lv(lhs)), r.site(lhs)), "Set", val)}
	}
	return &ast.AssignStmt{Lhs: []ast.Expr{r.lv(lhs)}, TokPos: lhs.Pos(), Tok: token.ASSIGN, Rhs: []ast.Expr{val}}
}

func (r *rw) needsSet(e ast.Expr) bool {
	if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
		return false
	}
	return r.mapIndex(e) != nil || r.record(e)
}

var binOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM,
	token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

// rhs2 rewrites a two-value right-hand side.
func (r *rw) rhs2(e ast.Expr) ast.Expr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return r.vrt("Recv2", r.expr(u.X))
	}
	return r.expr(e)
}

func (r *rw) assign(s *ast.AssignStmt, simple bool) ast.Stmt {
	if s.Tok == token.DEFINE {
		n := &ast.AssignStmt{Lhs: s.Lhs, TokPos: s.TokPos, Tok: s.Tok}
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			n.Rhs = []ast.Expr{r.rhs2(s.Rhs[0])}
		} else {
			n.Rhs = r.exprs(s.Rhs)
		}
		return n
	}
	if op, ok := binOf[s.Tok]; ok {
		lhs := s.Lhs[0]
		if m := r.mapIndex(lhs); m != nil && !side(lhs) {
			cur := &ast.IndexExpr{X: r.expr(m.X), Index: r.expr(m.Index)}
			return setTo(r, lhs, &ast.BinaryExpr{X: cur, Op: op, Y: &ast.ParenExpr{X: r.expr(s.Rhs[0])}})
		}
		if r.record(lhs) {
			return &ast.AssignStmt{Lhs: []ast.Expr{star(r.vrt("RW", addr(r.lv(lhs)), r.site(lhs)))}, TokPos: s.TokPos, Tok: s.Tok, Rhs: r.exprs(s.Rhs)}
		}
		return &ast.AssignStmt{Lhs: []ast.Expr{r.lv(lhs)}, TokPos: s.TokPos, Tok: s.Tok, Rhs: r.exprs(s.Rhs)}
	}
	if len(s.Lhs) == 1 {
		if r.needsSet(s.Lhs[0]) {
			return setTo(r, s.Lhs[0], r.expr(s.Rhs[0]))
		}
		return &ast.AssignStmt{Lhs: []ast.Expr{r.target(s.Lhs[0])}, TokPos: s.TokPos, Tok: s.Tok, Rhs: r.exprs(s.Rhs)}
	}
	any := false
	for _, l := range s.Lhs {
		any = any || r.needsSet(l)
	}
	var rhs []ast.Expr
	if len(s.Rhs) == 1 {
		rhs = []ast.Expr{r.rhs2(s.Rhs[0])}
	} else {
		rhs = r.exprs(s.Rhs)
	}
	if any && !simple && len(s.Rhs) == 1 {
		blk := &ast.BlockStmt{}
		def := &ast.AssignStmt{Tok: token.DEFINE, TokPos: s.TokPos, Rhs: rhs}
		var tmps []*ast.Ident
		nonBlank := false
		for _, l := range s.Lhs {
			if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
				tmps = append(tmps, nil)
				def.Lhs = append(def.Lhs, ast.NewIdent("_"))
				continue
			}
			t := r.name("t")
			nonBlank = true
			tmps = append(tmps, t)
			def.Lhs = append(def.Lhs, t)
		}
		if nonBlank {
			blk.List = append(blk.List, def)
			for i, l := range s.Lhs {
				if tmps[i] != nil {
					blk.List = append(blk.List, setTo(r, l, ast.NewIdent(tmps[i].Name)))
				}
			}
			return blk
		}
	}
	if any && !simple && len(s.Rhs) > 1 && r.anyMapIndex(s.Lhs) {
		return r.parallel(s, rhs)
	}
	n := &ast.AssignStmt{TokPos: s.TokPos, Tok: s.Tok, Rhs: rhs}
	for _, l := range s.Lhs {
		n.Lhs = append(n.Lhs, r.target(l))
	}
	return n
}

func (r *rw) anyMapIndex(l []ast.Expr) bool {
	for _, e := range l {
		if r.mapIndex(e) != nil {
			return true
		}
	}
	return false
}

// parallel rewrites a, m[k] = v, w: maps, keys and values are evaluated first,
// then everything is stored, from left to right.
func (r *rw) parallel(s *ast.AssignStmt, rhs []ast.Expr) ast.Stmt {
	blk := &ast.BlockStmt{}
	hoist := func(orig, e ast.Expr) ast.Expr {
		if tv, ok := r.info.Types[orig]; ok && (tv.Value != nil || tv.IsNil()) {
			return e
		}
		t := r.name("p")
		blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, TokPos: s.TokPos, Rhs: []ast.Expr{e}})
		return ast.NewIdent(t.Name)
	}
	type dst struct{ m, k ast.Expr }
	var dsts []dst
	for _, l := range s.Lhs {
		d := dst{}
		if m := r.mapIndex(l); m != nil {
			d = dst{hoist(m.X, r.expr(m.X)), hoist(m.Index, r.expr(m.Index))}
		}
		dsts = append(dsts, d)
	}
	vals := make([]ast.Expr, len(rhs))
	for i := range rhs {
		vals[i] = hoist(s.Rhs[i], rhs[i])
	}
	n := &ast.AssignStmt{TokPos: s.TokPos, Tok: token.ASSIGN}
	var sets []ast.Stmt
	for i, l := range s.Lhs {
		if dsts[i].m == nil {
			n.Lhs = append(n.Lhs, r.target(l))
			n.Rhs = append(n.Rhs, vals[i])
			continue
		}
		sets = append(sets, &ast.ExprStmt{X: method(r.vrt("MapW", dsts[i].m, r.siteOr0(l)), "Set", dsts[i].k, vals[i])})
	}
	if n.Lhs != nil {
		blk.List = append(blk.List, n)
	}
	blk.List = append(blk.List, sets...)
	return blk
}

func (r *rw) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	if a, ok := s.(*ast.AssignStmt); ok {
		return r.assign(a, true)
	}
	return r.stmt(s)
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		return &ast.ExprStmt{X: r.expr(x.X)}
	case *ast.AssignStmt:
		return r.assign(x, false)
	case *ast.IncDecStmt:
		if m := r.mapIndex(x.X); m != nil && !side(x.X) {
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			cur := &ast.IndexExpr{X: r.expr(m.X), Index: r.expr(m.Index)}
			return setTo(r, x.X, &ast.BinaryExpr{X: cur, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}})
		}
		if r.record(x.X) {
			return &ast.IncDecStmt{X: star(r.vrt("RW", addr(r.lv(x.X)), r.site(x.X))), TokPos: x.TokPos, Tok: x.Tok}
		}
		return &ast.IncDecStmt{X: r.lv(x.X), TokPos: x.TokPos, Tok: x.Tok}
	case *ast.SendStmt:
		return &ast.ExprStmt{X: method(r.vrt("SendTo", r.expr(x.Chan)), "Send", r.expr(x.Value))}
	case *ast.DeclStmt:
		if gd, ok := x.Decl.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			n := &ast.GenDecl{TokPos: gd.TokPos, Tok: gd.Tok, Lparen: gd.Lparen, Rparen: gd.Rparen}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				nv := &ast.ValueSpec{Names: vs.Names, Type: vs.Type}
				if len(vs.Names) == 2 && len(vs.Values) == 1 {
					nv.Values = []ast.Expr{r.rhs2(vs.Values[0])}
				} else {
					nv.Values = r.exprs(vs.Values)
					if len(vs.Values) == 0 {
						nv.Values = nil
					}
				}
				n.Specs = append(n.Specs, nv)
			}
			return &ast.DeclStmt{Decl: n}
		}
		return x
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		c := r.expr(x.Call)
		if ce, ok := c.(*ast.CallExpr); ok {
			return &ast.DeferStmt{Defer: x.Defer, Call: ce}
		}
		return x
	case *ast.ReturnStmt:
		if len(x.Results) == 1 {
			return &ast.ReturnStmt{Return: x.Return, Results: []ast.Expr{r.expr(x.Results[0])}}
		}
		n := &ast.ReturnStmt{Return: x.Return, Results: r.exprs(x.Results)}
		return n
	case *ast.BlockStmt:
		return r.block(x)
	case *ast.IfStmt:
		return &ast.IfStmt{If: x.If, Init: r.simple(x.Init), Cond: r.expr(x.Cond), Body: r.block(x.Body), Else: r.stmt(x.Else)}
	case *ast.ForStmt:
		return &ast.ForStmt{For: x.For, Init: r.simple(x.Init), Cond: r.expr(x.Cond), Post: r.simple(x.Post), Body: r.block(x.Body)}
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	case *ast.SwitchStmt:
		n := &ast.SwitchStmt{Switch: x.Switch, Init: r.simple(x.Init), Tag: r.expr(x.Tag), Body: &ast.BlockStmt{Lbrace: x.Body.Lbrace, Rbrace: x.Body.Rbrace}}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			nc := &ast.CaseClause{Case: cc.Case, Colon: cc.Colon, Body: r.stmts(cc.Body)}
			if cc.List != nil {
				nc.List = r.exprs(cc.List)
			}
			n.Body.List = append(n.Body.List, nc)
		}
		return n
	case *ast.TypeSwitchStmt:
		n := &ast.TypeSwitchStmt{Switch: x.Switch, Init: r.simple(x.Init), Body: &ast.BlockStmt{Lbrace: x.Body.Lbrace, Rbrace: x.Body.Rbrace}}
		switch a := x.Assign.(type) {
		case *ast.ExprStmt:
			ta := a.X.(*ast.TypeAssertExpr)
			n.Assign = &ast.ExprStmt{X: &ast.TypeAssertExpr{X: r.expr(ta.X)}}
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			n.Assign = &ast.AssignStmt{Lhs: a.Lhs, TokPos: a.TokPos, Tok: a.Tok, Rhs: []ast.Expr{&ast.TypeAssertExpr{X: r.expr(ta.X)}}}
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			n.Body.List = append(n.Body.List, &ast.CaseClause{Case: cc.Case, List: cc.List, Colon: cc.Colon, Body: r.stmts(cc.Body)})
		}
		return n
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.LabeledStmt:
		return &ast.LabeledStmt{Label: x.Label, Colon: x.Colon, Stmt: r.stmt(x.Stmt)}
	}
	return s
}

func (r *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	fl, isLit := unparen(c.Fun).(*ast.FuncLit)
	blk := &ast.BlockStmt{}
	hoist := func(e ast.Expr) ast.Expr {
		if tv, ok := r.info.Types[e]; ok && (tv.Value != nil || tv.IsNil() || tv.IsType()) {
			return e
		}
		t := r.name("g")
		blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(e)}})
		return ast.NewIdent(t.Name)
	}
	call := &ast.CallExpr{Ellipsis: c.Ellipsis}
	if isLit {
		if len(c.Args) == 0 && fl.Type.Results == nil {
			return &ast.ExprStmt{X: r.vrt("Go", r.expr(fl))}
		}
		call.Fun = r.expr(fl)
	} else if id, ok := unparen(c.Fun).(*ast.Ident); ok {
		switch r.info.Uses[id].(type) {
		case *types.Func, *types.Builtin:
			call.Fun = c.Fun
		default:
			call.Fun = hoist(c.Fun)
		}
	} else if se, ok := unparen(c.Fun).(*ast.SelectorExpr); ok && r.info.Selections[se] == nil {
		call.Fun = c.Fun
	} else {
		call.Fun = hoist(c.Fun)
	}
	for _, a := range c.Args {
		call.Args = append(call.Args, hoist(a))
	}
	blk.List = append(blk.List, &ast.ExprStmt{X: r.vrt("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}})})
	return blk
}

func notBlank(e ast.Expr) bool {
	if e == nil {
		return false
	}
	id, ok := e.(*ast.Ident)
	return !ok || id.Name != "_"
}

func (r *rw) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	t := r.info.TypeOf(x.X).Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	switch t.(type) {
	case *types.Map:
		m := r.expr(x.X)
		var pre []ast.Stmt
		if side(x.X) {
			n := r.name("m")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{n}, Tok: token.DEFINE, Rhs: []ast.Expr{m}})
			m = ast.NewIdent(n.Name)
		}
		k, v := r.name("k"), r.name("v")
		ok := r.name("ok")
		body := r.block(x.Body)
		var head []ast.Stmt
		vv := ast.Expr(ast.NewIdent("_"))
		if notBlank(x.Value) {
			vv = v
		}
		head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{vv, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: ast.NewIdent(k.Name)}}})
		head = append(head, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		def := func(l ast.Expr, from *ast.Ident) {
			if !notBlank(l) {
				return
			}
			if x.Tok == token.DEFINE {
				head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.DEFINE, Rhs: []ast.Expr{ast.NewIdent(from.Name)}})
			} else {
				head = append(head, setTo(r, l, ast.NewIdent(from.Name)))
			}
		}
		def(x.Key, k)
		def(x.Value, v)
		body.List = append(head, body.List...)
		f := &ast.RangeStmt{For: x.For, Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE, X: r.vrt("MapKeys", m, r.siteOr0(x)), Body: body}
		if pre != nil {
			return &ast.BlockStmt{List: append(pre, f)}
		}
		return f
	case *types.Chan:
		c := r.expr(x.X)
		v, ok := r.name("v"), r.name("ok")
		body := r.block(x.Body)
		var head []ast.Stmt
		vv := ast.Expr(ast.NewIdent("_"))
		if notBlank(x.Key) {
			vv = v
		}
		head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{vv, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{r.vrt("Recv2", c)}})
		head = append(head, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
		if notBlank(x.Key) {
			if x.Tok == token.DEFINE {
				head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: token.DEFINE, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
			} else {
				head = append(head, setTo(r, x.Key, ast.NewIdent(v.Name)))
			}
		}
		body.List = append(head, body.List...)
		return &ast.ForStmt{For: x.For, Body: body}
	}
	n := &ast.RangeStmt{For: x.For, Tok: x.Tok, TokPos: x.TokPos, Body: r.block(x.Body)}
	if _, arr := t.(*types.Array); arr {
		n.X = r.lv(x.X)
	} else {
		n.X = r.expr(x.X)
	}
	if x.Tok == token.DEFINE || x.Tok == token.ILLEGAL {
		n.Key, n.Value = x.Key, x.Value
	} else {
		if x.Key != nil {
			n.Key = r.target(x.Key)
		}
		if x.Value != nil {
			n.Value = r.target(x.Value)
		}
	}
	return n
}

func (r *rw) selectStmt(x *ast.SelectStmt) ast.Stmt {
	blk := &ast.BlockStmt{}
	var args []ast.Expr
	hasDefault := "false"
	vi, vv, vok := r.name("i"), r.name("v"), r.name("ok")
	sw := &ast.SwitchStmt{Switch: x.Select, Tag: ast.NewIdent(vi.Name), Body: &ast.BlockStmt{Lbrace: x.Body.Lbrace, Rbrace: x.Body.Rbrace}}
	n := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		body := []ast.Stmt{}
		if cc.Comm == nil {
			hasDefault = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: append(body, r.stmts(cc.Body)...)})
			continue
		}
		chanTmp := func(e ast.Expr) ast.Expr {
			t := r.name("c")
			blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(e)}})
			return ast.NewIdent(t.Name)
		}
		recv := func(e ast.Expr) ast.Expr { return unparen(e).(*ast.UnaryExpr).X }
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			ch := chanTmp(s.Chan)
			args = append(args, method(r.vrt("SendTo", ch), "Case", r.expr(s.Value)))
		case *ast.ExprStmt:
			ch := chanTmp(recv(s.X))
			args = append(args, r.vrt("CaseRecv", ch))
		case *ast.AssignStmt:
			ch := chanTmp(recv(s.Rhs[0]))
			args = append(args, r.vrt("CaseRecv", ch))
			vals := []ast.Expr{r.vrt("SelAs", ch, ast.NewIdent(vv.Name)), ast.NewIdent(vok.Name)}
			for i, l := range s.Lhs {
				if !notBlank(l) {
					continue
				}
				if s.Tok == token.DEFINE {
					body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.DEFINE, Rhs: []ast.Expr{vals[i]}})
				} else {
					body = append(body, setTo(r, l, vals[i]))
				}
			}
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}, Body: append(body, r.stmts(cc.Body)...)})
		n++
	}
	call := r.vrt("Select", append([]ast.Expr{ast.NewIdent(hasDefault)}, args...)...)
	blk.List = append(blk.List,
		&ast.AssignStmt{Lhs: []ast.Expr{vi, vv, vok}, Tok: token.DEFINE, Rhs: []ast.Expr{call}},
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent("_"), ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(vi.Name), ast.NewIdent(vv.Name), ast.NewIdent(vok.Name)}})
	if n > 0 || hasDefault == "true" {
		blk.List = append(blk.List, sw)
	}
	// A select without default never falls through: keep it terminating when
	// it was (every path of the original returned).
	if hasDefault == "false" {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}})
	}
	return blk
}

func (r *rw) decl(d ast.Decl) {
	switch x := d.(type) {
	case *ast.FuncDecl:
		x.Body = r.block(x.Body)
	case *ast.GenDecl:
		if x.Tok == token.VAR {
			for _, s := range x.Specs {
				vs := s.(*ast.ValueSpec)
				vs.Values = r.exprs(vs.Values)
				if len(vs.Values) == 0 {
					vs.Values = nil
				}
			}
		}
	}
}

var overrideSel = map[string]map[string]string{
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Pool": "Pool", "Map": "Map", "Cond": "Cond", "NewCond": "NewCond",
		"OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues"},
	"time": {"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After", "AfterFunc": "AfterFunc", "NewTimer": "NewTimer", "Timer": "Timer",
		"Tick": "Tick", "NewTicker": "NewTicker", "Ticker": "Ticker"},
	"os/signal": {"Notify": "Notify", "Stop": "Stop", "Ignore": "Ignore", "Reset": "Reset"},
	"os":        {"Exit": "Exit"},
	"maps":      {"Clone": "MapsClone", "Copy": "MapsCopy"},
	"log": {"Fatal": "LogFatal", "Fatalf": "LogFatalf", "Fatalln": "LogFatalln", "Print": "LogPrint", "Printf": "LogPrintf", "Println": "LogPrintln",
		"Panic": "LogPanic", "Panicf": "LogPanicf", "Panicln": "LogPanicln"},
	"runtime": {"Gosched": "Gosched", "NumCPU": "NumCPU", "GOMAXPROCS": "GOMAXPROCS"},
	"flag":    {"StringVar": "FlagStringVar", "BoolVar": "FlagBoolVar", "IntVar": "FlagIntVar", "String": "FlagString"},
}

func init() {
	m := map[string]string{}
	for _, op := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap"} {
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			if op == "Add" && t == "Pointer" {
				continue
			}
			m[op+t] = op + t
		}
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Bool", "Value", "Pointer"} {
		m[t] = t
	}
	overrideSel["sync/atomic"] = m
}

// overrides redirects selectors of the intercepted packages.
func (r *rw) overrides(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := s.X.(*ast.Ident)
		if !ok {
			return true
		}
		pn, ok := r.info.Uses[id].(*types.PkgName)
		if !ok {
			return true
		}
		path := pn.Imported().Path()
		if to, ok := overrideSel[path][s.Sel.Name]; ok {
			s.X = &ast.Ident{NamePos: id.NamePos, Name: "vrt"}
			s.Sel = &ast.Ident{NamePos: s.Sel.NamePos, Name: to}
			r.vrtRef = true
			return false
		}
		if *flagHTTP && path == "net/http" && s.Sel.Name == "Server" && strings.HasSuffix(r.pkg.Path(), "/graceful") {
			s.X = &ast.Ident{NamePos: id.NamePos, Name: "vhttp"}
			r.used["vhttp"] = true
			return false
		}
		return true
	})
}

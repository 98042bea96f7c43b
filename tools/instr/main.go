// instr copies packages of the repository and of its dependencies to a scratch directory, rewriting every
// goroutine start, channel operation, lock, atomic, timer, network call and map iteration into calls of the
// controlled runtime (package vsched). It is purely syntactic/type directed: it knows no name of the code it rewrites.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"tools/astutil"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	OtherFiles []string
	EmbedFiles []string
	ImportMap  map[string]string
	Standard   bool
	Module     *struct {
		Path      string
		Version   string
		Dir       string
		GoVersion string
		Main      bool
	}
}

var swaps = map[string]string{
	"sync":        "vsched/vsync",
	"sync/atomic": "vsched/vatomic",
	"time":        "vsched/vtime",
	"context":     "vsched/vctx",
	"net":         "vsched/vnet",
	"crypto/tls":  "vsched/vtls",
	"maps":        "vsched/vmaps",
}

var baseName = map[string]string{"sync": "sync", "sync/atomic": "atomic", "time": "time", "context": "context", "net": "net", "crypto/tls": "tls", "maps": "maps"}

func main() {
	repo := flag.String("repo", "/repo", "module to instrument")
	out := flag.String("out", "", "output directory")
	pkgs := flag.String("pkgs", ".", "comma separated package patterns, relative to the repo")
	mods := flag.String("mods", "", "comma separated third-party modules to instrument as well")
	flag.Parse()
	args := []string{"list", "-e=false", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,OtherFiles,EmbedFiles,ImportMap,Standard,Module"}
	args = append(args, strings.Split(*pkgs, ",")...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Env = os.Environ()
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	raw, err := cmd.Output()
	if err != nil {
		fmt.Fprintf(os.Stderr, "instr: go list: %v\n%s", err, stderr.String())
		os.Exit(1)
	}
	var all []*listPkg
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err != nil {
			if errors.Is(err, io.EOF) {
				break
			}
			panic(err)
		}
		all = append(all, p)
		exports[p.ImportPath] = p.Export
	}
	want := map[string]bool{}
	for _, m := range strings.Split(*mods, ",") {
		if m != "" {
			want[m] = true
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	failed := false
	modDirs := map[string]string{}
	sem := make(chan bool, 8)
	for _, p := range all {
		if p.Standard || p.Module == nil || !p.Module.Main && !want[p.Module.Path] {
			continue
		}
		root := filepath.Join(*out, strings.NewReplacer("/", "_", ".", "_").Replace(p.Module.Path))
		if _, ok := modDirs[p.Module.Path]; !ok {
			modDirs[p.Module.Path] = root
			os.MkdirAll(root, 0o755)
			gv := p.Module.GoVersion
			if !atLeast(gv, 23) {
				gv = "1.24"
			}
			os.WriteFile(filepath.Join(root, "go.mod"), []byte("module "+p.Module.Path+"\n\ngo "+gv+"\n"), 0o644)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			rel, _ := filepath.Rel(p.Module.Dir, p.Dir)
			if err := doPkg(p, filepath.Join(root, rel), exports); err != nil {
				mu.Lock()
				failed = true
				fmt.Fprintf(os.Stderr, "instr: %s: %v\n", p.ImportPath, err)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if failed {
		os.Exit(1)
	}
	for m, d := range modDirs {
		fmt.Printf("%s %s\n", m, d)
	}
}

func atLeast(v string, minor int) bool {
	parts := strings.Split(v, ".")
	if len(parts) < 2 {
		return false
	}
	m, _ := strconv.Atoi(parts[1])
	return m >= minor
}

func doPkg(p *listPkg, dst string, exports map[string]string) error {
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return err
	}
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, af)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup)}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		return err
	}
	mut := mutableVars(info, files)
	for i, af := range files {
		r := &rewriter{info: info, fset: fset, file: af, main: p.Module.Main, mut: mut}
		if err := r.rewrite(); err != nil {
			return err
		}
		var b bytes.Buffer
		if err := (&printer.Config{Mode: printer.SourcePos | printer.TabIndent, Tabwidth: 8}).Fprint(&b, fset, af); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dst, p.GoFiles[i]), b.Bytes(), 0o644); err != nil {
			return err
		}
	}
	for _, f := range append(append([]string{}, p.OtherFiles...), p.EmbedFiles...) {
		data, err := os.ReadFile(filepath.Join(p.Dir, f))
		if err != nil {
			return err
		}
		os.MkdirAll(filepath.Dir(filepath.Join(dst, f)), 0o755)
		if err := os.WriteFile(filepath.Join(dst, f), data, 0o644); err != nil {
			return err
		}
	}
	return nil
}

type rewriter struct {
	info *types.Info
	fset *token.FileSet
	file *ast.File
	main bool
	mut  map[*types.Var]bool
	used bool
	seq  int

	two      map[*ast.UnaryExpr]bool // v, ok := <-ch
	comm     map[ast.Node]bool       // communication of a select clause
	mapWrite map[*ast.IndexExpr]bool
	mapRead  map[*ast.IndexExpr]bool
	mapKey   map[*ast.IndexExpr]bool
	rangeMap map[*ast.RangeStmt]bool
	rangeCh  map[*ast.RangeStmt]bool
	builtin  map[*ast.CallExpr]string
	lenMap   map[*ast.CallExpr]bool
	gosched  map[*ast.CallExpr]bool
	goArgs   map[*ast.GoStmt][]bool // argument must be inlined
	goInline map[*ast.GoStmt]bool   // function expression may be inlined
	touch    map[ast.Stmt]bool
}

func (r *rewriter) vs(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("vsched__"), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.vs(name), Args: args}
}

func (r *rewriter) tmp(p string) *ast.Ident {
	r.seq++
	return ast.NewIdent(fmt.Sprintf("%s__%d", p, r.seq))
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := types.Unalias(t).(*types.TypeParam); ok {
		// the core type of a type parameter such as M ~map[K]V.
		if i, ok := p.Constraint().Underlying().(*types.Interface); ok && i.NumEmbeddeds() == 1 {
			switch e := types.Unalias(i.EmbeddedType(0)).(type) {
			case *types.Union:
				if e.Len() == 1 {
					return e.Term(0).Type().Underlying()
				}
			case *types.Interface, *types.Named:
			default:
				return e.Underlying()
			}
		}
	}
	return t.Underlying()
}

func isChan(t types.Type) bool { _, ok := under(t).(*types.Chan); return ok }
func asMap(t types.Type) *types.Map {
	m, _ := under(t).(*types.Map)
	return m
}

func unordered(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return false
	case *types.Struct, *types.Array:
		_ = u
		return true
	default:
		return true
	}
}

func (r *rewriter) analyse() {
	r.two = map[*ast.UnaryExpr]bool{}
	r.comm = map[ast.Node]bool{}
	r.mapWrite = map[*ast.IndexExpr]bool{}
	r.mapRead = map[*ast.IndexExpr]bool{}
	r.mapKey = map[*ast.IndexExpr]bool{}
	r.rangeMap = map[*ast.RangeStmt]bool{}
	r.rangeCh = map[*ast.RangeStmt]bool{}
	r.builtin = map[*ast.CallExpr]string{}
	r.lenMap = map[*ast.CallExpr]bool{}
	r.gosched = map[*ast.CallExpr]bool{}
	r.goArgs = map[*ast.GoStmt][]bool{}
	r.goInline = map[*ast.GoStmt]bool{}
	r.touch = map[ast.Stmt]bool{}
	write := func(e ast.Expr) {
		if ix, ok := ast.Unparen(e).(*ast.IndexExpr); ok {
			if m := asMap(r.info.TypeOf(ix.X)); m != nil {
				r.mapWrite[ix] = true
				r.mapKey[ix] = unordered(m.Key())
			}
		}
	}
	recv := func(e ast.Expr) *ast.UnaryExpr {
		if u, ok := ast.Unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return u
		}
		return nil
	}
	ast.Inspect(r.file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u := recv(n.Rhs[0]); u != nil {
					r.two[u] = true
				}
			}
			for _, l := range n.Lhs {
				write(l)
			}
		case *ast.IncDecStmt:
			write(n.X)
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u := recv(n.Values[0]); u != nil {
					r.two[u] = true
				}
			}
		case *ast.CommClause:
			switch c := n.Comm.(type) {
			case *ast.SendStmt:
				r.comm[c] = true
			case *ast.ExprStmt:
				r.comm[recv(c.X)] = true
			case *ast.AssignStmt:
				r.comm[recv(c.Rhs[0])] = true
			}
		case *ast.IndexExpr:
			if asMap(r.info.TypeOf(n.X)) != nil && !r.mapWrite[n] {
				r.mapRead[n] = true
			}
		case *ast.RangeStmt:
			t := r.info.TypeOf(n.X)
			if asMap(t) != nil {
				r.rangeMap[n] = true
			} else if isChan(t) {
				r.rangeCh[n] = true
			}
			if n.Tok == token.ASSIGN {
				if n.Key != nil {
					write(n.Key)
				}
				if n.Value != nil {
					write(n.Value)
				}
			}
		case *ast.CallExpr:
			if id, ok := ast.Unparen(n.Fun).(*ast.Ident); ok {
				if b, ok := r.info.Uses[id].(*types.Builtin); ok {
					r.builtin[n] = b.Name()
					if len(n.Args) > 0 && asMap(r.info.TypeOf(n.Args[0])) != nil {
						r.lenMap[n] = true
					}
				}
			}
			if se, ok := ast.Unparen(n.Fun).(*ast.SelectorExpr); ok {
				if f, ok := r.info.Uses[se.Sel].(*types.Func); ok && f.Pkg() != nil && f.Pkg().Path() == "runtime" && f.Name() == "Gosched" {
					r.gosched[n] = true
				}
			}
		case *ast.GoStmt:
			var in []bool
			for _, a := range n.Call.Args {
				tv := r.info.Types[a]
				_, tuple := tv.Type.(*types.Tuple)
				basic, _ := tv.Type.(*types.Basic)
				in = append(in, tuple || tv.Value != nil || tv.IsNil() || basic != nil && basic.Info()&types.IsUntyped != 0)
			}
			r.goArgs[n] = in
			switch f := ast.Unparen(n.Call.Fun).(type) {
			case *ast.FuncLit:
				r.goInline[n] = true
			case *ast.Ident:
				switch r.info.Uses[f].(type) {
				case *types.Func, *types.Builtin:
					r.goInline[n] = true
				}
			case *ast.SelectorExpr:
				if _, ok := r.info.Selections[f]; !ok {
					if _, ok := r.info.Uses[f.Sel].(*types.Func); ok {
						r.goInline[n] = true // pkg.Func
					}
				}
			case *ast.IndexExpr, *ast.IndexListExpr:
				r.goInline[n] = true
			}
		}
		if s, ok := n.(ast.Stmt); ok && r.main {
			if r.touches(s) {
				r.touch[s] = true
			}
		}
		return true
	})
}

// touches reports whether a statement (its simple part) accesses memory that other goroutines may share.
func (r *rewriter) touches(s ast.Stmt) bool {
	var parts []ast.Node
	switch s := s.(type) {
	case *ast.AssignStmt, *ast.IncDecStmt, *ast.ReturnStmt, *ast.ExprStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt, *ast.DeclStmt:
		parts = append(parts, s)
	case *ast.IfStmt:
		if s.Init != nil {
			parts = append(parts, s.Init)
		}
		parts = append(parts, s.Cond)
	case *ast.SwitchStmt:
		if s.Init != nil {
			parts = append(parts, s.Init)
		}
		if s.Tag != nil {
			parts = append(parts, s.Tag)
		}
	case *ast.RangeStmt:
		parts = append(parts, s.X)
	case *ast.ForStmt:
		if s.Cond != nil {
			parts = append(parts, s.Cond)
		}
	default:
		return false
	}
	found := false
	for _, p := range parts {
		ast.Inspect(p, func(n ast.Node) bool {
			if found {
				return false
			}
			switch n := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.SelectorExpr:
				if sel, ok := r.info.Selections[n]; ok && sel.Kind() == types.FieldVal {
					if r.mut[sel.Obj().(*types.Var)] && r.shared(n.X) {
						found = true
					}
				} else if v, ok := r.info.Uses[n.Sel].(*types.Var); ok && r.mut[v] && !v.IsField() {
					found = true
				}
			case *ast.StarExpr:
				if tv, ok := r.info.Types[n]; ok && tv.IsValue() {
					found = true
				}
			case *ast.Ident:
				if v, ok := r.info.Uses[n].(*types.Var); ok && r.mut[v] && !v.IsField() {
					found = true
				}
			}
			return true
		})
	}
	return found
}

// shared reports whether the value e denotes may be reachable by other goroutines: it is behind a pointer or global.
func (r *rewriter) shared(e ast.Expr) bool {
	if _, ptr := under(r.info.TypeOf(e)).(*types.Pointer); ptr {
		return true
	}
	switch e := ast.Unparen(e).(type) {
	case *ast.SelectorExpr:
		if sel, ok := r.info.Selections[e]; ok {
			return sel.Indirect() || r.shared(e.X)
		}
		return true
	case *ast.IndexExpr:
		return true
	case *ast.Ident:
		v, ok := r.info.Uses[e].(*types.Var)
		return ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
	}
	return false
}

// mutableVars are the fields and package variables that some function body assigns to (or takes the address of).
func mutableVars(info *types.Info, files []*ast.File) map[*types.Var]bool {
	mut := map[*types.Var]bool{}
	var mark func(e ast.Expr)
	mark = func(e ast.Expr) {
		switch e := ast.Unparen(e).(type) {
		case *ast.SelectorExpr:
			if sel, ok := info.Selections[e]; ok {
				if v, ok := sel.Obj().(*types.Var); ok {
					mut[v] = true
				}
				if _, ptr := under(info.TypeOf(e.X)).(*types.Pointer); !ptr {
					mark(e.X)
				}
			} else if v, ok := info.Uses[e.Sel].(*types.Var); ok {
				mut[v] = true
			}
		case *ast.IndexExpr:
			mark(e.X)
		case *ast.Ident:
			if v, ok := info.Uses[e].(*types.Var); ok && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				mut[v] = true
			}
		}
	}
	atomicArg := map[ast.Expr]bool{}
	visit := func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			if n.Tok != token.DEFINE {
				for _, l := range n.Lhs {
					mark(l)
				}
			}
		case *ast.IncDecStmt:
			mark(n.X)
		case *ast.RangeStmt:
			if n.Tok == token.ASSIGN {
				if n.Key != nil {
					mark(n.Key)
				}
				if n.Value != nil {
					mark(n.Value)
				}
			}
		case *ast.CallExpr:
			if se, ok := ast.Unparen(n.Fun).(*ast.SelectorExpr); ok {
				if f, ok := info.Uses[se.Sel].(*types.Func); ok && f.Pkg() != nil && f.Pkg().Path() == "sync/atomic" {
					for _, a := range n.Args {
						atomicArg[a] = true
					}
				}
			}
			if id, ok := ast.Unparen(n.Fun).(*ast.Ident); ok {
				if b, ok := info.Uses[id].(*types.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
					mark(n.Args[0])
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.AND && !atomicArg[n] {
				mark(n.X)
			}
		}
		return true
	}
	for _, f := range files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				ast.Inspect(fd.Body, visit)
			}
		}
	}
	for v := range mut {
		t := v.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if nm, ok := t.(*types.Named); ok && nm.Obj().Pkg() != nil {
			if pp := nm.Obj().Pkg().Path(); pp == "sync" || pp == "sync/atomic" {
				delete(mut, v)
			}
		}
	}
	return mut
}

func (r *rewriter) insertY() {
	fix := func(list []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range list {
			t := s
			for {
				if l, ok := t.(*ast.LabeledStmt); ok {
					t = l.Stmt
					continue
				}
				break
			}
			if r.touch[t] {
				out = append(out, &ast.ExprStmt{X: r.call("Y")})
			}
			out = append(out, s)
		}
		return out
	}
	ast.Inspect(r.file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			n.List = fix(n.List)
		case *ast.CaseClause:
			n.Body = fix(n.Body)
		case *ast.CommClause:
			n.Body = fix(n.Body)
		}
		return true
	})
}

func (r *rewriter) rewrite() error {
	r.analyse()
	if r.main {
		r.insertY()
	}
	astutil.Apply(r.file, nil, func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.UnaryExpr:
			if n.Op != token.ARROW || r.comm[n] {
				return true
			}
			if r.two[n] {
				c.Replace(r.call("Recv2", n.X))
			} else {
				c.Replace(r.call("Recv", n.X))
			}
		case *ast.SendStmt:
			if r.comm[n] {
				return true
			}
			c.Replace(&ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("SendTo", n.Chan), Args: []ast.Expr{n.Value}}})
		case *ast.IndexExpr:
			if !r.main {
				if r.mapWrite[n] && r.mapKey[n] {
					n.Index = r.call("K", n.Index)
				}
				return true
			}
			if r.mapWrite[n] {
				n.X = r.call("MW", n.X)
				if r.mapKey[n] {
					n.Index = r.call("K", n.Index)
				}
			} else if r.mapRead[n] {
				n.X = r.call("MR", n.X)
			}
		case *ast.CallExpr:
			if r.gosched[n] {
				n.Fun = r.vs("Yield")
				return true
			}
			switch r.builtin[n] {
			case "close":
				n.Fun = r.vs("Close")
			case "delete", "clear":
				if r.lenMap[n] && r.main {
					n.Args[0] = r.call("MW", n.Args[0])
				}
			case "len":
				if r.lenMap[n] && r.main {
					n.Args[0] = r.call("MR", n.Args[0])
				}
			}
		case *ast.RangeStmt:
			if r.rangeMap[n] {
				n.X = r.call("RangeMap", n.X)
			} else if r.rangeCh[n] {
				n.X = r.call("Range", n.X)
			}
		case *ast.GoStmt:
			c.Replace(r.goStmt(n))
		case *ast.SelectStmt:
			c.Replace(r.selectStmt(n))
		}
		return true
	})
	// imports
	for _, d := range r.file.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			if to, ok := swaps[path]; ok {
				if is.Name == nil {
					is.Name = ast.NewIdent(baseName[path])
				}
				is.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(to)}
			}
			is.Comment, is.Doc = nil, nil
		}
	}
	if r.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent("vsched__"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"vsched"`}}
		r.file.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, r.file.Decls...)
	}
	r.dropUnusedRuntime()
	r.keepDirectives()
	return nil
}

// dropUnusedRuntime keeps an import of runtime used after Gosched calls were rewritten.
func (r *rewriter) dropUnusedRuntime() {
	if len(r.gosched) == 0 {
		return
	}
	for _, is := range r.file.Imports {
		if is.Path.Value == `"runtime"` {
			name := "runtime"
			if is.Name != nil {
				name = is.Name.Name
			}
			r.file.Decls = append(r.file.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
				Names:  []*ast.Ident{ast.NewIdent("_")},
				Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent("Gosched")}}}}})
		}
	}
}

// keepDirectives drops ordinary comments (they would be misplaced) and keeps //go: directives attached to declarations.
func (r *rewriter) keepDirectives() {
	var keep []*ast.CommentGroup
	filter := func(g *ast.CommentGroup) *ast.CommentGroup {
		if g == nil {
			return nil
		}
		var l []*ast.Comment
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:") && !strings.HasPrefix(c.Text, "//go:build") && !strings.HasPrefix(c.Text, "//go:generate") {
				l = append(l, c)
			}
		}
		if len(l) == 0 {
			return nil
		}
		ng := &ast.CommentGroup{List: l}
		keep = append(keep, ng)
		return ng
	}
	r.file.Doc = nil
	for _, d := range r.file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			d.Doc = filter(d.Doc)
		case *ast.GenDecl:
			d.Doc = filter(d.Doc)
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.ValueSpec:
					s.Doc, s.Comment = filter(s.Doc), nil
				case *ast.TypeSpec:
					s.Doc, s.Comment = filter(s.Doc), nil
				}
			}
		}
	}
	ast.Inspect(r.file, func(n ast.Node) bool {
		if f, ok := n.(*ast.Field); ok {
			f.Doc, f.Comment = nil, nil
		}
		return true
	})
	r.file.Comments = keep
}

func (r *rewriter) goStmt(n *ast.GoStmt) ast.Stmt {
	var lhs, rhs []ast.Expr
	fun := n.Call.Fun
	if !r.goInline[n] {
		f := r.tmp("f")
		lhs, rhs = append(lhs, f), append(rhs, fun)
		fun = f
	}
	args := append([]ast.Expr{}, n.Call.Args...)
	for i := range args {
		if !r.goArgs[n][i] {
			a := r.tmp("a")
			lhs, rhs = append(lhs, a), append(rhs, args[i])
			args[i] = a
		}
	}
	call := &ast.CallExpr{Fun: fun, Args: args}
	if n.Call.Ellipsis.IsValid() {
		call.Ellipsis = 1
	}
	if fl, ok := fun.(*ast.FuncLit); ok {
		call.Fun = &ast.ParenExpr{X: fl}
	}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}
	goCall := &ast.ExprStmt{X: r.call("Go", body)}
	if len(lhs) == 0 {
		return goCall
	}
	return &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}, goCall}}
}

func (r *rewriter) selectStmt(n *ast.SelectStmt) ast.Stmt {
	hasDefault := false
	var lhs, rhs, args []ast.Expr
	var clauses []ast.Stmt
	idx := 0
	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			clauses = append(clauses, &ast.CaseClause{Body: cc.Body})
			continue
		}
		c := r.tmp("c")
		body := cc.Body
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			lhs, rhs = append(lhs, c), append(rhs, &ast.CallExpr{Fun: r.call("CSend", cm.Chan), Args: []ast.Expr{cm.Value}})
		case *ast.ExprStmt:
			u := ast.Unparen(cm.X).(*ast.UnaryExpr)
			lhs, rhs = append(lhs, c), append(rhs, r.call("CRecv", u.X))
		case *ast.AssignStmt:
			u := ast.Unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			lhs, rhs = append(lhs, c), append(rhs, r.call("CRecv", u.X))
			vals := []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(c.Name), Sel: ast.NewIdent("Val")}}
			if len(cm.Lhs) == 2 {
				vals = append(vals, &ast.SelectorExpr{X: ast.NewIdent(c.Name), Sel: ast.NewIdent("OK")})
			}
			tok := cm.Tok
			if tok == token.DEFINE {
				blank := true
				for _, l := range cm.Lhs {
					if id, ok := l.(*ast.Ident); !ok || id.Name != "_" {
						blank = false
					}
				}
				if blank {
					tok = token.ASSIGN
				}
			}
			body = append([]ast.Stmt{&ast.AssignStmt{Lhs: cm.Lhs, Tok: tok, Rhs: vals}}, body...)
		}
		args = append(args, ast.NewIdent(c.Name))
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: body})
		idx++
	}
	if len(clauses) == 0 {
		return &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.call("BlockForever")},
			&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}}
	}
	if !hasDefault {
		clauses[len(clauses)-1].(*ast.CaseClause).List = nil
	}
	def := "false"
	if hasDefault {
		def = "true"
	}
	sel := r.call("Select", append([]ast.Expr{ast.NewIdent(def)}, args...)...)
	sw := &ast.SwitchStmt{Tag: sel, Body: &ast.BlockStmt{List: clauses}}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	return sw
}

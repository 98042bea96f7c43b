// genshim writes re-exports of a standard package's exported names that the shim in dir does not define itself.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

func main() {
	pkgPath, dir := os.Args[1], os.Args[2]
	fset := token.NewFileSet()
	have := map[string]bool{}
	pname := ""
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "_gen.go") {
			continue
		}
		af, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			panic(err)
		}
		pname = af.Name.Name
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	p, err := importer.ForCompiler(fset, "source", nil).Import(pkgPath)
	if err != nil {
		panic(err)
	}
	var b bytes.Buffer
	base := pkgPath[strings.LastIndexByte(pkgPath, '/')+1:]
	fmt.Fprintf(&b, "// Code generated by genshim; DO NOT EDIT.\n\npackage %s\n\nimport std %q\n\n", pname, pkgPath)
	_ = base
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() || have[n] {
			continue
		}
		switch o := o.(type) {
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = std.%s\n", n, n)
		case *types.Const:
			fmt.Fprintf(&b, "const %s = std.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = std.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = std.%s\n", n, n)
		}
	}
	src, err := format.Source(b.Bytes())
	if err != nil {
		panic(err)
	}
	os.WriteFile(filepath.Join(dir, "std_gen.go"), src, 0o644)
}

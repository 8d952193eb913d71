package main

import (
	"bytes"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"path/filepath"
	"strconv"
	"strings"
)

// prune returns the harness sources reduced to the declarations the wanted
// functions reach by name, so that the native build compiles little.
func prune(dir string, wanted []string) map[string][]byte {
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	fset := token.NewFileSet()
	type decl struct {
		d    ast.Decl
		spec ast.Spec
		uses []string
	}
	by := map[string][]*decl{}
	owner := map[ast.Node]*decl{}
	keep := map[*decl]bool{}
	var work []*decl
	idents := func(n ast.Node) (r []string) {
		ast.Inspect(n, func(x ast.Node) bool {
			if id, ok := x.(*ast.Ident); ok {
				r = append(r, id.Name)
			}
			return true
		})
		return
	}
	add := func(name string, d *decl) { by[name] = append(by[name], d) }
	parsed := map[string]*ast.File{}
	for _, p := range files {
		f, err := parser.ParseFile(fset, p, nil, 0)
		if err != nil {
			return nil
		}
		parsed[p] = f
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				x := &decl{d: d, uses: idents(d)}
				owner[d] = x
				if d.Recv != nil {
					// kept with its receiver type
					t := d.Recv.List[0].Type
					for _, n := range idents(t) {
						add(n, x)
					}
				} else if d.Name.Name == "init" || d.Name.Name == "_" {
					keep[x] = true
					work = append(work, x)
				} else {
					add(d.Name.Name, x)
				}
			case *ast.GenDecl:
				if d.Tok == token.IMPORT {
					continue
				}
				if d.Tok == token.CONST {
					// iota blocks stay whole
					x := &decl{d: d, uses: idents(d)}
					owner[d] = x
					for _, n := range idents(d) {
						add(n, x)
					}
					continue
				}
				for _, s := range d.Specs {
					x := &decl{d: d, spec: s, uses: idents(s)}
					owner[s] = x
					switch s := s.(type) {
					case *ast.TypeSpec:
						add(s.Name.Name, x)
					case *ast.ValueSpec:
						for _, n := range s.Names {
							if n.Name == "_" {
								continue
							}
							add(n.Name, x)
						}
					}
				}
			}
		}
	}
	need := func(n string) {
		for _, x := range by[n] {
			if !keep[x] {
				keep[x] = true
				work = append(work, x)
			}
		}
	}
	for _, w := range wanted {
		need(w)
	}
	need("Registry")
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for _, n := range x.uses {
			need(n)
		}
	}
	out := map[string][]byte{}
	for p, f := range parsed {
		var ds []ast.Decl
		var imports *ast.GenDecl
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if keep[owner[x]] {
					ds = append(ds, x)
				}
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					imports = x
					continue
				}
				if x.Tok == token.CONST {
					if keep[owner[x]] {
						ds = append(ds, x)
					}
					continue
				}
				var ss []ast.Spec
				for _, s := range x.Specs {
					if keep[owner[s]] {
						ss = append(ss, s)
					}
				}
				if len(ss) > 0 {
					x.Specs = ss
					ds = append(ds, x)
				}
			}
		}
		used := map[string]bool{}
		for _, d := range ds {
			ast.Inspect(d, func(n ast.Node) bool {
				if s, ok := n.(*ast.SelectorExpr); ok {
					if id, ok := s.X.(*ast.Ident); ok {
						used[id.Name] = true
					}
				}
				return true
			})
		}
		if imports != nil {
			var ss []ast.Spec
			for _, s := range imports.Specs {
				is := s.(*ast.ImportSpec)
				path, _ := strconv.Unquote(is.Path.Value)
				name := path[strings.LastIndex(path, "/")+1:]
				if is.Name != nil {
					name = is.Name.Name
				}
				if used[name] {
					ss = append(ss, s)
				}
			}
			if len(ss) > 0 {
				imports.Specs = ss
				ds = append([]ast.Decl{imports}, ds...)
			}
		}
		f.Decls = ds
		var b bytes.Buffer
		if len(ds) == 0 {
			b.WriteString("package " + f.Name.Name + "\n")
		} else if printer.Fprint(&b, fset, f) != nil {
			return nil
		}
		out[p] = b.Bytes()
	}
	return out
}

func pruneInto(overlay map[string][]byte, hdir string, wanted []string) map[string][]byte {
	r := map[string][]byte{}
	for p, s := range prune(filepath.Join(hdir, "h"), wanted) {
		r[p] = s
	}
	for p, s := range overlay {
		r[p] = s
	}
	return r
}

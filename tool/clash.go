package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// A harness is compiled into the package it checks. Where the package declares
// a name that the harness also uses for something of its own, the harness gives
// way: unclash writes copies of its files with that name changed.

// declared lists the package-level names of a file.
func declared(f *ast.File, into map[string]bool) {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil {
				into[d.Name.Name] = true
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					into[s.Name.Name] = true
				case *ast.ValueSpec:
					for _, n := range s.Names {
						into[n.Name] = true
					}
				}
			}
		}
	}
	delete(into, "init")
	delete(into, "_")
}

// unclash returns, for the harness files that need one, a changed copy.
func unclash(pkgFiles, harness []string, out string) (map[string]string, error) {
	theirs, ours := map[string]bool{}, map[string]bool{}
	fset := token.NewFileSet()
	for _, p := range pkgFiles {
		f, err := parser.ParseFile(fset, p, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		declared(f, theirs)
	}
	files := map[string]*ast.File{}
	for _, p := range harness {
		f, err := parser.ParseFile(fset, p, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		declared(f, ours)
		files[p] = f
	}
	clash := map[string]bool{}
	for n := range ours {
		if theirs[n] || os.Getenv("VERIF_UNCLASH_ALL") != "" && !strings.HasPrefix(n, "Test") && !strings.HasPrefix(n, "zz") {
			clash[n] = true
		}
	}
	copies := map[string]string{}
	if len(clash) == 0 {
		return copies, nil
	}
	for p, f := range files {
		at := renames(f, clash)
		if len(at) == 0 {
			continue
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		var dst []byte
		last := 0
		for _, id := range at {
			o := fset.Position(id.Pos()).Offset
			dst = append(dst, src[last:o]...)
			dst = append(dst, "zzVerif_"...)
			last = o
		}
		dst = append(dst, src[last:]...)
		if err := os.MkdirAll(out, 0o755); err != nil {
			return nil, err
		}
		c := filepath.Join(out, filepath.Base(p))
		if err := os.WriteFile(c, dst, 0o644); err != nil {
			return nil, err
		}
		copies[p] = c
	}
	return copies, nil
}

// renames lists the identifiers of f with one of the names that are not the
// name of a field, a method or a label. (Local variables of that name change
// along with the rest, which leaves what they shadow as it was.)
func renames(f *ast.File, names map[string]bool) []*ast.Ident {
	skip := map[*ast.Ident]bool{f.Name: true}
	fields := func(l *ast.FieldList) {
		for _, fd := range l.List {
			for _, n := range fd.Names {
				skip[n] = true
			}
		}
	}
	var found []*ast.Ident
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.SelectorExpr:
			skip[n.Sel] = true
		case *ast.StructType:
			fields(n.Fields)
		case *ast.InterfaceType:
			fields(n.Methods)
		case *ast.FuncDecl:
			if n.Recv != nil {
				skip[n.Name] = true
			}
		case *ast.LabeledStmt:
			skip[n.Label] = true
		case *ast.BranchStmt:
			if n.Label != nil {
				skip[n.Label] = true
			}
		case *ast.CompositeLit:
			if _, isMap := n.Type.(*ast.MapType); isMap {
				break
			}
			if _, isArray := n.Type.(*ast.ArrayType); isArray {
				break
			}
			for _, e := range n.Elts {
				if kv, ok := e.(*ast.KeyValueExpr); ok {
					if id, ok := kv.Key.(*ast.Ident); ok {
						skip[id] = true
					}
				}
			}
		case *ast.Ident:
			if names[n.Name] && !skip[n] {
				found = append(found, n)
			}
		}
		return true
	})
	sort.Slice(found, func(i, j int) bool { return found[i].Pos() < found[j].Pos() })
	return found
}

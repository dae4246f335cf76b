package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
)

// resetter makes the package-level variables of a package return to their
// initial values: every execution of the explorer then starts as a fresh
// program does.  Errors that are only ever declared stay what they are, so that
// they can be compared across executions.
type resetter struct {
	info  *types.Info
	inits []initEntry
	zero  []*ast.Ident // variables without an initial value
	funcs []string     // the package's init functions, in order
	vars  []string     // everything that is reset
}

type initEntry struct {
	file int
	spec *ast.ValueSpec
	val  int // index of the value
	lhs  []string
	name string
}

func newResetter(info *types.Info, files []*ast.File) *resetter {
	rs := &resetter{info: info}
	// what is assigned or has its address taken
	touched := map[types.Object]bool{}
	touch := func(e ast.Expr) {
		if id, ok := unparen(e).(*ast.Ident); ok {
			if o := info.Uses[id]; o != nil {
				touched[o] = true
			}
		}
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				for _, e := range x.Lhs {
					touch(e)
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					touch(x.X)
				}
			case *ast.RangeStmt:
				if x.Key != nil {
					touch(x.Key)
				}
				if x.Value != nil {
					touch(x.Value)
				}
			}
			return true
		})
	}
	errType := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	keep := func(o types.Object) bool { return types.Implements(o.Type(), errType) && !touched[o] }

	type place struct {
		file int
		spec *ast.ValueSpec
		val  int
	}
	at := map[ast.Expr]place{}
	for i, f := range files {
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.GenDecl:
				if x.Tok != token.VAR {
					continue
				}
				for _, sp := range x.Specs {
					v := sp.(*ast.ValueSpec)
					for k, e := range v.Values {
						at[e] = place{i, v, k}
					}
					if len(v.Values) == 0 {
						for _, id := range v.Names {
							o := info.Defs[id]
							if o == nil || id.Name == "_" || keep(o) {
								continue
							}
							rs.zero = append(rs.zero, id)
							rs.vars = append(rs.vars, id.Name)
						}
					}
				}
			case *ast.FuncDecl:
				if x.Recv == nil && x.Name.Name == "init" {
					n := fmt.Sprintf("mcvInit%d", len(rs.funcs)+1)
					x.Name = ast.NewIdent(n)
					rs.funcs = append(rs.funcs, n)
				}
			}
		}
	}
	for _, in := range info.InitOrder {
		p, ok := at[in.Rhs]
		if !ok {
			continue
		}
		e := initEntry{file: p.file, spec: p.spec, val: p.val, name: fmt.Sprintf("mcvReset%d", len(rs.inits)+1)}
		kept := true
		for _, l := range in.Lhs {
			e.lhs = append(e.lhs, l.Name())
			kept = kept && l.Name() != "_" && keep(l)
		}
		if kept {
			continue
		}
		for _, l := range e.lhs {
			if l != "_" {
				rs.vars = append(rs.vars, l)
			}
		}
		rs.inits = append(rs.inits, e)
	}
	return rs
}

// appendTo adds the re-initialisations that belong into the file.
func (rs *resetter) appendTo(i int, f *ast.File, r *rewriter) {
	for _, e := range rs.inits {
		if e.file != i {
			continue
		}
		as := &ast.AssignStmt{Tok: token.ASSIGN, Rhs: []ast.Expr{e.spec.Values[e.val]}}
		for _, l := range e.lhs {
			as.Lhs = append(as.Lhs, ast.NewIdent(l))
		}
		f.Decls = append(f.Decls, &ast.FuncDecl{Name: ast.NewIdent(e.name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{as}}})
		r.changed = true
	}
	if len(rs.funcs) > 0 {
		r.changed = true
	}
}

// file is the additional file of the package.
func (rs *resetter) file(pkg string) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "//go:build go1.21\n\npackage %s\n\nimport mcvs \"mcverif/vs\"\n\n", pkg)
	b.WriteString("func mcvReset() {\n")
	for _, id := range rs.zero {
		fmt.Fprintf(&b, "mcvs.Zero(&%s)\n", id.Name)
	}
	for _, e := range rs.inits {
		fmt.Fprintf(&b, "%s()\n", e.name)
	}
	for _, f := range rs.funcs {
		fmt.Fprintf(&b, "%s()\n", f)
	}
	b.WriteString("}\n\nfunc init() {\n")
	for _, f := range rs.funcs {
		fmt.Fprintf(&b, "%s()\n", f)
	}
	b.WriteString("mcvs.OnReset(mcvReset")
	for _, v := range rs.vars {
		fmt.Fprintf(&b, ", &%s", v)
	}
	b.WriteString(")\n}\n")
	out, err := format.Source(b.Bytes())
	if err != nil {
		fatal("%v", err)
	}
	return out
}

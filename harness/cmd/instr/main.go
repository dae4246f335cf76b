// Command instr rewrites the non-test Go files of the given packages so that
// their synchronisation, goroutines, clock and map iteration go through the
// controlled scheduler, and writes a go build overlay that swaps the rewritten
// files in.  It works on syntax and types only, never on names of the code
// under test.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct{ Path, GoVersion, Dir string }
}

var fset = token.NewFileSet()

func main() {
	out := flag.String("out", "", "output directory")
	full := flag.String("full", "", "comma separated packages to instrument fully")
	quiet := flag.String("quiet", "", "comma separated packages whose locks are shimmed without scheduling points")
	clock := flag.String("clock", "", "comma separated packages whose clock is virtualised")
	plain := flag.String("plain", "", "comma separated packages that only get textual replacements")
	repl := flag.String("repl", "", "FILE: textual replacements (json: [{file,old,new}])")
	flag.Parse()

	mode := map[string]string{}
	for _, p := range split(*full) {
		mode[p] = "full"
	}
	for _, p := range split(*quiet) {
		mode[p] = "quiet"
	}
	for _, p := range split(*clock) {
		mode[p] = "clock"
	}
	for _, p := range split(*plain) {
		mode[p] = "plain"
	}
	modCopies := map[string]string{} // module path -> copy
	args := []string{"list", "-deps", "-export", "-json=ImportPath,Dir,GoFiles,Export,Standard,Module"}
	for p := range mode {
		args = append(args, p)
	}
	cmd := exec.Command("go", args...)
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	pkgs := map[string]*pkgInfo{}
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		q := p
		pkgs[p.ImportPath] = &q
	}
	lookup := func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(p.Export)
	}
	var repls []struct{ File, Old, New string }
	if *repl != "" {
		b, err := os.ReadFile(*repl)
		if err != nil {
			fatal("%v", err)
		}
		if err := json.Unmarshal(b, &repls); err != nil {
			fatal("%v", err)
		}
	}
	overlay := map[string]string{}
	imp := importer.ForCompiler(fset, "gc", lookup)
	for path, m := range mode {
		p := pkgs[path]
		if p == nil {
			fatal("package %s not found", path)
		}
		var files []*ast.File
		for _, f := range p.GoFiles {
			name := filepath.Join(p.Dir, f)
			af, err := parser.ParseFile(fset, name, nil, parser.ParseComments)
			if err != nil {
				fatal("%v", err)
			}
			files = append(files, af)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(err error) { fmt.Fprintln(os.Stderr, "instr: types:", err) }}
		conf.Check(path, fset, files, info)
		var rs *resetter
		if m == "full" {
			rs = newResetter(info, files)
		}
		for i, af := range files {
			name := filepath.Join(p.Dir, p.GoFiles[i])
			r := &rewriter{info: info, mode: m}
			r.file(af)
			if rs != nil {
				rs.appendTo(i, af, r)
			}
			if !r.changed {
				skip := true
				for _, x := range repls {
					if strings.HasSuffix(name, x.File) {
						skip = false
					}
				}
				if skip {
					continue
				}
			}
			src, err := render(af)
			if err != nil {
				fatal("%s: %v", name, err)
			}
			for _, x := range repls {
				if strings.HasSuffix(name, x.File) {
					if strings.Count(string(src), x.Old) != 1 {
						fatal("%s: %q occurs %d times", name, x.Old, strings.Count(string(src), x.Old))
					}
					src = []byte(strings.Replace(string(src), x.Old, x.New, 1))
				}
			}
			if rel, ok := underCache(p); ok {
				// the go command refuses overlays in the module cache: work on a
				// private copy of the module instead
				cp := modCopies[p.Module.Path]
				if cp == "" {
					cp = filepath.Join(*out, "mod_"+strings.ReplaceAll(p.Module.Path, "/", "_"))
					if err := copyModule(p.Module.Dir, cp, p.Module.Path); err != nil {
						fatal("%v", err)
					}
					modCopies[p.Module.Path] = cp
				}
				if err := os.WriteFile(filepath.Join(cp, rel, p.GoFiles[i]), src, 0o644); err != nil {
					fatal("%v", err)
				}
				continue
			}
			dst := filepath.Join(*out, strings.ReplaceAll(path, "/", "_")+"__"+p.GoFiles[i])
			if err := os.WriteFile(dst, src, 0o644); err != nil {
				fatal("%v", err)
			}
			overlay[name] = dst
		}
		if rs != nil {
			if _, cached := underCache(p); cached {
				fatal("%s: cannot add a file to a package in the module cache", path)
			}
			dst := filepath.Join(*out, strings.ReplaceAll(path, "/", "_")+"__zz_mcverif_reset.go")
			if err := os.WriteFile(dst, rs.file(files[0].Name.Name), 0o644); err != nil {
				fatal("%v", err)
			}
			overlay[filepath.Join(p.Dir, "zz_mcverif_reset.go")] = dst
		}
	}
	writeModfile(*out, modCopies)
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
}

// underCache reports whether the package lies in the module cache and its path
// inside its module.
func underCache(p *pkgInfo) (string, bool) {
	if p.Module == nil || p.Module.Dir == "" || p.Module.Path == "mcverif" {
		return "", false
	}
	if !strings.Contains(p.Dir, "/pkg/mod/") {
		return "", false
	}
	rel, err := filepath.Rel(p.Module.Dir, p.Dir)
	return rel, err == nil
}

func copyModule(src, dst, path string) error {
	err := filepath.WalkDir(src, func(name string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, name)
		to := filepath.Join(dst, rel)
		if d.IsDir() {
			if rel == "cmd" || rel == "testdata" {
				return filepath.SkipDir
			}
			return os.MkdirAll(to, 0o755)
		}
		if strings.HasSuffix(name, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(name)
		if err != nil {
			return err
		}
		return os.WriteFile(to, b, 0o644)
	})
	if err != nil {
		return err
	}
	gm := filepath.Join(dst, "go.mod")
	if _, err := os.Stat(gm); err != nil {
		return os.WriteFile(gm, []byte("module "+path+"\n\ngo 1.16\n"), 0o644)
	}
	return nil
}

// writeModfile writes go.mod and go.sum for -modfile, with the module copies
// as replacements.
func writeModfile(out string, copies map[string]string) {
	b, err := os.ReadFile("go.mod")
	if err != nil {
		fatal("%v", err)
	}
	for path, dir := range copies {
		b = append(b, []byte("\nreplace "+path+" => "+dir+"\n")...)
	}
	if err := os.WriteFile(filepath.Join(out, "go.mod"), b, 0o644); err != nil {
		fatal("%v", err)
	}
	if b, err = os.ReadFile("go.sum"); err == nil {
		err = os.WriteFile(filepath.Join(out, "go.sum"), b, 0o644)
	}
	if err != nil {
		fatal("%v", err)
	}
}

func split(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ",")
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

// render prints the rewritten file with a language-version line (the rewritten
// code calls generic functions; go1.21 keeps the old loop variable semantics).
func render(f *ast.File) ([]byte, error) {
	constraint := ""
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build ") {
				constraint = strings.TrimPrefix(c.Text, "//go:build ")
			}
		}
	}
	// comments carry positions that no longer match; keep only directives by
	// dropping all comments (cgo is not used by the packages we rewrite).
	f.Comments = nil
	f.Doc = nil
	stripDocs(f)
	var buf bytes.Buffer
	if constraint != "" {
		fmt.Fprintf(&buf, "//go:build (%s) && go1.21\n\n", constraint)
	} else {
		buf.WriteString("//go:build go1.21\n\n")
	}
	if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

func stripDocs(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
}

type rewriter struct {
	info    *types.Info
	mode    string
	changed bool
	needVS  bool
	n       int
}

func (r *rewriter) tmp(p string) string {
	r.n++
	return fmt.Sprintf("mcv_%s%d", p, r.n)
}

func (r *rewriter) file(f *ast.File) {
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		var to, name string
		switch {
		case path == "sync" && r.mode == "full":
			to, name = "mcverif/vsync", "sync"
		case path == "sync" && r.mode == "quiet":
			to, name = "mcverif/vsyncq", "sync"
		case path == "sync/atomic" && r.mode == "full":
			to, name = "mcverif/vatomic", "atomic"
		case path == "time" && (r.mode == "full" || r.mode == "clock"):
			to, name = "mcverif/vtime", "time"
		case path == "context" && r.mode == "full":
			to, name = "mcverif/vcontext", "context"
		default:
			continue
		}
		if im.Name == nil {
			im.Name = ast.NewIdent(name)
		}
		im.Path.Value = strconv.Quote(to)
		im.EndPos = 0
		r.changed = true
	}
	if r.mode != "full" {
		return
	}
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Body != nil {
				r.block(x.Body)
			}
		case *ast.GenDecl:
			r.exprsIn(x)
		}
	}
	if r.needVS {
		spec := &ast.ImportSpec{Name: ast.NewIdent("mcvs"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"mcverif/vs"`}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
		r.changed = true
	}
}

func (r *rewriter) vs(name string, args ...ast.Expr) *ast.CallExpr {
	r.needVS = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("mcvs"), Sel: ast.NewIdent(name)}, Args: args}
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *rewriter) stmts(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		out = append(out, r.stmt(s))
	}
	return out
}

// stmt rewrites one statement (children first).
func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(x)
	case *ast.LabeledStmt:
		x.Stmt = r.stmt(x.Stmt)
	case *ast.IfStmt:
		if x.Init != nil {
			x.Init = r.stmt(x.Init)
		}
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		if x.Else != nil {
			x.Else = r.stmt(x.Else)
		}
	case *ast.ForStmt:
		if x.Init != nil {
			x.Init = r.stmt(x.Init)
		}
		x.Cond = r.expr(x.Cond)
		if x.Post != nil {
			x.Post = r.stmt(x.Post)
		}
		r.block(x.Body)
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	case *ast.SwitchStmt:
		if x.Init != nil {
			x.Init = r.stmt(x.Init)
		}
		x.Tag = r.expr(x.Tag)
		r.block(x.Body)
	case *ast.TypeSwitchStmt:
		if x.Init != nil {
			x.Init = r.stmt(x.Init)
		}
		x.Assign = r.stmt(x.Assign)
		r.block(x.Body)
	case *ast.CaseClause:
		for i := range x.List {
			x.List[i] = r.expr(x.List[i])
		}
		x.Body = r.stmts(x.Body)
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.SendStmt:
		call := r.vs("SendTo", r.expr(x.Chan))
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: call, Args: []ast.Expr{r.expr(x.Value)}}}
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				for i := range x.Lhs {
					x.Lhs[i] = r.expr(x.Lhs[i])
				}
				x.Rhs[0] = r.vs("Recv2", r.expr(u.X))
				return x
			}
		}
		r.exprsIn(x)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok && len(v.Names) == 2 && len(v.Values) == 1 {
					if u, ok := unparen(v.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						v.Values[0] = r.vs("Recv2", r.expr(u.X))
						continue
					}
				}
			}
			r.exprsIn(g)
		}
	default:
		r.exprsIn(s)
	}
	return s
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// exprsIn rewrites the expressions directly below a simple node.
func (r *rewriter) exprsIn(n ast.Node) {
	switch x := n.(type) {
	case *ast.GenDecl:
		for _, sp := range x.Specs {
			if v, ok := sp.(*ast.ValueSpec); ok {
				for i := range v.Values {
					v.Values[i] = r.expr(v.Values[i])
				}
			}
		}
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.IncDecStmt:
		x.X = r.expr(x.X)
	case *ast.AssignStmt:
		for i := range x.Lhs {
			x.Lhs[i] = r.expr(x.Lhs[i])
		}
		for i := range x.Rhs {
			x.Rhs[i] = r.expr(x.Rhs[i])
		}
	case *ast.DeferStmt:
		x.Call = r.call(x.Call)
	case *ast.ReturnStmt:
		for i := range x.Results {
			x.Results[i] = r.expr(x.Results[i])
		}
	}
}

func (r *rewriter) isBuiltin(id *ast.Ident, name string) bool {
	if id.Name != name {
		return false
	}
	if o := r.info.Uses[id]; o != nil {
		_, ok := o.(*types.Builtin)
		return ok
	}
	return true
}

func (r *rewriter) call(c *ast.CallExpr) *ast.CallExpr {
	if e, ok := r.expr(c).(*ast.CallExpr); ok {
		return e
	}
	return c
}

func (r *rewriter) list(es []ast.Expr) {
	for i := range es {
		es[i] = r.expr(es[i])
	}
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return r.vs("Recv", r.expr(x.X))
		}
		x.X = r.expr(x.X)
	case *ast.BinaryExpr:
		x.X = r.expr(x.X)
		x.Y = r.expr(x.Y)
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.SelectorExpr:
		x.X = r.expr(x.X)
	case *ast.IndexExpr:
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
	case *ast.SliceExpr:
		x.X = r.expr(x.X)
		x.Low = r.expr(x.Low)
		x.High = r.expr(x.High)
		x.Max = r.expr(x.Max)
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
	case *ast.CompositeLit:
		r.list(x.Elts)
	case *ast.KeyValueExpr:
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
	case *ast.FuncLit:
		r.block(x.Body)
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 && r.isBuiltin(id, "close") {
			return r.vs("Close", r.expr(x.Args[0]))
		}
		x.Fun = r.expr(x.Fun)
		r.list(x.Args)
	}
	return e
}

func (r *rewriter) under(e ast.Expr) types.Type {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return nil
	}
	return tv.Type.Underlying()
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || (ok && id.Name == "_")
}

func sel(x, name string) ast.Expr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(x), Sel: ast.NewIdent(name)}}
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	u := r.under(x.X)
	switch u.(type) {
	case *types.Map:
		it := r.tmp("it")
		r.block(x.Body)
		var pre []ast.Stmt
		if !isBlank(x.Key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{sel(it, "Key")}})
		}
		if !isBlank(x.Value) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{x.Value}, Tok: x.Tok, Rhs: []ast.Expr{sel(it, "Val")}})
		}
		body := &ast.BlockStmt{List: append(pre, x.Body)}
		if x.Tok != token.DEFINE || len(pre) == 0 {
			body = &ast.BlockStmt{List: append(pre, x.Body.List...)}
		}
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(it)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.vs("MapIter", r.expr(x.X))}},
			Cond: sel(it, "Next"),
			Body: body,
		}
	case *types.Chan:
		ch, v, ok := r.tmp("ch"), r.tmp("v"), r.tmp("ok")
		r.block(x.Body)
		var pre []ast.Stmt
		pre = append(pre,
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v), ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.vs("Recv2", ast.NewIdent(ch))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v)}},
		)
		if !isBlank(x.Key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{ast.NewIdent(v)}})
		}
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(ch)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(x.X)}},
			Body: &ast.BlockStmt{List: append(pre, x.Body)},
		}
	}
	x.X = r.expr(x.X)
	r.block(x.Body)
	return x
}

func (r *rewriter) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	if lit, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		r.block(lit.Body)
		return &ast.ExprStmt{X: r.vs("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: lit}}}}})}
	}
	var lhs, rhs []ast.Expr
	fun := r.expr(c.Fun)
	if _, ok := c.Fun.(*ast.FuncLit); !ok {
		if tv, ok := r.info.Types[c.Fun]; !ok || !tv.IsBuiltin() {
			f := r.tmp("f")
			lhs, rhs = append(lhs, ast.NewIdent(f)), append(rhs, fun)
			fun = ast.NewIdent(f)
		}
	}
	args := make([]ast.Expr, len(c.Args))
	multi := false
	if len(c.Args) == 1 {
		if tv, ok := r.info.Types[c.Args[0]]; ok {
			_, multi = tv.Type.(*types.Tuple)
		}
	}
	for i, a := range c.Args {
		tv, ok := r.info.Types[a]
		if multi || (ok && (tv.Value != nil || tv.IsNil())) {
			args[i] = r.expr(a)
			continue
		}
		v := r.tmp("a")
		lhs, rhs = append(lhs, ast.NewIdent(v)), append(rhs, r.expr(a))
		args[i] = ast.NewIdent(v)
	}
	call := &ast.CallExpr{Fun: fun, Args: args}
	if c.Ellipsis.IsValid() {
		call.Ellipsis = 1
	}
	g := &ast.ExprStmt{X: r.vs("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}})}
	if len(lhs) == 0 {
		return g
	}
	return &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}, g}}
}

func (r *rewriter) selectStmt(x *ast.SelectStmt) ast.Stmt {
	var lhs, rhs, ids []ast.Expr
	hasDefault := false
	var clauses []ast.Stmt
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			clauses = append(clauses, &ast.CaseClause{List: nil, Body: r.stmts(cc.Body)})
			continue
		}
		name := r.tmp("c")
		idx := len(ids)
		var pre []ast.Stmt
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, &ast.CallExpr{Fun: r.vs("SendCase", r.expr(cm.Chan)), Args: []ast.Expr{r.expr(cm.Value)}})
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			rhs = append(rhs, r.vs("RecvCase", r.expr(u.X)))
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			rhs = append(rhs, r.vs("RecvCase", r.expr(u.X)))
			m := "Val"
			if len(cm.Lhs) == 2 {
				m = "Val2"
			}
			r.list(cm.Lhs)
			pre = append(pre, &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: []ast.Expr{sel(name, m)}})
		}
		lhs = append(lhs, ast.NewIdent(name))
		ids = append(ids, ast.NewIdent(name))
		clauses = append(clauses, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}},
			Body: append(pre, r.stmts(cc.Body)...),
		})
	}
	if !hasDefault {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}})
	}
	def := "false"
	if hasDefault {
		def = "true"
	}
	sw := &ast.SwitchStmt{
		Tag:  r.vs("Select", append([]ast.Expr{ast.NewIdent(def)}, ids...)...),
		Body: &ast.BlockStmt{List: clauses},
	}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	return sw
}

// Package instr rewrites Go source so that every operation on which goroutines
// can communicate goes through the controlled runtime verif.local/vrt.
package instr

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Package describes a package to rewrite.
type Package struct {
	Path      string
	Files     []string // absolute paths
	GoVersion string   // language version of its module, "1.21"
	Quiet     bool     // third-party code: uncontended mutexes are not scheduling points
	NoSwap    bool     // do not replace dialing functions (the library that defines them)
}

var shadow = map[string]string{
	"sync":        "verif.local/vrt/vsync",
	"sync/atomic": "verif.local/vrt/vatomic",
	"time":        "verif.local/vrt/vtime",
	"context":     "verif.local/vrt/vctx",
}

// swap replaces uses of package members: "path.Name" -> alias import, name.
type repl struct{ alias, path, name string }

var swap = map[string]repl{
	"os.Exit":                               {"vrt__", "verif.local/vrt", "Fatal"},
	"runtime.Gosched":                       {"vrt__", "verif.local/vrt", "Yield"},
	"log.Fatal":                             {"vrt__", "verif.local/vrt", "LogFatal"},
	"log.Fatalf":                            {"vrt__", "verif.local/vrt", "LogFatalf"},
	"log.Fatalln":                           {"vrt__", "verif.local/vrt", "LogFatalln"},
	"net/http.ListenAndServe":               {"vrt__", "verif.local/vrt", "ListenAndServe"},
	"net/http.Handle":                       {"vrt__", "verif.local/vrt", "Handle"},
	"open-match.dev/mmf/server.StartServer": {"vrt__", "verif.local/vrt", "StartServer"},
	"google.golang.org/protobuf/types/known/timestamppb.Now": {"vgrpc__", "verif.local/vdep/vgrpc", "TimestampNow"},
}

func init() {
	for _, n := range []string{"Dial", "DialContext", "NewClient", "ClientConn"} {
		swap["google.golang.org/grpc."+n] = repl{"vgrpc__", "verif.local/vdep/vgrpc", n}
	}
	for _, n := range []string{"Dial", "DialContext", "DialURL", "DialURLContext", "DialTimeout"} {
		swap["github.com/gomodule/redigo/redis."+n] = repl{"vredis__", "verif.local/vdep/vredis", n}
	}
	for _, p := range []string{"math/rand", "math/rand/v2"} {
		for _, n := range []string{"Int", "Intn", "IntN", "Int31", "Int31n", "Int32", "Int32N", "Int63", "Int63n", "Int64", "Int64N", "Uint32", "Uint64", "Float32", "Float64", "Perm", "Shuffle", "N"} {
			swap[p+"."+n] = repl{"vrand__", "verif.local/vrt/vrand", n}
		}
	}
}

type rw struct {
	pkg     *Package
	fset    *token.FileSet
	file    *ast.File
	src     []byte
	info    *types.Info
	imports map[string]string // alias -> path added
	keep    map[string]bool   // keep-alive declarations
	n       int
	fn      string
	parents map[ast.Node]ast.Node
	writes  map[ast.Expr]bool
	shared  bool // loop variables are shared between iterations (before Go 1.22)
}

// Rewrite rewrites the package and writes the new files under dir.  It returns
// the overlay entries (original path -> new path).
func Rewrite(pkg *Package, fset *token.FileSet, imp types.Importer, dir string) (map[string]string, error) {
	var files []*ast.File
	var srcs [][]byte
	for _, f := range pkg.Files {
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		af, err := parser.ParseFile(fset, f, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, af)
		srcs = append(srcs, src)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: imp, GoVersion: "", Error: func(error) {}}
	if pkg.GoVersion != "" {
		conf.GoVersion = "go" + pkg.GoVersion
	}
	tp, err := conf.Check(pkg.Path, fset, files, info)
	if err != nil {
		return nil, fmt.Errorf("type-checking %s: %w", pkg.Path, err)
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	over := map[string]string{}
	var resets []string
	resetIn := map[*ast.File][]string{}
	collectResets(pkg, tp, fset, files, srcs, info, &resets, resetIn)
	for i, af := range files {
		if generated(af) {
			continue
		}
		r := &rw{pkg: pkg, fset: fset, file: af, src: srcs[i], info: info,
			imports: map[string]string{}, keep: map[string]bool{}, parents: map[ast.Node]ast.Node{}, writes: map[ast.Expr]bool{}}
		r.shared = olderThan(pkg.GoVersion, 1, 22)
		out := r.rewriteFile(resetIn[af], i == firstReal(files), resets)
		name := filepath.Join(dir, filepath.Base(pkg.Files[i]))
		if err := os.WriteFile(name, []byte(out), 0o644); err != nil {
			return nil, err
		}
		over[pkg.Files[i]] = name
	}
	return over, nil
}

func firstReal(files []*ast.File) int {
	for i, f := range files {
		if !generated(f) {
			return i
		}
	}
	return -1
}

func generated(f *ast.File) bool { return ast.IsGenerated(f) }

func olderThan(v string, maj, min int) bool {
	if v == "" {
		return true
	}
	p := strings.Split(strings.TrimPrefix(v, "go"), ".")
	a, _ := strconv.Atoi(p[0])
	b := 0
	if len(p) > 1 {
		b, _ = strconv.Atoi(p[1])
	}
	return a < maj || a == maj && b < min
}

// collectResets finds the package-level variables and says how to put each
// back to its initial value.
func collectResets(pkg *Package, tp *types.Package, fset *token.FileSet, files []*ast.File, srcs [][]byte, info *types.Info, order *[]string, in map[*ast.File][]string) {
	if pkg.Quiet {
		return
	}
	info.InitOrder = nil
	type decl struct {
		f    *ast.File
		spec *ast.ValueSpec
	}
	byName := map[string]decl{}
	var names []string
	for _, f := range files {
		if generated(f) {
			continue
		}
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				for _, n := range vs.Names {
					if n.Name != "_" {
						byName[n.Name] = decl{f, vs}
						names = append(names, n.Name)
					}
				}
			}
		}
	}
	// Only variables the package itself can change need to be reset: assigned,
	// address taken, or of a type with reference semantics.
	done := map[*ast.ValueSpec]bool{}
	var visit func(d decl)
	visit = func(d decl) {
		if done[d.spec] {
			return
		}
		done[d.spec] = true
		for _, v := range d.spec.Values {
			// Dependencies first (only direct uses of other variables matter
			// here; functions read variables that are reset as well).
			ast.Inspect(v, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok {
					if o, ok := info.Uses[id].(*types.Var); ok && o.Parent() == tp.Scope() {
						if dd, ok := byName[id.Name]; ok {
							visit(dd)
						}
					}
				}
				return true
			})
		}
		for _, v := range d.spec.Values {
			if denied(v, info) {
				return
			}
		}
		id := fmt.Sprintf("vrtReset%d", len(*order))
		*order = append(*order, id)
		in[d.f] = append(in[d.f], id)
		resetSpec[id] = d.spec
	}
	sort.SliceStable(names, func(i, j int) bool { return false })
	for _, n := range names {
		visit(byName[n])
	}
}

var resetSpec = map[string]*ast.ValueSpec{}

// denied tells whether re-evaluating an initializer is pointless or harmful.
func denied(e ast.Expr, info *types.Info) bool {
	bad := false
	ast.Inspect(e, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok {
			return true
		}
		var id *ast.Ident
		switch f := ast.Unparen(c.Fun).(type) {
		case *ast.SelectorExpr:
			id = f.Sel
		case *ast.Ident:
			id = f
		}
		if id == nil {
			return true
		}
		if o := info.Uses[id]; o != nil && o.Pkg() != nil {
			p := o.Pkg().Path()
			if p == "flag" || strings.Contains(p, "logrus") || strings.Contains(p, "prometheus") || strings.Contains(p, "opentelemetry") || p == "expvar" || p == "net/http" {
				bad = true
			}
		}
		return true
	})
	return bad
}

func (r *rw) off(p token.Pos) int { return r.fset.PositionFor(p, false).Offset }

func (r *rw) raw(a, b token.Pos) string { return string(r.src[r.off(a):r.off(b)]) }

func (r *rw) rewriteFile(resets []string, first bool, order []string) string {
	ast.Inspect(r.file, func(n ast.Node) bool {
		return true
	})
	var stack []ast.Node
	ast.Inspect(r.file, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		if len(stack) > 0 {
			r.parents[n] = stack[len(stack)-1]
		}
		stack = append(stack, n)
		switch s := n.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				r.writes[ast.Unparen(l)] = true
			}
		case *ast.IncDecStmt:
			r.writes[ast.Unparen(s.X)] = true
		case *ast.RangeStmt:
			if s.Tok == token.ASSIGN {
				if s.Key != nil {
					r.writes[ast.Unparen(s.Key)] = true
				}
				if s.Value != nil {
					r.writes[ast.Unparen(s.Value)] = true
				}
			}
		}
		return true
	})
	body := r.stitch(r.file, 0, len(r.src))
	var tail strings.Builder
	for _, id := range resets {
		vs := resetSpec[id]
		fmt.Fprintf(&tail, "\nfunc %s() {", id)
		var lhs []string
		for _, n := range vs.Names {
			lhs = append(lhs, n.Name)
		}
		switch {
		case len(vs.Values) == 0:
			for _, n := range lhs {
				if n != "_" {
					fmt.Fprintf(&tail, " { var z %s; %s = z };", r.text(vs.Type), n)
				}
			}
		case len(vs.Values) == len(lhs):
			for i, n := range lhs {
				fmt.Fprintf(&tail, " %s = %s;", n, r.text(vs.Values[i]))
			}
		default:
			fmt.Fprintf(&tail, " %s = %s;", strings.Join(lhs, ", "), r.text(vs.Values[0]))
		}
		tail.WriteString(" }\n")
	}
	if first && len(order) > 0 {
		r.imports["vrt__"] = "verif.local/vrt"
		tail.WriteString("\nfunc init() { vrt__.RegisterReset(func() {")
		for _, id := range order {
			tail.WriteString(" " + id + "();")
		}
		tail.WriteString(" }) }\n")
	}
	var keeps []string
	for k := range r.keep {
		keeps = append(keeps, k)
	}
	sort.Strings(keeps)
	for _, k := range keeps {
		tail.WriteString("\n" + k + "\n")
	}
	// New imports go on the line of the package clause.
	var imps strings.Builder
	var al []string
	for a := range r.imports {
		al = append(al, a)
	}
	sort.Strings(al)
	for _, a := range al {
		fmt.Fprintf(&imps, "; import %s %q", a, r.imports[a])
	}
	cut := r.off(r.file.Name.End())
	// body starts with the same bytes up to the package name.
	return body[:cut] + imps.String() + body[cut:] + tail.String()
}

func (r *rw) vrt(name string) string {
	r.imports["vrt__"] = "verif.local/vrt"
	return "vrt__." + name
}

// text renders a node with all rewrites applied.
func (r *rw) text(n ast.Node) string {
	if s, ok := r.special(n); ok {
		return s
	}
	return r.stitch(n, r.off(n.Pos()), r.off(n.End()))
}

// inner renders a node's children only.
func (r *rw) inner(n ast.Node) string { return r.stitch(n, r.off(n.Pos()), r.off(n.End())) }

func (r *rw) stitch(n ast.Node, from, to int) string {
	type edit struct {
		a, b int
		s    string
	}
	var es []edit
	ast.Inspect(n, func(d ast.Node) bool {
		if d == nil || d == n {
			return true
		}
		if fd, ok := d.(*ast.FuncDecl); ok {
			old := r.fn
			r.fn = fd.Name.Name
			if fd.Body != nil {
				es = append(es, edit{r.off(fd.Pos()), r.off(fd.End()), r.inner(fd)})
			}
			r.fn = old
			return fd.Body == nil
		}
		if s, ok := r.special(d); ok {
			es = append(es, edit{r.off(d.Pos()), r.off(d.End()), s})
			return false
		}
		return true
	})
	sort.SliceStable(es, func(i, j int) bool { return es[i].a < es[j].a })
	var b strings.Builder
	p := from
	for _, e := range es {
		if e.a < p {
			continue
		}
		b.Write(r.src[p:e.a])
		b.WriteString(e.s)
		p = e.b
	}
	b.Write(r.src[p:to])
	return b.String()
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rw) builtin(e ast.Expr) string {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func (r *rw) tmp(p string) string {
	r.n++
	return fmt.Sprintf("%s__%d", p, r.n)
}

func (r *rw) special(n ast.Node) (string, bool) {
	switch d := n.(type) {
	case *ast.ImportSpec:
		p, _ := strconv.Unquote(d.Path.Value)
		np, ok := shadow[p]
		if !ok {
			return "", false
		}
		if r.pkg.Quiet && p == "sync" {
			np = "verif.local/vrt/vsyncq"
		}
		name := filepath.Base(p)
		if d.Name != nil {
			name = d.Name.Name
		}
		return fmt.Sprintf("%s %q", name, np), true

	case *ast.GoStmt:
		return r.goStmt(d), true

	case *ast.SendStmt:
		return fmt.Sprintf("%s(%s)(%s)", r.vrt("SendTo"), r.text(d.Chan), r.text(d.Value)), true

	case *ast.UnaryExpr:
		if d.Op != token.ARROW {
			return "", false
		}
		f := "Recv"
		if tv, ok := r.info.Types[d]; ok {
			if _, ok := tv.Type.(*types.Tuple); ok {
				f = "Recv2"
			}
		}
		return fmt.Sprintf("%s(%s)", r.vrt(f), r.text(d.X)), true

	case *ast.LabeledStmt:
		switch s := d.Stmt.(type) {
		case *ast.SelectStmt:
			return r.selectStmt(s, d.Label.Name+": "), true
		case *ast.RangeStmt:
			if out, ok := r.rangeStmt(s, d.Label.Name+": "); ok {
				return out, true
			}
		}
		return "", false

	case *ast.SelectStmt:
		return r.selectStmt(d, ""), true

	case *ast.RangeStmt:
		return r.rangeStmt(d, "")

	case *ast.CallExpr:
		switch r.builtin(d.Fun) {
		case "close":
			return fmt.Sprintf("%s(%s)", r.vrt("Close"), r.text(d.Args[0])), true
		case "len":
			if isChan(r.typeOf(d.Args[0])) {
				return fmt.Sprintf("%s(%s)", r.vrt("Len"), r.text(d.Args[0])), true
			}
		case "make":
			if isChan(r.typeOf(d.Args[0])) {
				return fmt.Sprintf("%s(%s)", r.vrt("Made"), r.inner(d)), true
			}
		case "delete":
			if !r.pkg.Quiet {
				return fmt.Sprintf("delete(%s(%s), %s)", r.vrt("MapW"), r.text(d.Args[0]), r.text(d.Args[1])), true
			}
		}
		return "", false

	case *ast.IndexExpr:
		if r.pkg.Quiet || !isMap(r.typeOf(d.X)) {
			return "", false
		}
		f := "MapR"
		if r.writes[d] {
			f = "MapW"
		}
		return fmt.Sprintf("%s(%s)[%s]", r.vrt(f), r.text(d.X), r.text(d.Index)), true

	case *ast.SelectorExpr:
		id, ok := d.X.(*ast.Ident)
		if !ok {
			return "", false
		}
		pn, ok := r.info.Uses[id].(*types.PkgName)
		if !ok || r.pkg.NoSwap {
			return "", false
		}
		rp, ok := swap[pn.Imported().Path()+"."+d.Sel.Name]
		if !ok {
			return "", false
		}
		r.imports[rp.alias] = rp.path
		switch r.info.Uses[d.Sel].(type) {
		case *types.TypeName:
			r.keep[fmt.Sprintf("var _ *%s.%s", id.Name, d.Sel.Name)] = true
		default:
			if strings.HasPrefix(rp.path, "verif.local/vrt/vrand") {
				r.keep[fmt.Sprintf("var _ = %s.Perm", id.Name)] = true
			} else {
				r.keep[fmt.Sprintf("var _ = %s.%s", id.Name, d.Sel.Name)] = true
			}
		}
		return rp.alias + "." + rp.name, true
	}
	return "", false
}

func (r *rw) goStmt(d *ast.GoStmt) string {
	c := d.Call
	name := strconv.Quote(r.fn)
	if b := r.builtin(c.Fun); b != "" {
		return fmt.Sprintf("%s(%s, func() { %s })", r.vrt("GoNamed"), name, r.text(c))
	}
	var pre, args []string
	for i, a := range c.Args {
		tv := r.info.Types[a]
		if _, tuple := tv.Type.(*types.Tuple); tuple {
			return fmt.Sprintf("%s(%s, func() { %s })", r.vrt("GoNamed"), name, r.text(c))
		}
		s := ""
		if tv.Value != nil || tv.IsNil() {
			s = r.text(a)
		} else {
			t := r.tmp("a")
			pre = append(pre, fmt.Sprintf("%s := %s", t, r.text(a)))
			s = t
		}
		if i == len(c.Args)-1 && c.Ellipsis.IsValid() {
			s += "..."
		}
		args = append(args, s)
	}
	if fl, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return fmt.Sprintf("%s(%s, %s)", r.vrt("GoNamed"), name, r.text(fl))
	}
	f := r.tmp("f")
	out := fmt.Sprintf("{ %s := %s; ", f, r.text(c.Fun))
	for _, p := range pre {
		out += p + "; "
	}
	out += fmt.Sprintf("%s(%s, func() { %s(%s) }) }", r.vrt("GoNamed"), name, f, strings.Join(args, ", "))
	return out
}

func (r *rw) selectStmt(d *ast.SelectStmt, label string) string {
	if len(d.Body.List) == 0 {
		return fmt.Sprintf("{ %s%s(); panic(\"unreachable\") }", label, r.vrt("Block"))
	}
	var pre, names strings.Builder
	var cases strings.Builder
	hasDefault := "false"
	idx := 0
	for _, st := range d.Body.List {
		cc := st.(*ast.CommClause)
		head := ""
		if cc.Comm == nil {
			hasDefault = "true"
			head = "case -1:"
		} else {
			v := r.tmp("c")
			switch s := cc.Comm.(type) {
			case *ast.SendStmt:
				fmt.Fprintf(&pre, "%s := %s(%s)(%s); ", v, r.vrt("CaseSendTo"), r.text(s.Chan), r.text(s.Value))
				head = fmt.Sprintf("case %d:", idx)
			case *ast.ExprStmt:
				u := ast.Unparen(s.X).(*ast.UnaryExpr)
				fmt.Fprintf(&pre, "%s := %s(%s); ", v, r.vrt("CaseRecv"), r.text(u.X))
				head = fmt.Sprintf("case %d:", idx)
			case *ast.AssignStmt:
				u := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr)
				fmt.Fprintf(&pre, "%s := %s(%s); ", v, r.vrt("CaseRecv"), r.text(u.X))
				get := "Get()"
				lhs := r.text(s.Lhs[0])
				if len(s.Lhs) == 2 {
					get = "Get2()"
					lhs += ", " + r.text(s.Lhs[1])
				}
				head = fmt.Sprintf("case %d: %s %s %s.%s;", idx, lhs, s.Tok, v, get)
			}
			names.WriteString(", " + v)
			idx++
		}
		body := ""
		if len(cc.Body) > 0 {
			from := r.off(cc.Colon) + 1
			to := r.off(cc.Body[len(cc.Body)-1].End())
			body = r.stitchStmts(cc.Body, from, to)
		}
		// keep the bytes (comments) between this clause and the next out
		cases.WriteString(head + " " + body + "\n")
	}
	return fmt.Sprintf("{ %s%sswitch %s(%s%s) {\n%sdefault: panic(\"unreachable\")\n} }", pre.String(), label, r.vrt("Select"), hasDefault, names.String(), cases.String())
}

func (r *rw) stitchStmts(list []ast.Stmt, from, to int) string {
	return r.stitch(&ast.BlockStmt{Lbrace: list[0].Pos(), List: list, Rbrace: list[len(list)-1].End()}, from, to)
}

func (r *rw) rangeStmt(d *ast.RangeStmt, label string) (string, bool) {
	t := r.typeOf(d.X)
	name := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		return r.text(e)
	}
	bodyIn := func() string { return r.stitch(d.Body, r.off(d.Body.Lbrace)+1, r.off(d.Body.End())) }
	switch {
	case isChan(t):
		c, ok := r.tmp("ch"), r.tmp("ok")
		k := name(d.Key)
		switch {
		case d.Key == nil || k == "_":
			return fmt.Sprintf("{ %s := %s; %sfor { _, %s := %s(%s); if !%s { break }; %s }", c, r.text(d.X), label, ok, r.vrt("Recv2"), c, ok, bodyIn()), true
		case d.Tok == token.DEFINE && !r.shared:
			return fmt.Sprintf("{ %s := %s; %sfor { %s, %s := %s(%s); if !%s { break }; %s }", c, r.text(d.X), label, k, ok, r.vrt("Recv2"), c, ok, bodyIn()), true
		case d.Tok == token.DEFINE:
			return fmt.Sprintf("{ %s := %s; %s := %s(%s); var %s bool; %sfor { %s, %s = %s(%s); if !%s { break }; %s }", c, r.text(d.X), k, r.vrt("ElemZero"), c, ok, label, k, ok, r.vrt("Recv2"), c, ok, bodyIn()), true
		default:
			return fmt.Sprintf("{ %s := %s; var %s bool; %sfor { %s, %s = %s(%s); if !%s { break }; %s }", c, r.text(d.X), ok, label, k, ok, r.vrt("Recv2"), c, ok, bodyIn()), true
		}
	case isMap(t):
		if r.pkg.Quiet {
			return "", false
		}
		m, e := r.tmp("m"), r.tmp("e")
		k, v := name(d.Key), name(d.Value)
		head := fmt.Sprintf("for _, %s := range %s(%s) { if !%s.Live() { continue }; ", e, r.vrt("MapPairs"), m, e)
		if k == "_" && v == "_" {
			return fmt.Sprintf("{ %s := %s; %s%s %s }", m, r.text(d.X), label, head, bodyIn()), true
		}
		switch {
		case d.Tok == token.DEFINE && !r.shared:
			return fmt.Sprintf("{ %s := %s; %s%s%s, %s := %s.K, %s.V(); %s }", m, r.text(d.X), label, head, k, v, e, e, bodyIn()), true
		case d.Tok == token.DEFINE:
			return fmt.Sprintf("{ %s := %s; %s, %s := %s(%s); %s%s%s, %s = %s.K, %s.V(); %s }", m, r.text(d.X), k, v, r.vrt("KVZero"), m, label, head, k, v, e, e, bodyIn()), true
		default:
			return fmt.Sprintf("{ %s := %s; %s%s%s, %s = %s.K, %s.V(); %s }", m, r.text(d.X), label, head, k, v, e, e, bodyIn()), true
		}
	}
	return "", false
}

// Command instr copies the library packages of a kpfaulkner/jxl-go tree into a
// build directory and puts the simulator's seams into the copy:
//
//   - goroutine creation, channel operations, select and close go to zsim/rt
//   - the packages sync, sync/atomic, time and runtime are replaced by shims
//   - iteration over maps becomes seeded
//   - every loop body and every non-leaf function entry gets a preemption point
//   - non-constant make() lengths are counted
//
// All edits are textual insertions at positions found by go/parser and
// go/types, on one line, so that line numbers of the copy equal those of the
// original. The original tree is only read.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	EmbedFiles []string
	Standard   bool
	Module     *struct {
		Path string
		Main bool
	}
	Imports []string
	Error   *struct{ Err string }
}

var shim = map[string]string{
	"sync":        "zsim/zsync",
	"sync/atomic": "zsim/zatomic",
	"time":        "zsim/ztime",
	"runtime":     "zsim/zruntime",
}

type stats struct {
	Packages, Files, Go, Send, Recv, RangeChan, Close, Select, RangeMap, Loops, Funcs, Makes, Imports int
}

func fatal(f string, a ...any) { fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...); os.Exit(2) }

func main() {
	repo := flag.String("repo", "/repo", "tree to instrument")
	out := flag.String("out", "", "build directory")
	simdir := flag.String("sim", "", "directory holding the zsim packages to copy in")
	flag.Parse()

	list := func(args ...string) []listPkg {
		cmd := exec.Command("go", append([]string{"list", "-json=ImportPath,Dir,Name,Export,GoFiles,EmbedFiles,Standard,Module,Imports,Error"}, args...)...)
		cmd.Dir = *repo
		cmd.Stderr = os.Stderr
		b, err := cmd.Output()
		if err != nil {
			fatal("go list: %v", err)
		}
		var ps []listPkg
		dec := json.NewDecoder(bytes.NewReader(b))
		for {
			var p listPkg
			if err := dec.Decode(&p); err == io.EOF {
				break
			} else if err != nil {
				fatal("go list: %v", err)
			}
			ps = append(ps, p)
		}
		return ps
	}
	// The library is what a user can import: start from the module's
	// non-main packages, without the ones that only serve examples.
	var roots []string
	for _, p := range list("./...") {
		if p.Name == "main" || strings.Contains(p.ImportPath, "/examples") || strings.Contains(p.ImportPath, "/tools") || strings.Contains(p.ImportPath, "/benchtesting") {
			continue
		}
		roots = append(roots, p.ImportPath)
	}
	all := list(append([]string{"-export", "-deps"}, roots...)...)
	exports := map[string]string{}
	modPath := ""
	var mine []listPkg
	for _, p := range all {
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			modPath = p.Module.Path
			mine = append(mine, p)
		}
	}
	if modPath == "" {
		fatal("no main module")
	}
	os.RemoveAll(*out)
	must(os.MkdirAll(*out, 0o755))
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(*repo, f))
		if err == nil {
			must(os.WriteFile(filepath.Join(*out, f), b, 0o644))
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	var st stats
	for _, p := range mine {
		st.Packages++
		var files []*ast.File
		var srcs [][]byte
		for _, f := range p.GoFiles {
			b, err := os.ReadFile(filepath.Join(p.Dir, f))
			must(err)
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), b, parser.SkipObjectResolution)
			must(err)
			files = append(files, af)
			srcs = append(srcs, b)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Instances: map[*ast.Ident]types.Instance{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			fatal("type check %s: %v", p.ImportPath, err)
		}
		rel, err := filepath.Rel(*repo, p.Dir)
		must(err)
		dst := filepath.Join(*out, rel)
		must(os.MkdirAll(dst, 0o755))
		for i, f := range p.GoFiles {
			st.Files++
			ed := &editor{fset: fset, src: srcs[i], file: fset.File(files[i].Pos()), info: info, mod: modPath, st: &st}
			res := ed.rewrite(files[i])
			must(os.WriteFile(filepath.Join(dst, f), res, 0o644))
		}
		for _, f := range p.EmbedFiles {
			b, err := os.ReadFile(filepath.Join(p.Dir, f))
			must(err)
			must(os.MkdirAll(filepath.Dir(filepath.Join(dst, f)), 0o755))
			must(os.WriteFile(filepath.Join(dst, f), b, 0o644))
		}
	}
	// copy the simulator, with its import paths under the module's path
	must(filepath.Walk(*simdir, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		rel, _ := filepath.Rel(*simdir, path)
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		b = bytes.ReplaceAll(b, []byte("JXLMOD/"), []byte(modPath+"/"))
		b = bytes.ReplaceAll(b, []byte("\"JXLMOD\""), []byte("\""+modPath+"\""))
		d := filepath.Join(*out, "zsim", rel)
		if err := os.MkdirAll(filepath.Dir(d), 0o755); err != nil {
			return err
		}
		return os.WriteFile(d, b, 0o644)
	}))
	b, _ := json.MarshalIndent(st, "", " ")
	must(os.WriteFile(filepath.Join(*out, "instr.json"), b, 0o644))
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

type edit struct {
	from, to int
	text     string
	seq      int
}

type editor struct {
	fset  *token.FileSet
	src   []byte
	file  *token.File
	info  *types.Info
	mod   string
	st    *stats
	edits []edit
	rt    bool
	n     int
}

func (e *editor) off(p token.Pos) int { return e.file.Offset(p) }
func (e *editor) ins(p token.Pos, s string) {
	e.edits = append(e.edits, edit{e.off(p), e.off(p), s, len(e.edits)})
	e.rt = true
}
func (e *editor) rep(a, b token.Pos, s string) {
	e.edits = append(e.edits, edit{e.off(a), e.off(b), s, len(e.edits)})
	e.rt = true
}
func (e *editor) text(n ast.Node) string { return string(e.src[e.off(n.Pos()):e.off(n.End())]) }

func (e *editor) isChan(x ast.Expr) bool {
	t := e.info.Types[x].Type
	if t == nil {
		return false
	}
	if tp, ok := t.(*types.TypeParam); ok {
		t = tp.Constraint()
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}
func (e *editor) isMap(x ast.Expr) bool {
	t := e.info.Types[x].Type
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}
func (e *editor) isBuiltin(x ast.Expr, name string) bool {
	id, ok := ast.Unparen(x).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = e.info.Uses[id].(*types.Builtin)
	return ok
}

// leaf reports whether a body has neither loops nor calls of functions.
func (e *editor) leaf(b *ast.BlockStmt) bool {
	leaf := true
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt:
			leaf = false
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			tv := e.info.Types[x.Fun]
			if !tv.IsType() && !tv.IsBuiltin() {
				leaf = false
			}
		}
		return leaf
	})
	return leaf
}

func (e *editor) rewrite(f *ast.File) []byte {
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if s, ok := shim[p]; ok {
			e.edits = append(e.edits, edit{e.off(im.Path.Pos()), e.off(im.Path.End()), strconv.Quote(e.mod + "/" + s), len(e.edits)})
			e.st.Imports++
		}
	}
	handled := map[ast.Node]bool{}
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Body != nil && !e.leaf(x.Body) && x.Name.Name != "init" {
				e.ins(x.Body.Lbrace+1, " zrt.Tick();")
				e.st.Funcs++
			}
		case *ast.FuncLit:
			if !e.leaf(x.Body) {
				e.ins(x.Body.Lbrace+1, " zrt.Tick();")
				e.st.Funcs++
			}
		case *ast.ForStmt:
			e.ins(x.Body.Lbrace+1, " zrt.Tick();")
			e.st.Loops++
		case *ast.RangeStmt:
			e.ins(x.Body.Lbrace+1, " zrt.Tick();")
			e.st.Loops++
			if e.isChan(x.X) {
				e.ins(x.X.Pos(), "zrt.RangeChan(")
				e.ins(x.X.End(), ")")
				e.st.RangeChan++
			} else if e.isMap(x.X) {
				if x.Key != nil && x.Value == nil {
					e.ins(x.X.Pos(), "zrt.RangeMapKeys(")
				} else {
					e.ins(x.X.Pos(), "zrt.RangeMap(")
				}
				e.ins(x.X.End(), ")")
				e.st.RangeMap++
			}
		case *ast.GoStmt:
			e.goStmt(x)
		case *ast.SendStmt:
			if !handled[x] {
				e.ins(x.Chan.Pos(), "zrt.SendTo(")
				e.rep(x.Arrow, x.Arrow+2, ")(")
				e.ins(x.Value.End(), ")")
				e.st.Send++
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW && !handled[u] {
					handled[u] = true
					e.rep(u.OpPos, u.OpPos+2, "zrt.Recv2(")
					e.ins(u.X.End(), ")")
					e.st.Recv++
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := ast.Unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW && !handled[u] {
					handled[u] = true
					e.rep(u.OpPos, u.OpPos+2, "zrt.Recv2(")
					e.ins(u.X.End(), ")")
					e.st.Recv++
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !handled[x] {
				e.rep(x.OpPos, x.OpPos+2, "zrt.Recv(")
				e.ins(x.X.End(), ")")
				e.st.Recv++
			}
		case *ast.CallExpr:
			if e.isBuiltin(x.Fun, "close") && len(x.Args) == 1 {
				e.rep(x.Fun.Pos(), x.Fun.End(), "zrt.Close")
				e.st.Close++
			}
			if e.isBuiltin(x.Fun, "make") && len(x.Args) >= 2 {
				last := x.Args[len(x.Args)-1]
				if tv := e.info.Types[last]; tv.Value == nil {
					if t := e.info.Types[x.Args[0]].Type; t != nil {
						if _, ok := t.Underlying().(*types.Slice); ok {
							e.ins(last.Pos(), "zrt.N(")
							e.ins(last.End(), ")")
							e.st.Makes++
						}
					}
				}
			}
		case *ast.SelectStmt:
			e.selectStmt(x, handled)
		}
		return true
	}
	ast.Inspect(f, visit)
	if e.rt {
		e.edits = append(e.edits, edit{e.off(f.Name.End()), e.off(f.Name.End()), "; import zrt " + strconv.Quote(e.mod+"/zsim/rt"), -1})
	}
	return e.apply()
}

func (e *editor) goStmt(g *ast.GoStmt) {
	e.st.Go++
	e.n++
	c := g.Call
	pre := fmt.Sprintf("__z%d_", e.n)
	bind := true
	fun := ast.Unparen(c.Fun)
	if tv := e.info.Types[c.Fun]; tv.IsBuiltin() || tv.IsType() {
		bind = false
	}
	switch y := fun.(type) {
	case *ast.Ident:
		if _, ok := e.info.Instances[y]; ok {
			bind = false
		}
	case *ast.SelectorExpr:
		if _, ok := e.info.Instances[y.Sel]; ok {
			bind = false
		}
	}
	if !bind {
		// evaluated inside the goroutine: only for generic functions and builtins
		e.rep(g.Go, c.Pos(), "zrt.Go(func() { ")
		e.ins(c.End(), " })")
		return
	}
	e.rep(g.Go, c.Pos(), "{ "+pre+"f := ")
	var args []string
	prevEnd := c.Lparen
	for i, a := range c.Args {
		tv := e.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, e.text(a))
			e.rep(prevEnd, a.End(), "")
		} else {
			v := fmt.Sprintf("%sa%d", pre, i)
			args = append(args, v)
			e.rep(prevEnd, a.Pos(), "; "+v+" := ")
		}
		prevEnd = a.End()
	}
	call := pre + "f(" + strings.Join(args, ", ")
	if c.Ellipsis.IsValid() {
		call += "..."
	}
	call += ")"
	e.rep(prevEnd, c.Rparen+1, "; zrt.Go(func() { "+call+" }) }")
}

func (e *editor) selectStmt(s *ast.SelectStmt, handled map[ast.Node]bool) {
	e.st.Select++
	e.n++
	pre := fmt.Sprintf("__z%d_c", e.n)
	head := "{ "
	var names []string
	hasDef := false
	i := 0
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			continue
		}
		nm := fmt.Sprintf("%s%d", pre, i)
		names = append(names, nm)
		body := ""
		switch y := cc.Comm.(type) {
		case *ast.SendStmt:
			handled[y] = true
			head += fmt.Sprintf("%s := zrt.SendCase(%s)(%s); ", nm, e.text(y.Chan), e.text(y.Value))
		case *ast.ExprStmt:
			u := ast.Unparen(y.X).(*ast.UnaryExpr)
			handled[u] = true
			head += fmt.Sprintf("%s := zrt.RecvCase(%s); ", nm, e.text(u.X))
		case *ast.AssignStmt:
			u := ast.Unparen(y.Rhs[0]).(*ast.UnaryExpr)
			handled[u] = true
			head += fmt.Sprintf("%s := zrt.RecvCase(%s); ", nm, e.text(u.X))
			if len(y.Lhs) == 2 {
				body = fmt.Sprintf("%s, %s %s %s.Val, %s.Ok;", e.text(y.Lhs[0]), e.text(y.Lhs[1]), y.Tok, nm, nm)
			} else {
				body = fmt.Sprintf("%s %s %s.Val;", e.text(y.Lhs[0]), y.Tok, nm)
			}
		}
		// the whole head is replaced; edits inside it are dropped in apply
		e.rep(cc.Case, cc.Colon+1, fmt.Sprintf("case %d: %s", i, body))
		i++
	}
	head += fmt.Sprintf("switch zrt.Select(%v", hasDef)
	for _, n := range names {
		head += ", " + n
	}
	head += ") "
	e.rep(s.Select, s.Body.Lbrace, head)
	e.ins(s.Body.Rbrace+1, " }")
}

func (e *editor) apply() []byte {
	es := e.edits
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].from != es[j].from {
			return es[i].from < es[j].from
		}
		// at one place: pure insertions that close come before ones that open;
		// keep replacement edits last
		ri, rj := es[i].to > es[i].from, es[j].to > es[j].from
		if ri != rj {
			return !ri
		}
		ci, cj := strings.HasPrefix(es[i].text, ")"), strings.HasPrefix(es[j].text, ")")
		if ci != cj {
			return ci
		}
		return es[i].seq < es[j].seq
	})
	var out bytes.Buffer
	pos := 0
	for _, x := range es {
		if x.from < pos {
			continue // inside a replaced range
		}
		out.Write(e.src[pos:x.from])
		// keep the line count of replaced text
		out.WriteString(x.text)
		if x.to > x.from {
			out.WriteString(strings.Repeat("\n", bytes.Count(e.src[x.from:x.to], []byte("\n"))))
			pos = x.to
		} else {
			pos = x.from
		}
	}
	out.Write(e.src[pos:])
	return out.Bytes()
}

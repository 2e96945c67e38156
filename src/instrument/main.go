// Command instrument rewrites a copy of the driver so that every source of
// scheduling, blocking, time and I/O goes through the simulator:
//
//   - a yield point before every statement (and between the read and the write
//     of x.f++, x.f op= e and x.f = append(x.f, ...)),
//   - channel operations, select, close, go statements and package sync,
//   - time.Sleep/After/AfterFunc/NewTimer/NewTicker,
//   - net.Dial*, tls.Dial* and the dialer types,
//   - package database/sql (an instrumented copy), the global functions of math/rand,
//   - map iteration (sorted, so that runs are repeatable).
//
// Edits are textual and keep line numbers. The driver's own logic is untouched.
//
// usage: instrument [-lite] DIR...   (directories of packages in GOPATH)
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	off, end int
	text     string
	ord      int
	moved    bool // the text of the range is used elsewhere
}

type file struct {
	src   []byte
	f     *ast.File
	fset  *token.FileSet
	info  *types.Info
	edits []edit
	ord   int
	cnt   int
	lite  bool
	uses  map[string]bool
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
}

func main() {
	lite := flag.Bool("lite", false, "only the seams, no yield points")
	flag.Parse()
	for _, dir := range flag.Args() {
		if err := instrumentDir(dir, *lite); err != nil {
			fmt.Fprintln(os.Stderr, "instrument:", err)
			os.Exit(1)
		}
	}
}

var exports = map[string]string{}

func golist(dir string, args ...string) ([]listPkg, error) {
	cmd := exec.Command("go", append([]string{"list"}, args...)...)
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	var res []listPkg
	dec := json.NewDecoder(strings.NewReader(string(out)))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			return res, nil
		} else if err != nil {
			return nil, err
		}
		res = append(res, p)
	}
}

// instrumentDir handles the package tree below dir.
func instrumentDir(dir string, lite bool) error {
	pkgs, err := golist(dir, "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles", "./...")
	if err != nil {
		return err
	}
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
	}
	abs, err := filepath.Abs(dir)
	if err != nil {
		return err
	}
	abs, err = filepath.EvalSymlinks(abs)
	if err != nil {
		return err
	}
	for _, p := range pkgs {
		pd, err := filepath.EvalSymlinks(p.Dir)
		if err != nil {
			return err
		}
		if pd != abs && !strings.HasPrefix(pd, abs+"/") {
			continue
		}
		if strings.HasPrefix(strings.TrimPrefix(pd, abs), "/examples") {
			continue
		}
		if err := instrumentPkg(p, lite); err != nil {
			return fmt.Errorf("%s: %w", p.ImportPath, err)
		}
	}
	return nil
}

func instrumentPkg(p listPkg, lite bool) error {
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	for _, name := range p.GoFiles {
		src, err := os.ReadFile(filepath.Join(p.Dir, name))
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, filepath.Join(p.Dir, name), src, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, f)
		srcs = append(srcs, src)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp, Error: func(err error) { fmt.Fprintln(os.Stderr, "instrument: types:", err) }}
	conf.Check(p.ImportPath, fset, files, info)
	for i, f := range files {
		x := &file{src: srcs[i], f: f, fset: fset, info: info, lite: lite, uses: map[string]bool{}}
		out := x.rewrite()
		if err := os.WriteFile(filepath.Join(p.Dir, p.GoFiles[i]), out, 0644); err != nil {
			return err
		}
	}
	return nil
}

func (x *file) off(p token.Pos) int { return x.fset.Position(p).Offset }
func (x *file) text(n ast.Node) string {
	return string(x.src[x.off(n.Pos()):x.off(n.End())])
}

// later stands for the rewritten text of a node, which apply fills in.
func (x *file) later(n ast.Node) string {
	return fmt.Sprintf("\x00%d:%d\x00", x.off(n.Pos()), x.off(n.End()))
}

func (x *file) replace(from, to token.Pos, text string) {
	x.ord++
	x.edits = append(x.edits, edit{off: x.off(from), end: x.off(to), text: text, ord: x.ord})
}
func (x *file) insert(at token.Pos, text string) { x.replace(at, at, text) }

// insertEnd inserts after a node; such insertions nest inside-out.
func (x *file) insertEnd(at token.Pos, text string) {
	x.edits = append(x.edits, edit{off: x.off(at), end: x.off(at), text: text, ord: -1000000 - len(x.edits)})
}

func (x *file) pkgSel(n *ast.SelectorExpr) (string, string) {
	id, ok := n.X.(*ast.Ident)
	if !ok {
		return "", ""
	}
	pn, ok := x.info.Uses[id].(*types.PkgName)
	if !ok {
		return "", ""
	}
	return pn.Imported().Path(), n.Sel.Name
}

var selMap = map[string]string{
	"net.Dial": "snet__.Dial", "net.DialTimeout": "snet__.DialTimeout", "net.Dialer": "snet__.Dialer",
	"crypto/tls.Dial": "snet__.TLSDial", "crypto/tls.DialWithDialer": "snet__.TLSDialWithDialer", "crypto/tls.Dialer": "snet__.TLSDialer",
	"time.Sleep": "simrt__.Sleep", "time.After": "simrt__.After", "time.AfterFunc": "simrt__.AfterFunc",
	"time.NewTimer": "simrt__.NewTimer", "time.NewTicker": "simrt__.NewTicker", "time.Tick": "simrt__.Tick",
	"time.Timer": "simrt__.Timer", "time.Ticker": "simrt__.Ticker",
	"context.WithTimeout": "simrt__.CtxTimeout", "context.WithDeadline": "simrt__.CtxDeadline",
	"context.WithTimeoutCause": "simrt__.CtxTimeoutCause", "context.WithDeadlineCause": "simrt__.CtxDeadlineCause",
	"context.AfterFunc": "simrt__.CtxAfterFunc",
}

// randMap: the global sources of randomness.
var randMap = map[string]string{"math/rand": "simrt__.Rand1()", "math/rand/v2": "simrt__.Rand2()"}

// keepUsed names something of a package that stays referenced, for imports
// whose only uses were replaced.
var keepUsed = map[string]string{"net": "IP", "crypto/tls": "Config", "time": "Duration", "context": "Context", "math/rand": "Rand", "math/rand/v2": "Rand"}

func pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(e.X)
	case *ast.StarExpr:
		return pure(e.X)
	case *ast.ParenExpr:
		return pure(e.X)
	}
	return false
}

func (x *file) under(e ast.Expr) types.Type {
	tv, ok := x.info.Types[e]
	if !ok || tv.Type == nil {
		return nil
	}
	return tv.Type.Underlying()
}

func (x *file) rewrite() []byte {
	for _, d := range x.f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			for _, s := range g.Specs {
				is := s.(*ast.ImportSpec)
				to, name := "", ""
				switch is.Path.Value {
				case `"sync"`:
					to, name = `"vsim/ssync"`, "sync "
				case `"database/sql"`:
					to, name = `"vsim/dsql"`, "sql "
				default:
					continue
				}
				if is.Name != nil {
					name = ""
				}
				x.replace(is.Path.Pos(), is.Path.End(), name+to)
			}
		}
	}
	skip := map[ast.Node]bool{} // nodes handled by an enclosing rewrite
	labels := map[ast.Stmt]*ast.LabeledStmt{}
	ast.Inspect(x.f, func(n ast.Node) bool {
		if n == nil {
			return true
		}
		switch n := n.(type) {
		case *ast.LabeledStmt:
			labels[n.Stmt] = n
		case *ast.BlockStmt:
			x.stmts(n.List)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				x.insert(n.Body.Lbrace+1, " simrt__.Y() ")
			}
		case *ast.CaseClause:
			x.stmts(n.Body)
		case *ast.CommClause:
			x.stmts(n.Body)
		case *ast.SelectStmt:
			x.selectStmt(n, labels[n], skip)
		case *ast.GoStmt:
			x.goStmt(n)
		case *ast.SendStmt:
			if !skip[n] {
				x.insert(n.Chan.Pos(), "simrt__.SendTo(")
				x.replace(n.Arrow, n.Arrow+2, ")(")
				x.insertEnd(n.Value.End(), ")")
			}
		case *ast.AssignStmt:
			if !skip[n] && len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				x.recv2(n.Rhs[0], skip)
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				x.recv2(n.Values[0], skip)
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !skip[n] {
				x.replace(n.OpPos, n.OpPos+2, "simrt__.Recv(")
				x.insertEnd(n.X.End(), ")")
			}
		case *ast.RangeStmt:
			switch x.under(n.X).(type) {
			case *types.Map:
				x.insert(n.X.Pos(), "simrt__.MapSeq(")
				x.insertEnd(n.X.End(), ")")
			case *types.Chan:
				x.insert(n.X.Pos(), "simrt__.ChanSeq(")
				x.insertEnd(n.X.End(), ")")
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" {
				if _, ok := x.info.Uses[id].(*types.Builtin); ok {
					x.replace(id.Pos(), id.End(), "simrt__.Close")
				}
			}
		case *ast.SelectorExpr:
			if path, name := x.pkgSel(n); path != "" {
				if to, ok := selMap[path+"."+name]; ok {
					x.replace(n.Pos(), n.End(), to)
					x.uses[path] = true
					return false
				}
				if to := randMap[path]; to != "" && !strings.HasPrefix(name, "New") && name != "N" {
					if f, ok := x.info.Uses[n.Sel].(*types.Func); ok && f.Signature().Recv() == nil {
						x.replace(n.X.Pos(), n.X.End(), to)
						x.uses[path] = true
						return false
					}
				}
			}
		}
		return true
	})
	// header and footer
	x.insert(x.f.Name.End(), `; import simrt__ "vsim/simrt"; import snet__ "vsim/snet"`)
	tail := "\nvar _ = simrt__.Y\nvar _ = snet__.Dial\n"
	for _, is := range x.f.Imports {
		path := strings.Trim(is.Path.Value, `"`)
		if x.uses[path] && keepUsed[path] != "" {
			name := path[strings.LastIndex(path, "/")+1:]
			if name == "v2" {
				name = "rand"
			}
			if is.Name != nil {
				name = is.Name.Name
			}
			if name != "_" && name != "." {
				tail += fmt.Sprintf("var _ %s.%s\n", name, keepUsed[path])
			}
		}
	}
	return append(x.apply(), tail...)
}

func (x *file) recv2(e ast.Expr, skip map[ast.Node]bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW && !skip[u] {
		skip[u] = true
		x.replace(u.OpPos, u.OpPos+2, "simrt__.Recv2(")
		x.insertEnd(u.X.End(), ")")
	}
}

// stmts inserts a yield point before every statement of a list.
func (x *file) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		if !x.lite {
			x.insert(s.Pos(), "simrt__.Y(); ")
		}
		switch s := s.(type) {
		case *ast.IncDecStmt:
			if sel, ok := s.X.(*ast.SelectorExpr); ok && pure(sel) && !x.lite {
				t := x.text(s.X)
				op := "+"
				if s.Tok == token.DEC {
					op = "-"
				}
				x.replace(s.Pos(), s.End(), fmt.Sprintf("{ simrt__t := %s; simrt__.Y(); %s = simrt__t %s 1 }", t, t, op))
			}
		case *ast.AssignStmt:
			if len(s.Lhs) != 1 || len(s.Rhs) != 1 {
				continue
			}
			if ix, ok := s.Lhs[0].(*ast.IndexExpr); ok && pure(ix.Index) {
				if m, ok := x.under(ix.X).(*types.Map); ok {
					if _, ok := m.Key().Underlying().(*types.Pointer); ok {
						x.insert(s.Pos(), fmt.Sprintf("simrt__.NotePtr(%s); ", x.text(ix.Index)))
					}
				}
			}
			sel, ok := s.Lhs[0].(*ast.SelectorExpr)
			if !ok || !pure(sel) || x.lite {
				continue
			}
			lhs := x.text(sel)
			if s.Tok == token.ASSIGN {
				if c, ok := s.Rhs[0].(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "append" {
						x.replace(s.Lhs[0].Pos(), s.Rhs[0].Pos(), "{ simrt__t := ")
						x.insertEnd(s.End(), fmt.Sprintf("; simrt__.Y(); %s = simrt__t }", lhs))
					}
				}
				continue
			}
			ops := map[token.Token]string{token.ADD_ASSIGN: "+", token.SUB_ASSIGN: "-", token.OR_ASSIGN: "|", token.AND_ASSIGN: "&", token.MUL_ASSIGN: "*"}
			if op, ok := ops[s.Tok]; ok {
				x.replace(s.Lhs[0].Pos(), s.Rhs[0].Pos(), fmt.Sprintf("{ simrt__t := %s %s (", lhs, op))
				x.insertEnd(s.End(), fmt.Sprintf("); simrt__.Y(); %s = simrt__t }", lhs))
			}
		}
	}
}

func (x *file) goStmt(n *ast.GoStmt) {
	x.cnt++
	pre := ""
	call := n.Call
	if _, ok := call.Fun.(*ast.FuncLit); !ok {
		if tv, ok := x.info.Types[call.Fun]; !ok || !tv.IsBuiltin() {
			name := fmt.Sprintf("simrt__g%d_f", x.cnt)
			pre += fmt.Sprintf("%s := %s; ", name, x.later(call.Fun))
			x.replace(call.Fun.Pos(), call.Fun.End(), name)
			x.edits[len(x.edits)-1].moved = true
		}
	}
	for i, a := range call.Args {
		if tv, ok := x.info.Types[a]; ok && (tv.Value != nil || tv.IsNil() || tv.IsType()) {
			continue
		}
		name := fmt.Sprintf("simrt__g%d_%d", x.cnt, i)
		pre += fmt.Sprintf("%s := %s; ", name, x.later(a))
		x.replace(a.Pos(), a.End(), name)
		x.edits[len(x.edits)-1].moved = true
	}
	x.replace(n.Go, n.Go+2, pre+"simrt__.Go(func() { ")
	x.insertEnd(n.End(), " })")
}

func (x *file) selectStmt(n *ast.SelectStmt, label *ast.LabeledStmt, skip map[ast.Node]bool) {
	if len(n.Body.List) == 0 {
		x.replace(n.Pos(), n.End(), `switch { default: simrt__.Forever(); panic("unreachable") }`)
		return
	}
	x.cnt++
	pre := ""
	var names []string
	hasDefault := false
	idx := 0
	for _, cl := range n.Body.List {
		c := cl.(*ast.CommClause)
		if c.Comm == nil {
			hasDefault = true
			continue
		}
		name := fmt.Sprintf("simrt__s%d_%d", x.cnt, idx)
		names = append(names, name)
		bind := ""
		var rx *ast.UnaryExpr
		unparen := func(e ast.Expr) *ast.UnaryExpr {
			for {
				if p, ok := e.(*ast.ParenExpr); ok {
					e = p.X
					continue
				}
				u, _ := e.(*ast.UnaryExpr)
				return u
			}
		}
		switch s := c.Comm.(type) {
		case *ast.SendStmt:
			skip[s] = true
			pre += fmt.Sprintf("%s := simrt__.SendCase(%s)(%s); ", name, x.later(s.Chan), x.later(s.Value))
		case *ast.ExprStmt:
			rx = unparen(s.X)
		case *ast.AssignStmt:
			rx = unparen(s.Rhs[0])
			skip[s] = true
			bind = x.text(s.Lhs[0])
			if len(s.Lhs) == 2 {
				bind += ", " + x.text(s.Lhs[1]) + " " + s.Tok.String() + " " + name + ".Val, " + name + ".Ok; "
			} else {
				bind += " " + s.Tok.String() + " " + name + ".Val; "
			}
		}
		if rx != nil {
			skip[rx] = true
			pre += fmt.Sprintf("%s := simrt__.RecvCase(%s); ", name, x.later(rx.X))
		}
		x.replace(c.Case, c.Colon+1, fmt.Sprintf("case %d: %s", idx, bind))
		idx++
	}
	at := n.Pos()
	if label != nil {
		at = label.Pos()
	}
	x.insert(at, pre)
	args := fmt.Sprint(hasDefault)
	if len(names) > 0 {
		args += ", " + strings.Join(names, ", ")
	}
	x.replace(n.Select, n.Select+token.Pos(len("select")), "switch simrt__.Select("+args+")")
	if !hasDefault {
		x.insertEnd(n.Body.Rbrace, `; default: panic("unreachable") `)
	}
}

func (x *file) apply() []byte {
	sort.SliceStable(x.edits, func(i, j int) bool {
		a, b := x.edits[i], x.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		// closing insertions first (inner before outer), then openings outer before inner
		if (a.ord < 0) != (b.ord < 0) {
			return a.ord < 0
		}
		if a.ord < 0 {
			return a.ord < b.ord // later registered (inner) first
		}
		if (a.off == a.end) != (b.off == b.end) {
			return a.off == a.end
		}
		return a.ord < b.ord
	})
	return x.render(0, len(x.src), nil)
}

// render gives the text of a range with the edits inside it applied. Edits
// inside a replaced range are dropped, unless the replacement refers to them.
func (x *file) render(from, to int, skip *edit) []byte {
	var out []byte
	pos := from
	for i := range x.edits {
		e := &x.edits[i]
		if e.off < pos || e.end > to || e == skip || e.moved && e.off == from && e.end == to {
			continue
		}
		out = append(out, x.src[pos:e.off]...)
		out = append(out, x.expand(e)...)
		pos = e.end
	}
	return append(out, x.src[pos:to]...)
}

func (x *file) expand(e *edit) []byte {
	parts := strings.Split(e.text, "\x00")
	var out []byte
	for i, p := range parts {
		if i%2 == 0 {
			out = append(out, p...)
			continue
		}
		var a, b int
		fmt.Sscanf(p, "%d:%d", &a, &b)
		out = append(out, x.render(a, b, e)...)
	}
	return out
}

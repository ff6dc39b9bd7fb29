// Package rewrite turns the concurrency and time operations of a Go package
// into calls of the controlled scheduler verif.local/vs.
package rewrite

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"verif.local/tool/astutil"
)

const vsPath = "verif.local/vs"
const vsName = "vsrt_"

// selectors (import path, name) that are replaced by the same or another name in vs.
var selectors = map[string]map[string]string{
	"time": {
		"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After",
		"NewTimer": "NewTimer", "NewTicker": "NewTicker", "Tick": "Tick", "AfterFunc": "AfterFunc",
		"Timer": "Timer", "Ticker": "Ticker",
	},
	"sync": {
		"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once",
		"Cond": "Cond", "NewCond": "NewCond", "Locker": "Locker",
		"OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues",
	},
	"runtime": {"Gosched": "Gosched"},
	"context": {"WithCancel": "WithCancel", "WithTimeout": "WithTimeout", "WithDeadline": "WithDeadline", "WithCancelCause": "WithCancelCause", "WithTimeoutCause": "WithTimeoutCause", "WithDeadlineCause": "WithDeadlineCause", "Cause": "Cause", "AfterFunc": "ContextAfterFunc"},
	"reflect": {"Select": "ReflectSelect"},
	"sync/atomic": {
		"Bool": "AtomicBool", "Int32": "AtomicInt32", "Int64": "AtomicInt64", "Uint32": "AtomicUint32",
		"Uint64": "AtomicUint64", "Value": "AtomicValue", "Pointer": "AtomicPointer",
	},
}

// methods of reflect.Value on channels
var reflectMethods = map[string]string{
	"TrySend": "ReflectTrySend", "TryRecv": "ReflectTryRecv", "Send": "ReflectSend",
	"Recv": "ReflectRecv", "Close": "ReflectClose",
}

// Package describes one package to rewrite in place.
type Package struct {
	ImportPath string
	Dir        string
	GoFiles    []string
}

// Rewrite type-checks and rewrites the package in place. exports maps import
// paths to export data files.
func Rewrite(p Package, exports map[string]string) error {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, name := range p.GoFiles {
		f, err := parser.ParseFile(fset, filepath.Join(p.Dir, name), nil, parser.SkipObjectResolution|parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, f)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(f)
	})
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Uses:       map[*ast.Ident]types.Object{},
		Defs:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits:  map[ast.Node]types.Object{},
	}
	var firstErr error
	conf := types.Config{Importer: imp, Error: func(err error) {
		if firstErr == nil {
			firstErr = err
		}
	}}
	pkg, _ := conf.Check(p.ImportPath, fset, files, info)
	if firstErr != nil {
		return fmt.Errorf("%s: %v", p.ImportPath, firstErr)
	}
	for i, f := range files {
		r := &rewriter{info: info, pkg: pkg, fset: fset}
		out := r.file(f)
		var buf bytes.Buffer
		buf.WriteString("//go:build go1.21\n\n")
		if err := format.Node(&buf, fset, out); err != nil {
			return fmt.Errorf("%s: %v", p.GoFiles[i], err)
		}
		if err := os.WriteFile(filepath.Join(p.Dir, p.GoFiles[i]), buf.Bytes(), 0o644); err != nil {
			return err
		}
	}
	return nil
}

type rewriter struct {
	info   *types.Info
	pkg    *types.Package
	fset   *token.FileSet
	used   bool
	n      int
	ranges map[*ast.RangeStmt]types.Type
}

func (r *rewriter) vs(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent(vsName), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.vs(name), Args: args}
}

func (r *rewriter) tmp(base string) string {
	r.n++
	return "vs_" + base + strconv.Itoa(r.n)
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) (*types.Chan, bool) {
	if t == nil {
		return nil, false
	}
	c, ok := t.Underlying().(*types.Chan)
	return c, ok
}

func isBuiltin(info *types.Info, e ast.Expr, name string) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rewriter) file(f *ast.File) *ast.File {
	// comments are dropped except build constraints irrelevant here
	f.Comments = nil
	f.Doc = nil
	r.ranges = map[*ast.RangeStmt]types.Type{}
	ast.Inspect(f, func(n ast.Node) bool {
		if rs, ok := n.(*ast.RangeStmt); ok {
			r.ranges[rs] = r.typeOf(rs.X)
		}
		return true
	})
	res := astutil.Apply(f, nil, r.post).(*ast.File)
	if r.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent(vsName), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(vsPath)}}
		decl := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		res.Decls = append([]ast.Decl{decl}, res.Decls...)
	}
	r.fixImports(res)
	stripDocs(res)
	return res
}

func stripDocs(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
}

// fixImports blanks the imports that are no longer referenced.
func (r *rewriter) fixImports(f *ast.File) {
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			spec := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(spec.Path.Value)
			if _, mine := selectors[path]; !mine {
				continue
			}
			name := path[strings.LastIndexByte(path, '/')+1:]
			if spec.Name != nil {
				name = spec.Name.Name
			}
			if name != "_" && name != "." && !used[name] {
				spec.Name = ast.NewIdent("_")
			}
		}
	}
}

func (r *rewriter) pkgSel(s *ast.SelectorExpr) (path, name string) {
	id, ok := s.X.(*ast.Ident)
	if !ok {
		return "", ""
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	if !ok {
		return "", ""
	}
	return pn.Imported().Path(), s.Sel.Name
}

func (r *rewriter) post(c *astutil.Cursor) bool {
	switch n := c.Node().(type) {
	case *ast.SelectorExpr:
		path, name := r.pkgSel(n)
		if path == "" {
			return true
		}
		if to, ok := selectors[path][name]; ok {
			c.Replace(r.vs(to))
		}
	case *ast.UnaryExpr:
		if n.Op != token.ARROW {
			return true
		}
		// comma-ok form is decided by the parent
		switch p := c.Parent().(type) {
		case *ast.AssignStmt:
			if len(p.Lhs) == 2 && len(p.Rhs) == 1 {
				c.Replace(r.call("Recv2", n.X))
				return true
			}
		case *ast.ValueSpec:
			if len(p.Names) == 2 && len(p.Values) == 1 {
				c.Replace(r.call("Recv2", n.X))
				return true
			}
		}
		c.Replace(r.call("Recv", n.X))
	case *ast.ParenExpr:
	case *ast.SendStmt:
		if _, ok := c.Parent().(*ast.CommClause); ok && c.Name() == "Comm" {
			return true
		}
		c.Replace(&ast.ExprStmt{X: &ast.CallExpr{
			Fun:  &ast.SelectorExpr{X: r.call("SendTo", n.Chan), Sel: ast.NewIdent("Do")},
			Args: []ast.Expr{n.Value},
		}})
	case *ast.CallExpr:
		r.callExpr(c, n)
	case *ast.GoStmt:
		c.Replace(r.goStmt(n))
	case *ast.RangeStmt:
		r.rangeStmt(c, n)
	case *ast.SelectStmt:
		c.Replace(r.selectStmt(n))
	}
	return true
}

func (r *rewriter) callExpr(c *astutil.Cursor, n *ast.CallExpr) {
	switch {
	case isBuiltin(r.info, n.Fun, "close") && len(n.Args) == 1:
		c.Replace(r.call("Close", n.Args[0]))
		return
	case isBuiltin(r.info, n.Fun, "len") && len(n.Args) == 1:
		if ch, ok := isChan(r.typeOf(n.Args[0])); ok {
			if ch.Dir() == types.SendOnly {
				c.Replace(r.call("LenS", n.Args[0]))
			} else {
				c.Replace(r.call("Len", n.Args[0]))
			}
		}
		return
	}
	if s, ok := n.Fun.(*ast.SelectorExpr); ok {
		if sel := r.info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
			if to, ok := reflectMethods[s.Sel.Name]; ok && sel.Recv().String() == "reflect.Value" {
				c.Replace(r.call(to, append([]ast.Expr{s.X}, n.Args...)...))
				return
			}
		}
		if id, ok := s.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "sync/atomic" {
				// atomic.AddInt64(...): a scheduling point before the operation
				tv := r.typeOf(n)
				if tup, ok := tv.(*types.Tuple); (ok && tup.Len() == 0) || tv == nil {
					return
				}
				if _, isType := r.info.Uses[s.Sel].(*types.TypeName); isType {
					return
				}
				c.Replace(r.call("At", n))
			}
		}
	}
}

func (r *rewriter) goStmt(n *ast.GoStmt) ast.Stmt {
	call := n.Call
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		_ = fl
		return &ast.ExprStmt{X: r.call("Go", call.Fun)}
	}
	var stmts []ast.Stmt
	var args []ast.Expr
	fun := call.Fun
	simple := true
	if id, ok := ast.Unparen(fun).(*ast.Ident); ok {
		if _, b := r.info.Uses[id].(*types.Builtin); b {
			simple = false
		}
	}
	if tv, ok := r.info.Types[call.Fun]; ok && tv.IsBuiltin() {
		simple = false
	}
	if s, ok := fun.(*ast.SelectorExpr); ok {
		if id, ok := s.X.(*ast.Ident); ok && id.Name == vsName {
			simple = false // already replaced (close)
		}
	}
	if simple {
		name := r.tmp("f")
		stmts = append(stmts, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{fun}})
		fun = ast.NewIdent(name)
	}
	for _, a := range call.Args {
		tv, ok := r.info.Types[a]
		if ok && (tv.Value != nil || tv.IsNil()) {
			args = append(args, a)
			continue
		}
		if _, isLit := a.(*ast.FuncLit); isLit {
			args = append(args, a)
			continue
		}
		name := r.tmp("a")
		stmts = append(stmts, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		args = append(args, ast.NewIdent(name))
	}
	inner := &ast.CallExpr{Fun: fun, Args: args}
	if call.Ellipsis.IsValid() {
		inner.Ellipsis = 1
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	stmts = append(stmts, &ast.ExprStmt{X: r.call("Go", lit)})
	return &ast.BlockStmt{List: stmts}
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func addr(e ast.Expr) ast.Expr {
	if blank(e) {
		return ast.NewIdent("nil")
	}
	return &ast.UnaryExpr{Op: token.AND, X: e}
}

func (r *rewriter) rangeStmt(c *astutil.Cursor, n *ast.RangeStmt) {
	t := r.ranges[n]
	if t == nil {
		return
	}
	switch t.Underlying().(type) {
	case *types.Chan:
		ok := r.tmp("ok")
		first, next := r.call("Recv2", n.X), r.call("Recv2", n.X)
		var extra []ast.Expr
		if hasCall(n.X) {
			// evaluate the channel expression once
			ch := r.tmp("ch")
			first, next = r.call("Recv3", n.X), r.call("Recv2", ast.NewIdent(ch))
			extra = []ast.Expr{ast.NewIdent(ch)}
		}
		v := ast.Expr(ast.NewIdent("_"))
		if !blank(n.Key) {
			v = n.Key
		}
		if n.Tok == token.DEFINE || blank(n.Key) {
			init := &ast.AssignStmt{Lhs: append([]ast.Expr{v, ast.NewIdent(ok)}, extra...), Tok: token.DEFINE, Rhs: []ast.Expr{first}}
			post := &ast.AssignStmt{Lhs: []ast.Expr{v, ast.NewIdent(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{next}}
			c.Replace(&ast.ForStmt{Init: init, Cond: ast.NewIdent(ok), Post: post, Body: n.Body})
			return
		}
		// for x = range ch
		tv := r.tmp("v")
		init := &ast.AssignStmt{Lhs: append([]ast.Expr{ast.NewIdent(tv), ast.NewIdent(ok)}, extra...), Tok: token.DEFINE, Rhs: []ast.Expr{first}}
		post := &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(tv), ast.NewIdent(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{next}}
		n.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{n.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(tv)}}}, n.Body.List...)
		c.Replace(&ast.ForStmt{Init: init, Cond: ast.NewIdent(ok), Post: post, Body: n.Body})
	case *types.Map:
		it := r.tmp("it")
		if n.Tok == token.DEFINE && (!blank(n.Key) || !blank(n.Value)) {
			k, v := ast.Expr(ast.NewIdent("_")), ast.Expr(ast.NewIdent("_"))
			if !blank(n.Key) {
				k = n.Key
			}
			if !blank(n.Value) {
				v = n.Value
			}
			init := &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(it), k, v}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("MapIter3", n.X)}}
			cond := &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(it), Sel: ast.NewIdent("Next")}, Args: []ast.Expr{addr(n.Key), addr(n.Value)}}
			c.Replace(&ast.ForStmt{Init: init, Cond: cond, Body: n.Body})
			return
		}
		init := &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(it)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("MapIter", n.X)}}
		cond := &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(it), Sel: ast.NewIdent("Next")}, Args: []ast.Expr{addr(n.Key), addr(n.Value)}}
		c.Replace(&ast.ForStmt{Init: init, Cond: cond, Body: n.Body})
	}
}

func hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.CallExpr); ok {
			found = true
		}
		return true
	})
	return found
}

func (r *rewriter) selectStmt(n *ast.SelectStmt) ast.Stmt {
	if len(n.Body.List) == 0 {
		return &ast.ForStmt{Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.call("Block")}}}}
	}
	init := &ast.AssignStmt{Tok: token.DEFINE}
	hasDef := false
	var args []ast.Expr
	var clauses []ast.Stmt
	idx := 0
	type pend struct {
		cl  *ast.CaseClause
		def bool
	}
	var list []pend
	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		cl := &ast.CaseClause{Body: cc.Body}
		if cc.Comm == nil {
			hasDef = true
			list = append(list, pend{cl, true})
			continue
		}
		name := r.tmp("c")
		init.Lhs = append(init.Lhs, ast.NewIdent(name))
		args = append(args, ast.NewIdent(name))
		cl.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
		idx++
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			init.Rhs = append(init.Rhs, &ast.CallExpr{Fun: &ast.SelectorExpr{X: r.call("SendTo", cm.Chan), Sel: ast.NewIdent("Put")}, Args: []ast.Expr{cm.Value}})
		case *ast.ExprStmt:
			init.Rhs = append(init.Rhs, r.call("RecvCase", recvChan(cm.X)))
		case *ast.AssignStmt:
			init.Rhs = append(init.Rhs, r.call("RecvCase", recvChan(cm.Rhs[0])))
			m := "Val"
			if len(cm.Lhs) == 2 {
				m = "Val2"
			}
			as := &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent(m)}}}}
			allBlank := true
			for _, l := range cm.Lhs {
				if !blank(l) {
					allBlank = false
				}
			}
			if allBlank {
				as.Tok = token.ASSIGN
			}
			cl.Body = append([]ast.Stmt{as}, cl.Body...)
		}
		list = append(list, pend{cl, false})
	}
	// a switch without default is not a terminating statement: the last clause
	// becomes the default unless there is one already
	for i, p := range list {
		if p.def || (!hasDef && i == len(list)-1) {
			p.cl.List = nil
		}
		clauses = append(clauses, p.cl)
	}
	def := "false"
	if hasDef {
		def = "true"
	}
	sw := &ast.SwitchStmt{
		Tag:  r.call("Select", append([]ast.Expr{ast.NewIdent(def)}, args...)...),
		Body: &ast.BlockStmt{List: clauses},
	}
	if len(init.Lhs) > 0 {
		sw.Init = init
	}
	return sw
}

// recvChan undoes the rewriting of the receive expression in a comm clause.
func recvChan(e ast.Expr) ast.Expr {
	switch x := ast.Unparen(e).(type) {
	case *ast.CallExpr:
		return x.Args[0]
	case *ast.UnaryExpr:
		return x.X
	}
	panic("rewrite: unexpected receive")
}

// SortedKeys is a helper for deterministic output.
func SortedKeys(m map[string]string) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

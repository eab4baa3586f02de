// Command instr rewrites a copy of the repository for the controlled
// scheduler (see zz/vsched): usage instr -dir SCRATCH -exports FILE.
//
//   - imports of sync and sync/atomic are replaced by the shims;
//   - a scheduling point is put before every statement that may touch memory
//     shared between goroutines, and at the start of every loop body;
//   - compound assignments are split into read, point, write;
//   - copy of slices is interruptible; go statements start controlled threads;
//   - simple channel operations wait visibly;
//   - range over a map visits keys in an order the harness chooses.
//
// Nothing else changes: code that never runs under the scheduler behaves as before.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/iand/starbow"
const zz = modPath + "/internal/zz"

var splitRMW, importsOnly bool

var stats = map[string]int{}

func main() {
	dir := flag.String("dir", "", "scratch copy to rewrite in place")
	exports := flag.String("exports", "", "file with lines 'importpath exportfile'")
	level := flag.String("level", "full", "full; nord: do not split read-modify-write statements; imports: only replace sync and sync/atomic")
	skip := flag.String("skip", "", "comma separated package directories to leave alone")
	flag.Parse()

	splitRMW = *level == "full"
	importsOnly = *level == "imports"
	exp := map[string]string{}
	data, err := os.ReadFile(*exports)
	check(err)
	for _, l := range strings.Split(string(data), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 {
			exp[f[0]] = f[1]
		}
	}
	lookup := func(path string) (io.ReadCloser, error) {
		f, ok := exp[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	}
	skipped := map[string]bool{}
	for _, s := range strings.Split(*skip, ",") {
		if s != "" {
			skipped[s] = true
		}
	}

	var dirs []string
	check(filepath.Walk(*dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := filepath.Base(p)
			if p != *dir && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "zz" || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			rel, _ := filepath.Rel(*dir, p)
			if !skipped[rel] {
				dirs = append(dirs, p)
			}
		}
		return nil
	}))
	sort.Strings(dirs)
	for _, d := range dirs {
		doPackage(*dir, d, lookup)
	}
	var ks []string
	for k := range stats {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("%s=%d ", k, stats[k])
	}
	fmt.Println()
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}

func doPackage(root, dir string, lookup func(string) (io.ReadCloser, error)) {
	ents, err := os.ReadDir(dir)
	check(err)
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	var headers []string
	ctx := build.Default
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		ok, err := ctx.MatchFile(dir, n)
		check(err)
		if !ok {
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, n))
		check(err)
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), src, parser.SkipObjectResolution)
		check(err)
		files = append(files, f)
		names = append(names, n)
		var hdr string
		for _, l := range strings.Split(string(src), "\n") {
			t := strings.TrimSpace(l)
			if strings.HasPrefix(t, "package ") {
				break
			}
			if strings.HasPrefix(t, "//go:build") || strings.HasPrefix(t, "// +build") {
				hdr += t + "\n"
			}
		}
		headers = append(headers, hdr)
	}
	if len(files) == 0 {
		return
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", lookup),
		Error:    func(error) { stats["type_errors"]++ },
	}
	rel, _ := filepath.Rel(root, dir)
	path := modPath
	if rel != "." {
		path += "/" + filepath.ToSlash(rel)
	}
	pkg, _ := conf.Check(path, fset, files, info)
	for i, f := range files {
		r := &rewriter{info: info, pkg: pkg, fset: fset, used: map[string]bool{}}
		r.file(f)
		var buf bytes.Buffer
		if headers[i] != "" {
			buf.WriteString(headers[i] + "\n")
		}
		f.Comments = nil
		check(format.Node(&buf, token.NewFileSet(), f))
		check(os.WriteFile(filepath.Join(dir, names[i]), buf.Bytes(), 0644))
		stats["files"]++
	}
}

type rewriter struct {
	info *types.Info
	pkg  *types.Package
	fset *token.FileSet
	used map[string]bool
	// variables declared in the function literal or declaration being rewritten
	fn   ast.Node
	body *ast.BlockStmt
}

func (r *rewriter) sched(name string, args ...ast.Expr) *ast.CallExpr {
	r.used["vsched"] = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsched_"), Sel: ast.NewIdent(name)}, Args: args}
}

func (r *rewriter) point() ast.Stmt {
	stats["points"]++
	return &ast.ExprStmt{X: r.sched("P")}
}

func (r *rewriter) file(f *ast.File) {
	// imports
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			p, _ := strconv.Unquote(is.Path.Value)
			switch p {
			case "sync":
				if is.Name == nil {
					is.Name = ast.NewIdent("sync")
				}
				is.Path.Value = strconv.Quote(zz + "/vsync")
				stats["sync_imports"]++
			case "sync/atomic":
				if is.Name == nil {
					is.Name = ast.NewIdent("atomic")
				}
				is.Path.Value = strconv.Quote(zz + "/vatomic")
				stats["atomic_imports"]++
			}
			is.EndPos = 0
		}
	}
	if importsOnly {
		return
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			d.Doc = nil
			if d.Body != nil {
				r.fn, r.body = d, d.Body
				r.block(d.Body)
			}
		case *ast.GenDecl:
			d.Doc = nil
			// function literals in package variables
			if d.Tok == token.VAR {
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					for i := range vs.Values {
						vs.Values[i] = r.expr(vs.Values[i])
					}
				}
			}
		}
	}
	if r.used["vsched"] {
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{
			&ast.ImportSpec{Name: ast.NewIdent("vsched_"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(zz + "/vsched")}},
		}}}, f.Decls...)
	}
}

// block rewrites the statements of b in place.
func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.list(b.List)
}

func (r *rewriter) list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		if r.stmtTouches(s) {
			out = append(out, r.point())
		}
		reads, writes := r.mapUses(s)
		for _, m := range reads {
			out = append(out, &ast.ExprStmt{X: r.sched("MapR", m)})
		}
		if len(writes) == 0 {
			out = append(out, r.stmt(s))
			continue
		}
		stats["map_writes"]++
		if a, ok := s.(*ast.AssignStmt); ok && a.Tok == token.ASSIGN && len(a.Rhs) == 1 && hasCall(a.Rhs[0]) {
			// evaluate the value before the write begins
			n := ast.NewIdent("vmapw_v")
			t := &ast.AssignStmt{Lhs: []ast.Expr{n}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(a.Rhs[0])}}
			var b []ast.Stmt
			b = append(b, t, &ast.ExprStmt{X: r.sched("MapW", writes[0])})
			a.Rhs = []ast.Expr{n}
			b = append(b, a, &ast.ExprStmt{X: r.sched("MapWEnd", writes[0])})
			out = append(out, &ast.BlockStmt{List: b})
			continue
		}
		out = append(out, &ast.ExprStmt{X: r.sched("MapW", writes[0])}, r.stmt(s), &ast.ExprStmt{X: r.sched("MapWEnd", writes[0])})
	}
	return out
}

// mapUses lists the maps that the head of s reads, and the one it writes: only
// where the map is named without calls, and a write only in simple statements.
func (r *rewriter) mapUses(s ast.Stmt) (reads, writes []ast.Expr) {
	isMap := func(e ast.Expr) bool {
		tv, ok := r.info.Types[e]
		if !ok || tv.Type == nil || hasCall(e) {
			return false
		}
		_, is := tv.Type.Underlying().(*types.Map)
		return is && !tv.IsType()
	}
	defined := map[string]bool{} // by the statement's own init
	var in func(n ast.Node)
	in = func(n ast.Node) {
		if n == nil {
			return
		}
		ast.Inspect(n, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit, *ast.BlockStmt:
				return false
			case *ast.IndexExpr:
				if isMap(n.X) {
					clash := false
					ast.Inspect(n.X, func(m ast.Node) bool {
						if id, ok := m.(*ast.Ident); ok && defined[id.Name] {
							clash = true
						}
						return true
					})
					if !clash {
						reads = append(reads, n.X)
					}
				}
			}
			return true
		})
	}
	init := func(i ast.Stmt) {
		if a, ok := i.(*ast.AssignStmt); ok {
			for _, e := range a.Rhs {
				in(e)
			}
			for _, e := range a.Lhs {
				if id, ok := e.(*ast.Ident); ok {
					defined[id.Name] = true
				}
			}
		}
	}
	switch s := s.(type) {
	case *ast.AssignStmt:
		for _, e := range s.Rhs {
			in(e)
		}
		if len(s.Lhs) == 1 {
			if ix, ok := s.Lhs[0].(*ast.IndexExpr); ok && isMap(ix.X) && !hasCall(ix) && (s.Tok == token.ASSIGN && (!hasCall(s.Rhs[0]) || r.plainValue(s.Rhs[0])) || s.Tok != token.ASSIGN && !hasCall(s.Rhs[0])) {
				writes = append(writes, ix.X)
			}
		}
	case *ast.IncDecStmt:
		if ix, ok := s.X.(*ast.IndexExpr); ok && isMap(ix.X) && !hasCall(ix) {
			writes = append(writes, ix.X)
		}
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok {
				if b, is := r.info.Uses[id].(*types.Builtin); is && (b.Name() == "delete" || b.Name() == "clear") && isMap(c.Args[0]) {
					writes = append(writes, c.Args[0])
					return
				}
			}
		}
		in(s.X)
	case *ast.ReturnStmt:
		for _, e := range s.Results {
			in(e)
		}
	case *ast.DeclStmt:
		in(s)
	case *ast.IfStmt:
		if s.Init != nil {
			init(s.Init)
		}
		in(s.Cond)
	case *ast.SwitchStmt:
		if s.Init != nil {
			init(s.Init)
		}
		if s.Tag != nil {
			in(s.Tag)
		}
	case *ast.RangeStmt:
		if isMap(s.X) {
			reads = append(reads, s.X)
		}
	}
	return
}

// stmt rewrites one statement (its own expressions and nested blocks).
func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		r.block(s)
	case *ast.LabeledStmt:
		if _, isRange := s.Stmt.(*ast.RangeStmt); isRange {
			n := r.stmt(s.Stmt)
			if b, ok := n.(*ast.BlockStmt); ok {
				// a rewritten map range: the label belongs to the loop
				s.Stmt = b.List[len(b.List)-1]
				b.List[len(b.List)-1] = s
				return b
			}
			s.Stmt = n
			return s
		}
		s.Stmt = r.stmt(s.Stmt)
	case *ast.IfStmt:
		if s.Init != nil {
			s.Init = r.stmt(s.Init)
		}
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		switch e := s.Else.(type) {
		case *ast.BlockStmt:
			r.block(e)
		case *ast.IfStmt:
			t := r.stmtTouches(e)
			n := r.stmt(e)
			if t {
				s.Else = &ast.BlockStmt{List: []ast.Stmt{r.point(), n}}
			} else {
				s.Else = n
			}
		}
	case *ast.ForStmt:
		if s.Init != nil {
			s.Init = r.stmt(s.Init)
		}
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		hdr := s.Cond != nil && r.touches(s.Cond)
		empty := len(s.Body.List) == 0
		r.block(s.Body)
		if hdr || empty || s.Cond == nil && len(s.Body.List) > 0 && !isPoint(s.Body.List[0]) {
			s.Body.List = append([]ast.Stmt{r.point()}, s.Body.List...)
		}
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.SwitchStmt:
		if s.Init != nil {
			s.Init = r.stmt(s.Init)
		}
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.expr(cc.List[i])
			}
			cc.Body = r.list(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = r.list(cc.Body)
		}
	case *ast.SelectStmt:
		for _, c := range s.Body.List {
			cc := c.(*ast.CommClause)
			cc.Body = r.list(cc.Body)
		}
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		s.Chan, s.Value = r.expr(s.Chan), r.expr(s.Value)
		stats["chan_ops"]++
		return &ast.ExprStmt{X: r.sched("Send", s.Chan, s.Value)}
	case *ast.IncDecStmt:
		if splitRMW && r.touches(s.X) && !hasCall(s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			stats["rmw"]++
			return &ast.AssignStmt{Lhs: []ast.Expr{s.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{
				&ast.BinaryExpr{X: r.sched("Rd", s.X), Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}}
		}
	case *ast.AssignStmt:
		if u, ok := recvOf(s.Rhs); ok && len(s.Lhs) == 2 {
			stats["chan_ops"]++
			s.Rhs[0] = r.sched("Recv2", r.expr(u.X))
			return s
		}
		for i := range s.Rhs {
			s.Rhs[i] = r.expr(s.Rhs[i])
		}
		for i := range s.Lhs {
			s.Lhs[i] = r.expr(s.Lhs[i])
		}
		if splitRMW && len(s.Lhs) == 1 && len(s.Rhs) == 1 && s.Tok != token.DEFINE && r.touches(s.Lhs[0]) {
			if s.Tok == token.ASSIGN && r.bigArray(s.Lhs[0]) && addressable(s.Lhs[0]) && addressable(s.Rhs[0]) {
				stats["copies"]++
				return &ast.ExprStmt{X: r.sched("CopyVal", &ast.UnaryExpr{Op: token.AND, X: s.Lhs[0]}, &ast.UnaryExpr{Op: token.AND, X: s.Rhs[0]})}
			}
			if s.Tok == token.ASSIGN {
				if r.touches(s.Rhs[0]) && r.plainValue(s.Rhs[0]) {
					stats["rmw"]++
					s.Rhs[0] = r.sched("Rd", s.Rhs[0])
				}
			} else if !hasCall(s.Lhs[0]) {
				stats["rmw"]++
				op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
					token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
					token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[s.Tok]
				return &ast.AssignStmt{Lhs: s.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{
					&ast.BinaryExpr{X: r.sched("Rd", s.Lhs[0]), Op: op, Y: &ast.ParenExpr{X: s.Rhs[0]}}}}
			}
		}
	case *ast.GoStmt:
		stats["go"]++
		call := s.Call
		var pre []ast.Stmt
		call.Fun = r.expr(call.Fun)
		if _, isLit := call.Fun.(*ast.FuncLit); !isLit {
			n := ast.NewIdent("vgo_f")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{n}, Tok: token.DEFINE, Rhs: []ast.Expr{call.Fun}})
			call.Fun = n
		}
		for i := range call.Args {
			n := ast.NewIdent(fmt.Sprintf("vgo_%d", i))
			a := r.expr(call.Args[i])
			if tv, ok := r.info.Types[call.Args[i]]; ok && (tv.IsNil() || tv.Value != nil) {
				call.Args[i] = a
				continue
			}
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{n}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
			call.Args[i] = n
		}
		pre = append(pre, &ast.ExprStmt{X: r.sched("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}})})
		return &ast.BlockStmt{List: pre}
	case *ast.DeferStmt:
		call := s.Call
		call.Fun = r.expr(call.Fun)
		for i := range call.Args {
			call.Args[i] = r.expr(call.Args[i])
		}
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = r.expr(s.Results[i])
		}
	case *ast.DeclStmt:
		if gd, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range gd.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok {
					for i := range vs.Values {
						vs.Values[i] = r.expr(vs.Values[i])
					}
				}
			}
		}
	}
	return s
}

func recvOf(rhs []ast.Expr) (*ast.UnaryExpr, bool) {
	if len(rhs) != 1 {
		return nil, false
	}
	u, ok := rhs[0].(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func isPoint(s ast.Stmt) bool {
	es, ok := s.(*ast.ExprStmt)
	if !ok {
		return false
	}
	c, ok := es.X.(*ast.CallExpr)
	if !ok {
		return false
	}
	se, ok := c.Fun.(*ast.SelectorExpr)
	return ok && se.Sel.Name == "P"
}

// plainValue reports whether e has a type that survives Rd[T] unchanged.
func (r *rewriter) plainValue(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil || tv.Value != nil || tv.IsNil() {
		return false
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return false
	}
	// a constant shifted by a variable takes its type from the context
	shift := false
	ast.Inspect(e, func(n ast.Node) bool {
		if b, ok := n.(*ast.BinaryExpr); ok && (b.Op == token.SHL || b.Op == token.SHR) {
			if x, ok := r.info.Types[b.X]; !ok || x.Value != nil {
				shift = true
			}
			if _, paren := b.X.(*ast.ParenExpr); paren {
				shift = true
			}
		}
		return !shift
	})
	if shift {
		return false
	}
	if _, ok := tv.Type.(*types.Tuple); ok {
		return false
	}
	return true
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	var isMap bool
	if tv, ok := r.info.Types[s.X]; ok && tv.Type != nil {
		_, isMap = tv.Type.Underlying().(*types.Map)
	}
	s.X = r.expr(s.X)
	r.block(s.Body)
	if !isMap {
		return s
	}
	stats["map_ranges"]++
	// for k, v := range m {B}  =>  { vm := m; for _, vk := range MapKeys(vm) { vv, ok := vm[vk]; if !ok {continue}; k, v := vk, vv; B } }
	vm, vk, vv, ok := ast.NewIdent("vmap_m"), ast.NewIdent("vmap_k"), ast.NewIdent("vmap_v"), ast.NewIdent("vmap_ok")
	var lhs, rhs []ast.Expr
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, is := e.(*ast.Ident)
		return is && id.Name == "_"
	}
	if !blank(s.Key) {
		lhs, rhs = append(lhs, s.Key), append(rhs, vk)
	}
	if !blank(s.Value) {
		lhs, rhs = append(lhs, s.Value), append(rhs, vv)
	}
	pre := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{vv, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: vm, Index: vk}}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{vv}},
	}
	if len(lhs) > 0 {
		pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: s.Tok, Rhs: rhs})
	}
	body := &ast.BlockStmt{List: append(pre, s.Body.List...)}
	loop := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: vk, Tok: token.DEFINE, X: r.sched("MapKeys", vm), Body: body}
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{vm}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}},
		loop,
	}}
}

// expr rewrites nested function literals, copy calls, channel receives and
// yields inside e and returns the replacement.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.FuncLit:
		ofn, ob := r.fn, r.body
		r.fn, r.body = e, e.Body
		r.block(e.Body)
		r.fn, r.body = ofn, ob
	case *ast.CallExpr:
		for i := range e.Args {
			e.Args[i] = r.expr(e.Args[i])
		}
		e.Fun = r.expr(e.Fun)
		if id, ok := e.Fun.(*ast.Ident); ok && id.Name == "copy" && len(e.Args) == 2 {
			if _, builtin := r.info.Uses[id].(*types.Builtin); builtin && r.isSlice(e.Args[0]) && r.isSlice(e.Args[1]) {
				stats["copies"]++
				return r.sched("Copy", e.Args...)
			}
		}
		if se, ok := e.Fun.(*ast.SelectorExpr); ok {
			if id, ok := se.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
					q := pn.Imported().Path() + "." + se.Sel.Name
					if q == "runtime.Gosched" || q == "time.Sleep" {
						// keep the call for its import; it only runs uncontrolled
						stats["yields"]++
						if q == "runtime.Gosched" {
							return r.sched("Gosched", e.Fun)
						}
						return r.sched("Sleep", e.Args[0], e.Fun)
					}
				}
			}
		}
	case *ast.UnaryExpr:
		e.X = r.expr(e.X)
		if e.Op == token.ARROW {
			stats["chan_ops"]++
			return r.sched("Recv", e.X)
		}
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.SelectorExpr:
		e.X = r.expr(e.X)
	case *ast.IndexExpr:
		e.X, e.Index = r.expr(e.X), r.expr(e.Index)
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		if e.Low != nil {
			e.Low = r.expr(e.Low)
		}
		if e.High != nil {
			e.High = r.expr(e.High)
		}
		if e.Max != nil {
			e.Max = r.expr(e.Max)
		}
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
	case *ast.CompositeLit:
		for i := range e.Elts {
			e.Elts[i] = r.expr(e.Elts[i])
		}
	case *ast.KeyValueExpr:
		e.Value = r.expr(e.Value)
	}
	return e
}

func (r *rewriter) isSlice(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, is := tv.Type.Underlying().(*types.Slice)
	return is
}

// bigArray reports whether e is an array that is not copied in one machine step.
func (r *rewriter) bigArray(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	a, is := tv.Type.Underlying().(*types.Array)
	return is && a.Len() > 1
}

func addressable(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name != "_"
	case *ast.ParenExpr:
		return addressable(e.X)
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		return !hasCall(e)
	case *ast.IndexExpr:
		return !hasCall(e)
	}
	return false
}

func hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.CallExpr); ok {
			found = true
		}
		return !found
	})
	return found
}

// stmtTouches reports whether executing the head of s (not its nested blocks)
// may access memory shared between goroutines.
func (r *rewriter) stmtTouches(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.BlockStmt, *ast.EmptyStmt, *ast.BranchStmt, *ast.GoStmt:
		return false
	case *ast.LabeledStmt:
		return r.stmtTouches(s.Stmt)
	case *ast.IfStmt:
		return s.Init != nil && r.stmtTouches(s.Init) || r.touches(s.Cond)
	case *ast.ForStmt:
		return s.Init != nil && r.stmtTouches(s.Init)
	case *ast.RangeStmt:
		return r.touches(s.X)
	case *ast.SwitchStmt:
		t := s.Init != nil && r.stmtTouches(s.Init) || s.Tag != nil && r.touches(s.Tag)
		for _, c := range s.Body.List {
			for _, e := range c.(*ast.CaseClause).List {
				t = t || r.touches(e)
			}
		}
		return t
	case *ast.TypeSwitchStmt:
		return r.stmtTouches(s.Assign)
	case *ast.SelectStmt:
		return true
	case *ast.DeferStmt:
		for _, a := range s.Call.Args {
			if r.touches(a) {
				return true
			}
		}
		return false
	case *ast.AssignStmt:
		for _, e := range append(append([]ast.Expr{}, s.Lhs...), s.Rhs...) {
			if r.touches(e) {
				return true
			}
		}
		return false
	case *ast.ExprStmt:
		return r.touches(s.X)
	case *ast.IncDecStmt:
		return r.touches(s.X)
	case *ast.SendStmt:
		return true
	case *ast.ReturnStmt:
		for _, e := range s.Results {
			if r.touches(e) {
				return true
			}
		}
		return false
	case *ast.DeclStmt:
		t := false
		if gd, ok := s.Decl.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			for _, sp := range gd.Specs {
				for _, v := range sp.(*ast.ValueSpec).Values {
					t = t || r.touches(v)
				}
			}
		}
		return t
	}
	return false
}

// touches reports whether evaluating e may access shared memory directly
// (not inside functions of this module that it calls: those have points of their own).
func (r *rewriter) touches(e ast.Expr) bool {
	switch e := e.(type) {
	case nil, *ast.BasicLit, *ast.FuncLit, *ast.ArrayType, *ast.MapType, *ast.StructType, *ast.FuncType, *ast.InterfaceType, *ast.ChanType, *ast.Ellipsis:
		return false
	case *ast.Ident:
		v, ok := r.info.Uses[e].(*types.Var)
		if !ok {
			return false
		}
		if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			return true
		}
		return !r.local(v)
	case *ast.ParenExpr:
		return r.touches(e.X)
	case *ast.KeyValueExpr:
		return r.touches(e.Value)
	case *ast.UnaryExpr:
		if e.Op == token.AND {
			// taking an address reads only what leads to the operand
			return r.addrTouches(e.X)
		}
		if e.Op == token.ARROW {
			return true
		}
		return r.touches(e.X)
	case *ast.BinaryExpr:
		return r.touches(e.X) || r.touches(e.Y)
	case *ast.StarExpr:
		if tv, ok := r.info.Types[e]; ok && tv.IsType() {
			return false
		}
		return true
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if _, isPkg := r.info.Uses[id].(*types.PkgName); isPkg {
				v, isVar := r.info.Uses[e.Sel].(*types.Var)
				return isVar && v.Pkg() != nil && strings.HasPrefix(v.Pkg().Path(), modPath)
			}
		}
		if tv, ok := r.info.Types[e.X]; ok && tv.Type != nil {
			if _, isPtr := tv.Type.Underlying().(*types.Pointer); isPtr {
				return true
			}
		}
		return r.touches(e.X)
	case *ast.IndexExpr:
		if tv, ok := r.info.Types[e.X]; ok && tv.Type != nil {
			switch tv.Type.Underlying().(type) {
			case *types.Array:
				return r.touches(e.X) || r.touches(e.Index)
			case *types.Signature:
				return false
			case *types.Basic: // string
				return r.touches(e.X) || r.touches(e.Index)
			}
		}
		return true
	case *ast.SliceExpr:
		return r.touches(e.X) || r.touches(e.Low) || r.touches(e.High) || r.touches(e.Max)
	case *ast.TypeAssertExpr:
		return r.touches(e.X)
	case *ast.CompositeLit:
		for _, x := range e.Elts {
			if r.touches(x) {
				return true
			}
		}
		return false
	case *ast.CallExpr:
		return r.callTouches(e)
	}
	return true
}

func (r *rewriter) addrTouches(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.addrTouches(e.X)
	case *ast.Ident:
		return false
	case *ast.SelectorExpr:
		return r.addrTouches(e.X)
	case *ast.IndexExpr:
		return r.touches(e.Index) || r.addrTouches(e.X)
	case *ast.CompositeLit:
		return r.touches(e)
	}
	return r.touches(e)
}

func (r *rewriter) callTouches(e *ast.CallExpr) bool {
	// conversions and builtins
	if tv, ok := r.info.Types[e.Fun]; ok && tv.IsType() {
		if len(e.Args) == 1 {
			// a conversion of a slice to a string (or back) reads the elements
			if at, ok := r.info.Types[e.Args[0]]; ok && at.Type != nil {
				if _, is := at.Type.Underlying().(*types.Slice); is {
					if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
						return true
					}
				}
			}
			return r.touches(e.Args[0])
		}
		return false
	}
	if id, ok := e.Fun.(*ast.Ident); ok {
		if b, isB := r.info.Uses[id].(*types.Builtin); isB {
			switch b.Name() {
			case "len", "cap", "make", "new", "panic", "min", "max", "recover", "print", "println":
				for _, a := range e.Args {
					if tv, ok := r.info.Types[a]; ok && tv.IsType() {
						continue
					}
					if r.touches(a) {
						return true
					}
				}
				return false
			case "copy":
				return !(r.isSlice(e.Args[0]) && r.isSlice(e.Args[1])) // Copy has its own points
			}
			return true // append, delete, clear, close...
		}
	}
	argTouch := false
	for _, a := range e.Args {
		argTouch = argTouch || r.touches(a)
	}
	var obj types.Object
	switch f := e.Fun.(type) {
	case *ast.Ident:
		obj = r.info.Uses[f]
	case *ast.SelectorExpr:
		obj = r.info.Uses[f.Sel]
	}
	if fn, ok := obj.(*types.Func); ok && fn.Pkg() != nil {
		p := fn.Pkg().Path()
		if p == "sync" || p == "sync/atomic" {
			return argTouch
		}
		if p == "errors" || p == "fmt" || p == "math" || p == "strconv" || p == "net/http" || p == "time" || p == "mime" || p == "log" {
			return argTouch
		}
		if strings.HasPrefix(p, modPath) {
			sig := fn.Type().(*types.Signature)
			if se, ok := e.Fun.(*ast.SelectorExpr); ok && sig.Recv() != nil {
				if _, isPtr := sig.Recv().Type().Underlying().(*types.Pointer); isPtr {
					return argTouch || r.addrTouches(se.X)
				}
				return argTouch || r.touches(se.X)
			}
			return argTouch
		}
	}
	return true
}

// local reports whether v is declared in the function being rewritten (and so
// is not a variable captured from an enclosing function).
func (r *rewriter) local(v *types.Var) bool {
	if r.fn == nil {
		return true
	}
	if v.IsField() {
		return true
	}
	return v.Pos() >= r.fn.Pos() && v.Pos() <= r.fn.End()
}

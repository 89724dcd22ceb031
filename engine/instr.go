package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The instrumenter puts a gate (nd.Gate) before every statement that touches
// memory other than local variables, and replaces sync and sync/atomic by
// shims with gates of their own. Compound assignments are split into load and
// store. Lines keep their numbers. It changes nothing else: outside nd.Par a
// gate does nothing.

var gateRe = regexp.MustCompile(`(?m)^//gate: (.*)$`)

// gatedDirs lists the repository packages to be instrumented for a harness
// package.
func gatedDirs(verif, pkg string) []string {
	var r []string
	fs, _ := filepath.Glob(filepath.Join(verif, "harness", pkg, "*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, m := range gateRe.FindAllSubmatch(b, -1) {
			r = append(r, strings.Fields(string(m[1]))...)
		}
	}
	return r
}

type edit struct {
	at   int
	end  int // text replaced, empty for an insertion
	text string
	pri  int
}

type instrumenter struct {
	mod   string
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	src   []byte
	base  int
	edits []edit
	sites int
	names int
	ended bool              // the write of a map being described is ended by MapEnd
	lit   *ast.FuncLit      // innermost around the statements being handled
	right map[ast.Expr]bool // right operands of && and || handled
}

func (e *Engine) instrument(dirs []string, out string) (map[string]string, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedDeps, Dir: e.repo, Env: goEnv()}
	var pats []string
	for _, d := range dirs {
		pats = append(pats, e.module+"/"+d)
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	ov := map[string]string{}
	in := &instrumenter{mod: e.module, sites: shimSites}
	for _, p := range ps {
		for _, x := range p.Errors {
			return nil, x
		}
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			src, err := os.ReadFile(name)
			if err != nil {
				return nil, err
			}
			in.fset, in.info, in.pkg, in.src, in.edits = p.Fset, p.TypesInfo, p.Types, src, nil
			in.base = p.Fset.File(f.Pos()).Base()
			in.file(f)
			dst := filepath.Join(out, fmt.Sprintf("gated%d_%s", len(ov), filepath.Base(name)))
			if err := os.WriteFile(dst, in.apply(), 0644); err != nil {
				return nil, err
			}
			ov[name] = dst
		}
	}
	return ov, nil
}

func (in *instrumenter) off(p token.Pos) int { return int(p) - in.base }

func (in *instrumenter) text(n ast.Node) string {
	return string(in.src[in.off(n.Pos()):in.off(n.End())])
}

func (in *instrumenter) insert(p token.Pos, pri int, s string) {
	o := in.off(p)
	in.edits = append(in.edits, edit{o, o, s, pri})
}

func (in *instrumenter) replace(p, q token.Pos, s string) {
	in.edits = append(in.edits, edit{in.off(p), in.off(q), s, 0})
}

func (in *instrumenter) apply() []byte {
	sort.SliceStable(in.edits, func(i, j int) bool {
		a, b := in.edits[i], in.edits[j]
		if a.at != b.at {
			return a.at < b.at
		}
		if ai, bi := a.end == a.at, b.end == b.at; ai != bi {
			return ai // insertions before replacements
		}
		return a.pri < b.pri
	})
	var sb strings.Builder
	pos := 0
	for _, e := range in.edits {
		if e.at < pos {
			continue
		}
		sb.Write(in.src[pos:e.at])
		sb.WriteString(e.text)
		pos = e.end
	}
	sb.Write(in.src[pos:])
	return []byte(sb.String())
}

func (in *instrumenter) file(f *ast.File) {
	zz := in.mod + "/internal/zzverif/"
	in.insert(f.Name.End(), 0, "; import zznd \""+zz+"nd\"")
	for _, im := range f.Imports {
		shim, name := "", ""
		switch im.Path.Value {
		case `"sync"`:
			shim, name = "psync", "sync"
		case `"sync/atomic"`:
			shim, name = "patomic", "atomic"
		case `"os/signal"`:
			shim, name = "psignal", "signal"
		default:
			continue
		}
		t := "\"" + zz + shim + "\""
		if im.Name == nil {
			t = name + " " + t
		}
		in.replace(im.Path.Pos(), im.Path.End(), t)
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			in.block(fd.Body.List)
		} else if gd, ok := d.(*ast.GenDecl); ok {
			// function literals in package variables
			in.lits(gd)
		}
	}
	in.insert(f.End(), 9, "\nvar _ = zznd.Gate\n")
}

func (in *instrumenter) lits(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		if fl, ok := n.(*ast.FuncLit); ok {
			o := in.lit
			in.lit = fl
			in.block(fl.Body.List)
			in.lit = o
			return false
		}
		return true
	})
}

type acc struct {
	e     ast.Expr
	write bool
}

func (in *instrumenter) isVar(id *ast.Ident) (*types.Var, bool) {
	v, ok := in.info.ObjectOf(id).(*types.Var)
	return v, ok
}

// shared reports whether an expression denotes memory other than a local
// variable.
func (in *instrumenter) shared(x ast.Expr) bool {
	switch x := x.(type) {
	case *ast.Ident:
		v, ok := in.isVar(x)
		if !ok || v.IsField() || x.Name == "_" {
			return false
		}
		// variables of the package, and those a closure captures
		return v.Parent() == in.pkg.Scope() || in.lit != nil && v.Pkg() == in.pkg && (v.Pos() < in.lit.Pos() || v.Pos() >= in.lit.End())
	case *ast.ParenExpr:
		return in.shared(x.X)
	case *ast.StarExpr:
		return in.info.Types[x].IsValue()
	case *ast.SelectorExpr:
		if sel := in.info.Selections[x]; sel != nil {
			if sel.Kind() != types.FieldVal {
				return false
			}
			return sel.Indirect() || in.shared(x.X)
		}
		v, ok := in.info.ObjectOf(x.Sel).(*types.Var) // variable of another package
		return ok && !v.IsField()
	case *ast.IndexExpr:
		t := in.info.TypeOf(x.X)
		if t == nil {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Pointer:
			return true
		case *types.Array:
			_ = u
			return in.shared(x.X)
		}
		return false
	}
	return false
}

// reads collects the memory an expression reads, outermost accesses first.
func (in *instrumenter) reads(x ast.Node, out *[]acc) {
	if x == nil {
		return
	}
	switch n := x.(type) {
	case *ast.FuncLit:
		return
	case *ast.UnaryExpr:
		if n.Op == token.AND {
			in.addrReads(n.X, out)
			return
		}
	case *ast.BinaryExpr:
		if n.Op == token.LAND || n.Op == token.LOR {
			in.reads(n.X, out)
			in.operand(n.Y)
			return
		}
	case *ast.CallExpr:
		if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
			if s := in.info.Selections[sel]; s != nil && s.Kind() == types.MethodVal {
				if _, ptr := s.Recv().Underlying().(*types.Pointer); !ptr && s.Indirect() == false && in.shared(sel.X) {
					if sig, ok := s.Obj().Type().(*types.Signature); ok {
						if _, pr := sig.Recv().Type().Underlying().(*types.Pointer); pr {
							in.addrReads(sel.X, out) // &x is passed
							for _, a := range n.Args {
								in.reads(a, out)
							}
							return
						}
					}
				}
			}
		}
	case *ast.SelectorExpr:
		if in.shared(n) {
			*out = append(*out, acc{n, false})
			in.addrReads(n, out)
			return
		}
		if in.info.Selections[n] == nil {
			return
		}
	case *ast.KeyValueExpr:
		in.reads(n.Value, out)
		return
	case ast.Expr:
		if in.shared(n) {
			*out = append(*out, acc{n, false})
			in.addrReads(n, out)
			return
		}
	}
	for _, c := range children(x) {
		in.reads(c, out)
	}
}

// operand guards the right operand of && or ||, which reads memory only where
// the left one asks for it.
func (in *instrumenter) operand(x ast.Expr) {
	if in.right == nil {
		in.right = map[ast.Expr]bool{}
	}
	if in.right[x] {
		return
	}
	in.right[x] = true
	in.guard(x)
}

func (in *instrumenter) guard(x ast.Expr) {
	var as []acc
	in.reads(x, &as)
	if len(as) == 0 {
		return
	}
	if t, ok := in.info.TypeOf(x).(*types.Basic); !ok || t.Info()&types.IsBoolean == 0 {
		return
	}
	in.insert(x.Pos(), 6, in.call(as)+" && (")
	in.insert(x.End(), 0, ")")
}

// addrReads collects what computing the address of x reads.
func (in *instrumenter) addrReads(x ast.Expr, out *[]acc) {
	switch n := x.(type) {
	case *ast.ParenExpr:
		in.addrReads(n.X, out)
	case *ast.StarExpr:
		in.reads(n.X, out)
	case *ast.SelectorExpr:
		if in.info.Selections[n] == nil {
			return
		}
		if t := in.info.TypeOf(n.X); t != nil {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				in.reads(n.X, out)
				return
			}
		}
		in.addrReads(n.X, out)
	case *ast.IndexExpr:
		in.reads(n.Index, out)
		if t := in.info.TypeOf(n.X); t != nil {
			if _, ok := t.Underlying().(*types.Array); ok {
				in.addrReads(n.X, out)
				return
			}
		}
		in.reads(n.X, out)
	case *ast.Ident:
	default:
		in.reads(x, out)
	}
}

func children(n ast.Node) []ast.Node {
	var r []ast.Node
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil {
			return false
		}
		if c == n {
			return true
		}
		r = append(r, c)
		return false
	})
	return r
}

// pure reports whether evaluating x twice is harmless.
func (in *instrumenter) pure(x ast.Expr) bool {
	ok := true
	ast.Inspect(x, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if tv := in.info.Types[n.Fun]; tv.IsType() {
				return true
			}
			if id, isID := n.Fun.(*ast.Ident); isID {
				if _, b := in.info.Uses[id].(*types.Builtin); b && (id.Name == "len" || id.Name == "cap") {
					return true
				}
			}
			ok = false
		case *ast.FuncLit, *ast.TypeAssertExpr, *ast.CompositeLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (in *instrumenter) addressable(x ast.Expr) bool {
	if !in.pure(x) || !in.info.Types[x].Addressable() {
		if id, ok := x.(*ast.Ident); ok {
			_, v := in.isVar(id)
			return v
		}
		return false
	}
	return true
}

// call is the text of a gate for the accesses.
func (in *instrumenter) call(as []acc) string {
	in.sites++
	mask := uint64(0)
	args := ""
	n := 0
	seen := map[string]int{}
	for _, a := range as {
		if n >= 60 {
			continue
		}
		t := ""
		if in.isMapIndex(a.e) || in.isMap(a.e) {
			x := a.e
			if i, ok := x.(*ast.IndexExpr); ok && in.isMapIndex(x) {
				x = i.X
			}
			if !in.pure(x) {
				continue
			}
			t = in.text(x)
			a.write = a.write && in.ended
		} else if in.addressable(a.e) {
			t = "&" + in.text(a.e)
		} else {
			continue
		}
		if k, ok := seen[t]; ok {
			if a.write {
				mask |= 1 << k
			}
			continue
		}
		seen[t] = n
		if a.write {
			mask |= 1 << n
		}
		args += ", " + strings.ReplaceAll(t, "\n", " ")
		n++
	}
	return fmt.Sprintf("zznd.Gate(%d, %d%s)", in.sites, mask, args)
}

func (in *instrumenter) block(list []ast.Stmt) {
	for _, s := range list {
		in.stmt(s)
	}
}

func (in *instrumenter) before(s ast.Stmt, as []acc) {
	if len(as) > 0 {
		in.insert(s.Pos(), 5, in.call(as)+"; ")
	}
}

// cond guards a condition that reads memory.
func (in *instrumenter) cond(x ast.Expr) {
	if x == nil {
		return
	}
	in.calls(x)
	in.lits(x)
	in.guard(x)
}

// calls rewrites copy of bytes.
func (in *instrumenter) calls(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			return false
		}
		if _, ok := n.(*ast.BlockStmt); ok {
			return false
		}
		c, ok := n.(*ast.CallExpr)
		if !ok {
			return true
		}
		id, ok := c.Fun.(*ast.Ident)
		if !ok || id.Name != "copy" || len(c.Args) != 2 {
			return true
		}
		if _, b := in.info.Uses[id].(*types.Builtin); !b {
			return true
		}
		for _, a := range c.Args {
			s, ok := in.info.TypeOf(a).Underlying().(*types.Slice)
			if !ok {
				return true
			}
			if b, ok := s.Elem().(*types.Basic); !ok || b.Kind() != types.Uint8 {
				return true
			}
		}
		in.sites++
		in.replace(id.Pos(), id.End(), "zznd.CopyB")
		in.insert(c.Args[0].Pos(), 0, fmt.Sprintf("%d, ", in.sites))
		return true
	})
}

func (in *instrumenter) fresh() string {
	in.names++
	return fmt.Sprintf("zzv%d", in.names)
}

func (in *instrumenter) stmt(s ast.Stmt) {
	var as []acc
	switch n := s.(type) {
	case nil:
	case *ast.BlockStmt:
		in.block(n.List)
	case *ast.LabeledStmt:
		in.labeled(n)
	case *ast.IfStmt:
		in.ifStmt(n, true)
	case *ast.ForStmt:
		if n.Init != nil {
			in.simpleReads(n.Init, &as)
		}
		in.before(s, as)
		in.cond(n.Cond)
		in.block(n.Body.List)
	case *ast.RangeStmt:
		in.calls(n.X)
		in.lits(n.X)
		in.reads(n.X, &as)
		in.before(s, as)
		in.sites++
		in.insert(n.Body.Lbrace+1, 0, fmt.Sprintf(" zznd.Gate(%d, 0); ", in.sites))
		in.block(n.Body.List)
	case *ast.SwitchStmt:
		if n.Init != nil {
			in.simpleReads(n.Init, &as)
		}
		if n.Tag != nil {
			in.calls(n.Tag)
			in.lits(n.Tag)
			in.reads(n.Tag, &as)
		}
		for _, c := range n.Body.List {
			for _, x := range c.(*ast.CaseClause).List {
				if n.Tag == nil {
					in.cond(x) // asked for only where the cases before it fail
				} else if in.pure(x) && in.info.Types[x].Value == nil {
					if _, ok := x.(*ast.Ident); ok {
						in.reads(x, &as)
					}
				}
			}
		}
		in.before(s, as)
		for _, c := range n.Body.List {
			in.block(c.(*ast.CaseClause).Body)
		}
	case *ast.TypeSwitchStmt:
		if n.Init != nil {
			in.simpleReads(n.Init, &as)
		}
		in.simpleReads(n.Assign, &as)
		in.before(s, as)
		for _, c := range n.Body.List {
			in.block(c.(*ast.CaseClause).Body)
		}
	case *ast.SelectStmt:
		for _, c := range n.Body.List {
			in.block(c.(*ast.CommClause).Body)
		}
	case *ast.AssignStmt:
		in.assign(n)
	case *ast.GoStmt:
		in.goStmt(n)
	case *ast.ExprStmt:
		if c, ok := n.X.(*ast.CallExpr); ok && len(c.Args) == 2 {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "delete" {
				if _, b := in.info.Uses[id].(*types.Builtin); b && in.mapWrite(s, c.Args[0], c.Args[1]) {
					return
				}
			}
		}
		in.simpleReads(s, &as)
		in.before(s, as)
	case *ast.IncDecStmt:
		if ix, ok := n.X.(*ast.IndexExpr); ok && in.isMapIndex(n.X) {
			if in.mapWrite(s, ix.X, ix.Index) {
				return
			}
		}
		in.calls(n.X)
		in.lits(n.X)
		if !in.shared(n.X) || !in.pure(n.X) {
			in.reads(n.X, &as)
			if in.shared(n.X) {
				as = append(as, acc{n.X, true})
			}
			in.before(s, as)
			return
		}
		in.split(s, n.X, n.TokPos, n.End(), strings.TrimSuffix(n.Tok.String(), n.Tok.String()[1:]), "1")
	default:
		in.simpleReads(s, &as)
		in.before(s, as)
	}
}

// goStmt makes the new goroutine a thread of the scheduler.
func (in *instrumenter) goStmt(n *ast.GoStmt) {
	var as []acc
	in.simpleReads(n, &as)
	in.before(n, as)
	c := n.Call
	if len(c.Args) > 0 && c.Ellipsis.IsValid() || in.info.Types[c.Fun].IsBuiltin() {
		return
	}
	if _, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		in.replace(n.Go, c.Fun.Pos(), "zznd.Go(")
		in.replace(c.Lparen, c.End(), ")")
		return
	}
	sig, ok := in.info.TypeOf(c.Fun).Underlying().(*types.Signature)
	if !ok || sig.Variadic() || len(c.Args) != sig.Params().Len() {
		return
	}
	// the function and its arguments are evaluated here
	f := in.fresh()
	in.replace(n.Go, c.Fun.Pos(), f+" := ")
	in.replace(c.Lparen, c.Lparen+1, "")
	names := ""
	for i, a := range c.Args {
		v := in.fresh()
		if tv := in.info.Types[a]; tv.Value != nil || tv.IsNil() {
			// a constant or nil takes the type of the parameter, which may
			// have no name here: leave it where it is
			in.replace(a.Pos(), a.End(), "")
			v = in.text(a)
		} else {
			in.insert(a.Pos(), 0, "; "+v+" := ")
		}
		if i > 0 {
			names += ", "
		}
		names += v
	}
	for i := range c.Args {
		if i > 0 {
			// the commas between them
			p, q := in.off(c.Args[i-1].End()), in.off(c.Args[i].Pos())
			for k := p; k < q; k++ {
				if in.src[k] == ',' {
					in.edits = append(in.edits, edit{k, k + 1, "", 0})
				}
			}
		}
	}
	in.replace(c.Rparen, c.End(), "; zznd.Go(func() { "+f+"("+names+") })")
}

func (in *instrumenter) labeled(n *ast.LabeledStmt) {
	k := len(in.edits)
	in.stmt(n.Stmt)
	// what was to go before the statement goes before its label
	for i := k; i < len(in.edits); i++ {
		if e := &in.edits[i]; e.at == in.off(n.Stmt.Pos()) && e.pri == 5 {
			e.at, e.end = in.off(n.Pos()), in.off(n.Pos())
		}
	}
}

func (in *instrumenter) ifStmt(n *ast.IfStmt, first bool) {
	if n.Init != nil {
		var as []acc
		in.simpleReads(n.Init, &as)
		if first {
			in.before(n, as)
		}
	}
	in.cond(n.Cond)
	in.block(n.Body.List)
	switch e := n.Else.(type) {
	case *ast.BlockStmt:
		in.block(e.List)
	case *ast.IfStmt:
		in.ifStmt(e, false)
	}
}

// simpleReads handles a statement that stays as it is.
func (in *instrumenter) simpleReads(s ast.Stmt, as *[]acc) {
	in.calls(s)
	in.lits(s)
	if a, ok := s.(*ast.AssignStmt); ok {
		for _, r := range a.Rhs {
			in.reads(r, as)
		}
		for _, l := range a.Lhs {
			in.addrReads(l, as)
			if in.shared(l) {
				*as = append(*as, acc{l, true})
			}
		}
		return
	}
	in.reads(s, as)
}

// split turns x op= y into a load and a store.
func (in *instrumenter) split(s ast.Stmt, x ast.Expr, tok, end token.Pos, op, rhs string) {
	var as []acc
	in.reads(x, &as)
	v := in.fresh()
	t := strings.ReplaceAll(in.text(x), "\n", " ")
	in.insert(s.Pos(), 5, fmt.Sprintf("%s; %s := %s; %s; ", in.call(as), v, t, in.call([]acc{{x, true}})))
	if rhs != "" {
		in.replace(tok, end, fmt.Sprintf(" = %s %s %s", v, op, rhs))
		return
	}
	in.replace(tok, tok+token.Pos(len(op)+1), fmt.Sprintf(" = %s %s (", v, op))
	in.insert(end, 0, ")")
}

func (in *instrumenter) assign(n *ast.AssignStmt) {
	if n.Tok != token.DEFINE && len(n.Lhs) == 1 && len(n.Rhs) == 1 && in.isMapIndex(n.Lhs[0]) {
		ix := n.Lhs[0].(*ast.IndexExpr)
		if in.mapWrite(n, ix.X, ix.Index, n.Rhs[0]) {
			return
		}
	}
	if n.Tok != token.ASSIGN && n.Tok != token.DEFINE && len(n.Lhs) == 1 && in.shared(n.Lhs[0]) && in.pure(n.Lhs[0]) && !in.isMapIndex(n.Lhs[0]) {
		in.calls(n.Rhs[0])
		in.lits(n.Rhs[0])
		in.split(n, n.Lhs[0], n.TokPos, n.End(), strings.TrimSuffix(n.Tok.String(), "="), "")
		return
	}
	if n.Tok == token.ASSIGN && len(n.Lhs) == 1 && len(n.Rhs) == 1 && in.shared(n.Lhs[0]) {
		var as []acc
		in.reads(n.Rhs[0], &as)
		if t := in.basicName(n.Rhs[0]); t != "" && len(as) > 0 {
			in.calls(n)
			in.lits(n)
			in.addrReads(n.Lhs[0], &as)
			in.before(n, as)
			v := in.fresh()
			in.insert(n.Rhs[0].Pos(), 4, fmt.Sprintf("func() %s { var %s %s = ", t, v, t))
			in.insert(n.Rhs[0].End(), 1, fmt.Sprintf("; %s; return %s }()", in.call([]acc{{n.Lhs[0], true}}), v))
			return
		}
	}
	var as []acc
	in.simpleReads(n, &as)
	in.before(n, as)
}

func (in *instrumenter) isMap(x ast.Expr) bool {
	t := in.info.TypeOf(x)
	if t == nil {
		return false
	}
	_, m := t.Underlying().(*types.Map)
	return m
}

// mapWrite handles a statement that writes to a map: a step that begins the
// write, and a step that does and ends it.
func (in *instrumenter) mapWrite(s ast.Stmt, m ast.Expr, rest ...ast.Expr) bool {
	if !in.pure(m) {
		return false
	}
	var as []acc
	for _, x := range rest {
		ok := true
		ast.Inspect(x, func(n ast.Node) bool {
			if c, isC := n.(*ast.CallExpr); isC {
				if id, isID := c.Fun.(*ast.Ident); isID {
					if _, b := in.info.Uses[id].(*types.Builtin); b {
						return true
					}
				}
				if !in.info.Types[c.Fun].IsType() {
					ok = false
				}
			}
			if _, fl := n.(*ast.FuncLit); fl {
				ok = false
			}
			return ok
		})
		if !ok {
			return false
		}
		in.reads(x, &as)
	}
	in.reads(m, &as)
	in.ended = true
	begin := in.call([]acc{{m, true}})
	in.ended = false
	in.insert(s.Pos(), 5, in.call(as)+"; "+begin+"; "+in.call([]acc{{m, false}})+"; ")
	in.insert(s.End(), 0, "; zznd.MapEnd("+strings.ReplaceAll(in.text(m), "\n", " ")+")")
	return true
}

func (in *instrumenter) isMapIndex(x ast.Expr) bool {
	i, ok := x.(*ast.IndexExpr)
	return ok && in.isMap(i.X)
}

func (in *instrumenter) basicName(x ast.Expr) string {
	tv := in.info.Types[x]
	if tv.Value != nil {
		return ""
	}
	b, ok := tv.Type.(*types.Basic)
	if !ok || b.Info()&types.IsUntyped != 0 {
		return ""
	}
	return b.Name()
}

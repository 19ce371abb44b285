// refmut -dir REPO -tags TAGS -seed N -rate R: applies random rewrites that keep
// the behaviour (operands of commutative operations exchanged, independent
// statements exchanged, helpers and closures extracted, loops rewritten and split,
// temporaries, shifts as multiplications, ...) to the non-test Go files of REPO in
// place.  Used to test that the checks stay quiet.
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	from, to int
	text     string
	kind     string
}

var (
	fset  *token.FileSet
	info  *types.Info
	rng   *rand.Rand
	rate  float64
	src   []byte
	edits []edit
	tail  []string
	pkg   *types.Package
	nid   int
	stats = map[string]int{}
	only  map[string]bool
)

func off(p token.Pos) int { return fset.Position(p).Offset }
func text(n ast.Node) string {
	return string(src[off(n.Pos()):off(n.End())])
}

// text of n, with the edits that lie inside it dropped (edits never overlap)
func add(kind string, n1, n2 ast.Node, t string) {
	if only != nil && !only[kind] {
		return
	}
	a, b := off(n1.Pos()), off(n2.End())
	for _, e := range edits {
		if a < e.to && e.from < b {
			return
		}
	}
	stats[kind]++
	edits = append(edits, edit{a, b, t, kind})
}

func chance() bool { return rng.Float64() < rate }

func fresh(p string) string {
	nid++
	return fmt.Sprintf("%s%d", p, nid)
}

func intType(t types.Type) (w int, signed bool, ok bool) {
	b, o := t.Underlying().(*types.Basic)
	if !o {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Int64, types.Int:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint:
		return 64, false, true
	}
	return
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == pkg {
			return ""
		}
		return p.Name()
	})
}

func isConst(e ast.Expr) (int64, bool) {
	tv := info.Types[e]
	if tv.Value == nil || tv.Value.Kind() != constant.Int {
		return 0, false
	}
	v, ok := constant.Int64Val(tv.Value)
	return v, ok
}

func hasCall(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(x ast.Node) bool {
		if c, ok := x.(*ast.CallExpr); ok {
			if tv, ok := info.Types[c.Fun]; !ok || !tv.IsType() {
				r = true
			}
		}
		return !r
	})
	return r
}

func hasJump(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.BranchStmt, *ast.ReturnStmt, *ast.LabeledStmt, *ast.DeferStmt, *ast.FuncLit, *ast.GoStmt:
			r = true
		}
		return !r
	})
	return r
}

// roots: variables a statement may touch; pointers (also receivers) count as one
// root "*" since they may alias.  w: roots written.
func roots(s ast.Stmt) (r, w map[string]bool, ok bool) {
	r, w = map[string]bool{}, map[string]bool{}
	if hasJump(s) {
		return nil, nil, false
	}
	mark := func(e ast.Node, m map[string]bool) {
		ast.Inspect(e, func(x ast.Node) bool {
			if id, o := x.(*ast.Ident); o {
				if v, o := info.ObjectOf(id).(*types.Var); o && !v.IsField() {
					m[id.Name] = true
					switch v.Type().Underlying().(type) {
					case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
						m["*"] = true
					}
					if v.Parent() == pkg.Scope() {
						m["*"] = true
					}
				}
			}
			return true
		})
	}
	switch x := s.(type) {
	case *ast.AssignStmt:
		if x.Tok == token.DEFINE || hasCall(x) {
			return nil, nil, false
		}
		for _, l := range x.Lhs {
			mark(l, w)
			mark(l, r)
		}
		for _, e := range x.Rhs {
			mark(e, r)
		}
	case *ast.IncDecStmt:
		mark(x.X, w)
		mark(x.X, r)
	case *ast.ExprStmt:
		c, o := x.X.(*ast.CallExpr)
		if !o {
			return nil, nil, false
		}
		sel, o := c.Fun.(*ast.SelectorExpr)
		if !o || hasCall(sel.X) {
			return nil, nil, false
		}
		for _, a := range c.Args {
			if hasCall(a) {
				return nil, nil, false
			}
			mark(a, r)
			mark(a, w)
		}
		mark(sel.X, w)
		mark(sel.X, r)
	default:
		return nil, nil, false
	}
	return r, w, true
}

func disjoint(a, b map[string]bool) bool {
	for k := range a {
		if b[k] {
			return false
		}
	}
	return true
}

func simple(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.AssignStmt:
		return x.Tok != token.DEFINE && !hasJump(x)
	case *ast.ExprStmt:
		return !hasJump(x)
	case *ast.IncDecStmt:
		return true
	}
	return false
}

func stmts(list []ast.Stmt) {
	for i := 0; i < len(list); i++ {
		s := list[i]
		if i+1 < len(list) && chance() {
			r1, w1, o1 := roots(s)
			r2, w2, o2 := roots(list[i+1])
			if o1 && o2 && disjoint(w1, r2) && disjoint(w1, w2) && disjoint(w2, r1) {
				add("swap", s, list[i+1], text(list[i+1])+"\n"+text(s))
				i++
				continue
			}
		}
		if simple(s) && chance() {
			j := i
			for j+1 < len(list) && simple(list[j+1]) && j-i < rng.Intn(6) {
				j++
			}
			if j > i {
				t := string(src[off(s.Pos()):off(list[j].End())])
				if rng.Intn(2) == 0 {
					add("closure", s, list[j], "func() {\n"+t+"\n}()")
				} else {
					extract(list[i : j+1])
				}
				i = j
				continue
			}
		}
	}
}

// extract moves statements into a new function: every local variable is passed by pointer
func extract(l []ast.Stmt) {
	type sub struct {
		from, to int
		t        string
	}
	var subs []sub
	var params, args []string
	seen := map[*types.Var]string{}
	bad := false
	for _, s := range l {
		ast.Inspect(s, func(x ast.Node) bool {
			if se, o := x.(*ast.SelectorExpr); o {
				// only the base of a selector
				ast.Inspect(se.X, func(y ast.Node) bool { return true })
			}
			id, o := x.(*ast.Ident)
			if !o {
				return true
			}
			v, o := info.ObjectOf(id).(*types.Var)
			if !o || v.IsField() || v.Parent() == pkg.Scope() || v.Parent() == types.Universe {
				return true
			}
			if id.Name == "_" {
				return true
			}
			if _, o := seen[v]; !o {
				n := fresh("a")
				seen[v] = n
				tn := typeName(v.Type())
				if strings.Contains(tn, "untyped") {
					bad = true
				}
				params = append(params, n+" *"+tn)
				args = append(args, "&"+v.Name())
			}
			subs = append(subs, sub{off(id.Pos()), off(id.End()), "(*" + seen[v] + ")"})
			return true
		})
	}
	if bad {
		return
	}
	sort.Slice(subs, func(i, j int) bool { return subs[i].from < subs[j].from })
	a, b := off(l[0].Pos()), off(l[len(l)-1].End())
	var sb strings.Builder
	for _, s := range subs {
		if s.from < a {
			continue
		}
		sb.Write(src[a:s.from])
		sb.WriteString(s.t)
		a = s.to
	}
	sb.Write(src[a:b])
	n := fresh("refHelper")
	before := len(edits)
	add("extract", l[0], l[len(l)-1], n+"("+strings.Join(args, ", ")+")")
	if len(edits) > before {
		tail = append(tail, "func "+n+"("+strings.Join(params, ", ")+") {\n"+sb.String()+"\n}\n")
	}
}

func visit(n ast.Node) bool {
	switch x := n.(type) {
	case *ast.BlockStmt:
		stmts(x.List)
	case *ast.BinaryExpr:
		tv := info.Types[x]
		if tv.Value != nil {
			return false
		}
		w, sg, ok := intType(tv.Type)
		if !ok || !chance() {
			return true
		}
		cx, ccx := isConst(x.X)
		cy, ccy := isConst(x.Y)
		_, _ = cx, ccx
		T := typeName(tv.Type)
		switch x.Op {
		case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
			if x.Op == token.AND && ccy && cy > 0 && cy&(cy+1) == 0 && !sg && rng.Intn(2) == 0 && cy < 1<<uint(w)-1 {
				add("mod", x, x, fmt.Sprintf("((%s) %% %d)", text(x.X), cy+1))
				return true
			}
			if !hasCall(x) {
				if rng.Intn(3) == 0 && helperExpr(x, T) {
					return true
				}
				add("commute", x, x, "(("+text(x.Y)+") "+x.Op.String()+" ("+text(x.X)+"))")
			}
		case token.SUB:
			if !hasCall(x) {
				add("negadd", x, x, "(-"+T+"("+text(x.Y)+") + ("+text(x.X)+"))")
			}
		case token.SHL:
			if ccy && int(cy) < w-1 && !ccx {
				add("shlmul", x, x, fmt.Sprintf("((%s) * (1 << %d))", text(x.X), cy))
			}
		case token.SHR:
			if ccy && int(cy) < w-1 && !ccx && !sg {
				add("shrdiv", x, x, fmt.Sprintf("((%s) / (1 << %d))", text(x.X), cy))
			}
		}
	case *ast.AssignStmt:
		if len(x.Lhs) == 1 && len(x.Rhs) == 1 && chance() && !hasCall(x.Lhs[0]) {
			switch x.Tok {
			case token.ADD_ASSIGN, token.SUB_ASSIGN, token.OR_ASSIGN, token.AND_ASSIGN, token.XOR_ASSIGN, token.MUL_ASSIGN, token.SHL_ASSIGN, token.SHR_ASSIGN:
				if !hasCall(x.Rhs[0]) {
					add("opassign", x, x, text(x.Lhs[0])+" = "+text(x.Lhs[0])+" "+strings.TrimSuffix(x.Tok.String(), "=")+" ("+text(x.Rhs[0])+")")
				}
			case token.ASSIGN:
				if _, _, ok := intType(info.Types[x.Rhs[0]].Type); ok && info.Types[x.Rhs[0]].Value == nil {
					t := fresh("tmp")
					add("temp", x, x, "{\n"+t+" := "+text(x.Rhs[0])+"\n"+text(x.Lhs[0])+" = "+t+"\n}")
				}
			}
		}
	case *ast.IfStmt:
		if b, ok := x.Else.(*ast.BlockStmt); ok && x.Init == nil && chance() {
			add("ifelse", x, x, "if !("+text(x.Cond)+") "+text(b)+" else "+text(x.Body))
		}
	case *ast.RangeStmt:
		if x.Value == nil && x.Tok == token.DEFINE && x.Key != nil && chance() {
			if _, ok := info.Types[x.X].Type.Underlying().(*types.Basic); !ok && !hasCall(x.X) {
				k := text(x.Key)
				add("range", x, x, "for "+k+" := 0; "+k+" < len("+text(x.X)+"); "+k+"++ "+text(x.Body))
			}
		}
	case *ast.ForStmt:
		if !chance() || x.Init == nil || x.Cond == nil || x.Post == nil {
			return true
		}
		in, ok := x.Init.(*ast.AssignStmt)
		if !ok || in.Tok != token.DEFINE || len(in.Lhs) != 1 {
			return true
		}
		if hasJump(x.Body) {
			return true
		}
		c, okc := x.Cond.(*ast.BinaryExpr)
		inc, oki := x.Post.(*ast.IncDecStmt)
		lo, ok1 := isConst(in.Rhs[0])
		if okc && oki && ok1 && c.Op == token.LSS && inc.Tok == token.INC && rng.Intn(2) == 0 {
			if hi, ok2 := isConst(c.Y); ok2 && hi-lo >= 2 {
				mid := lo + 1 + rng.Int63n(hi-lo-1)
				v := text(in.Lhs[0])
				if hi-lo <= 8 && rng.Intn(2) == 0 {
					// full unrolling
					var sb strings.Builder
					T := typeName(info.ObjectOf(in.Lhs[0].(*ast.Ident)).Type())
					for k := lo; k < hi; k++ {
						fmt.Fprintf(&sb, "{\nvar %s %s = %d\n_ = %s\n%s\n}\n", v, T, k, v, text(x.Body))
					}
					add("unroll", x, x, "{\n"+sb.String()+"}")
					return true
				}
				t1 := text(in) + "; " + v + " < " + fmt.Sprint(mid) + "; " + text(x.Post)
				i2 := strings.Replace(text(in), text(in.Rhs[0]), replaceConst(in.Rhs[0], mid), 1)
				add("split", x, x, "{\nfor "+t1+" "+text(x.Body)+"\nfor "+i2+"; "+text(x.Cond)+"; "+text(x.Post)+" "+text(x.Body)+"\n}")
				return true
			}
		}
		b := text(x.Body)
		b = b[:len(b)-1] + "\n" + text(x.Post) + "\n}"
		add("while", x, x, "{\n"+text(x.Init)+"\nfor "+text(x.Cond)+" "+b+"\n}")
	case *ast.GenDecl:
		return false
	}
	return true
}

func replaceConst(e ast.Expr, v int64) string {
	if c, ok := e.(*ast.CallExpr); ok {
		return text(c.Fun) + "(" + fmt.Sprint(v) + ")"
	}
	return fmt.Sprint(v)
}

// helperExpr: the expression as a function of the integer variables in it
func helperExpr(x *ast.BinaryExpr, T string) bool {
	var ps, as []string
	seen := map[string]bool{}
	ok := true
	ast.Inspect(x, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.IndexExpr, *ast.SelectorExpr, *ast.StarExpr, *ast.FuncLit, *ast.SliceExpr:
			ok = false
		case *ast.UnaryExpr:
			if y.Op == token.AND || y.Op == token.ARROW {
				ok = false
			}
		case *ast.Ident:
			if v, o := info.ObjectOf(y).(*types.Var); o {
				if _, _, o := intType(v.Type()); !o {
					ok = false
				} else if !seen[y.Name] {
					seen[y.Name] = true
					ps = append(ps, y.Name+" "+typeName(v.Type()))
					as = append(as, y.Name)
				}
			} else if c, o := info.ObjectOf(y).(*types.Const); o && c.Parent() != pkg.Scope() {
				ok = false
			}
		}
		return ok
	})
	if !ok || len(ps) == 0 {
		return false
	}
	n := fresh("refExpr")
	before := len(edits)
	add("exprhelper", x, x, n+"("+strings.Join(as, ", ")+")")
	if len(edits) > before {
		tail = append(tail, "func "+n+"("+strings.Join(ps, ", ")+") "+T+" {\nreturn "+text(x)+"\n}\n")
	}
	return true
}

func main() {
	dir := flag.String("dir", "", "")
	tags := flag.String("tags", "", "")
	seed := flag.Int64("seed", 1, "")
	r := flag.Float64("rate", 0.05, "")
	kinds := flag.String("only", "", "")
	flag.Parse()
	rng = rand.New(rand.NewSource(*seed))
	rate = *r
	nid = int(*seed) * 100000
	if *kinds != "" {
		only = map[string]bool{}
		for _, k := range strings.Split(*kinds, ",") {
			only[k] = true
		}
	}
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps, Dir: *dir, BuildFlags: []string{"-tags=" + *tags}}
	ps, err := packages.Load(cfg, ".", "./edwards25519")
	if err != nil {
		log.Fatal(err)
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			log.Fatal(p.Errors)
		}
		fset, info, pkg = p.Fset, p.TypesInfo, p.Types
		for _, f := range p.Syntax {
			name := fset.Position(f.Pos()).Filename
			if strings.HasSuffix(name, "_test.go") || strings.HasPrefix(filepath.Base(name), "table_") {
				continue
			}
			src, err = os.ReadFile(name)
			if err != nil {
				log.Fatal(err)
			}
			edits, tail = nil, nil
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					ast.Inspect(fd.Body, visit)
				}
			}
			sort.Slice(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
			var sb strings.Builder
			at := 0
			for _, e := range edits {
				sb.Write(src[at:e.from])
				sb.WriteString(e.text)
				at = e.to
			}
			sb.Write(src[at:])
			for _, t := range tail {
				sb.WriteString("\n" + t)
			}
			if err := os.WriteFile(name, []byte(sb.String()), 0644); err != nil {
				log.Fatal(err)
			}
		}
	}
	fmt.Println(stats)
}

// ssadump loads Go packages from source, builds their SSA form with
// golang.org/x/tools/go/ssa and writes it as JSON.  It is the front end of the
// contract verifier in /verif/engine: everything the verifier knows about the
// code comes from this dump, which is regenerated on every run.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]any

type dumper struct {
	types  []M
	ids    map[types.Type]int
	strIDs map[string]int
	fset   *token.FileSet
	dir    string
}

func (d *dumper) typ(t types.Type) int {
	if t == nil {
		return -1
	}
	t = types.Unalias(t)
	if id, ok := d.ids[t]; ok {
		return id
	}
	key := types.TypeString(t, nil)
	if id, ok := d.strIDs[key]; ok {
		d.ids[t] = id
		return id
	}
	id := len(d.types)
	d.ids[t] = id
	d.strIDs[key] = id
	d.types = append(d.types, nil)
	m := M{"str": key}
	u := t.Underlying()
	if n, ok := t.(*types.Named); ok {
		m["named"] = n.Obj().Name()
		if n.Obj().Pkg() != nil {
			m["pkg"] = n.Obj().Pkg().Path()
		}
	}
	switch x := u.(type) {
	case *types.Basic:
		m["k"] = "basic"
		m["name"] = x.Name()
	case *types.Pointer:
		m["k"] = "ptr"
		m["elem"] = d.typ(x.Elem())
	case *types.Array:
		m["k"] = "array"
		m["elem"] = d.typ(x.Elem())
		m["len"] = x.Len()
	case *types.Slice:
		m["k"] = "slice"
		m["elem"] = d.typ(x.Elem())
	case *types.Struct:
		m["k"] = "struct"
		fs := []any{}
		for i := 0; i < x.NumFields(); i++ {
			fs = append(fs, []any{x.Field(i).Name(), d.typ(x.Field(i).Type())})
		}
		m["fields"] = fs
	case *types.Tuple:
		m["k"] = "tuple"
		es := []int{}
		for i := 0; i < x.Len(); i++ {
			es = append(es, d.typ(x.At(i).Type()))
		}
		m["elems"] = es
	case *types.Signature:
		m["k"] = "func"
	case *types.Interface:
		m["k"] = "iface"
	default:
		m["k"] = "other"
	}
	d.types[id] = m
	return id
}

func (d *dumper) val(v ssa.Value) any {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		var s any
		if x.Value == nil {
			return M{"k": "const", "v": nil, "t": d.typ(x.Type())}
		}
		switch x.Value.Kind() {
		case constant.Int:
			s = constant.ToInt(x.Value).ExactString()
		case constant.Bool:
			s = constant.BoolVal(x.Value)
		case constant.String:
			return M{"k": "const", "str": constant.StringVal(x.Value), "t": d.typ(x.Type())}
		default:
			// an integer-typed constant may be represented as float
			iv := constant.ToInt(x.Value)
			if iv.Kind() == constant.Int {
				s = iv.ExactString()
			} else {
				return M{"k": "const", "other": x.Value.ExactString(), "t": d.typ(x.Type())}
			}
		}
		return M{"k": "const", "v": s, "t": d.typ(x.Type())}
	case *ssa.Global:
		return M{"k": "global", "n": x.String(), "t": d.typ(x.Type())}
	case *ssa.Function:
		return M{"k": "func", "n": x.String(), "t": d.typ(x.Type())}
	case *ssa.Builtin:
		return M{"k": "builtin", "n": x.Name()}
	case *ssa.Parameter:
		return M{"k": "reg", "n": x.Name()}
	case *ssa.FreeVar:
		return M{"k": "free", "n": x.Name()}
	default:
		return M{"k": "reg", "n": "%" + v.Name()}
	}
}

func (d *dumper) vals(vs []ssa.Value) []any {
	r := []any{}
	for _, v := range vs {
		r = append(r, d.val(v))
	}
	return r
}

func (d *dumper) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := d.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, d.dir+"/"), q.Line)
}

func (d *dumper) call(c *ssa.CallCommon, m M) {
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = d.val(c.Value)
	} else {
		m["fn"] = d.val(c.Value)
	}
	m["args"] = d.vals(c.Args)
}

func (d *dumper) instr(in ssa.Instruction) M {
	m := M{}
	if v, ok := in.(ssa.Value); ok {
		m["id"] = "%" + v.Name()
		m["t"] = d.typ(v.Type())
	}
	if p := d.pos(in.Pos()); p != "" {
		m["pos"] = p
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		m["op"] = "alloc"
		m["heap"] = x.Heap
		m["c"] = x.Comment
	case *ssa.BinOp:
		m["op"] = "bin"
		m["tok"] = x.Op.String()
		m["x"] = d.val(x.X)
		m["y"] = d.val(x.Y)
		m["xt"] = d.typ(x.X.Type())
		m["yt"] = d.typ(x.Y.Type())
	case *ssa.UnOp:
		m["op"] = "un"
		m["tok"] = x.Op.String()
		m["x"] = d.val(x.X)
		m["xt"] = d.typ(x.X.Type())
		m["commaok"] = x.CommaOk
	case *ssa.Call:
		m["op"] = "call"
		d.call(&x.Call, m)
	case *ssa.Defer:
		m["op"] = "defer"
		d.call(&x.Call, m)
	case *ssa.Go:
		m["op"] = "go"
		d.call(&x.Call, m)
	case *ssa.ChangeType:
		m["op"] = "changetype"
		m["x"] = d.val(x.X)
	case *ssa.Convert:
		m["op"] = "convert"
		m["x"] = d.val(x.X)
		m["xt"] = d.typ(x.X.Type())
	case *ssa.MultiConvert:
		m["op"] = "convert"
		m["x"] = d.val(x.X)
		m["xt"] = d.typ(x.X.Type())
	case *ssa.ChangeInterface:
		m["op"] = "changeiface"
		m["x"] = d.val(x.X)
	case *ssa.MakeInterface:
		m["op"] = "makeiface"
		m["x"] = d.val(x.X)
		m["xt"] = d.typ(x.X.Type())
	case *ssa.SliceToArrayPointer:
		m["op"] = "slicetoarrayptr"
		m["x"] = d.val(x.X)
	case *ssa.Extract:
		m["op"] = "extract"
		m["x"] = d.val(x.Tuple)
		m["i"] = x.Index
	case *ssa.Field:
		m["op"] = "field"
		m["x"] = d.val(x.X)
		m["i"] = x.Field
	case *ssa.FieldAddr:
		m["op"] = "fieldaddr"
		m["x"] = d.val(x.X)
		m["i"] = x.Field
	case *ssa.Index:
		m["op"] = "index"
		m["x"] = d.val(x.X)
		m["xt"] = d.typ(x.X.Type())
		m["i"] = d.val(x.Index)
	case *ssa.IndexAddr:
		m["op"] = "indexaddr"
		m["x"] = d.val(x.X)
		m["xt"] = d.typ(x.X.Type())
		m["i"] = d.val(x.Index)
	case *ssa.Lookup:
		m["op"] = "lookup"
	case *ssa.Slice:
		m["op"] = "slice"
		m["x"] = d.val(x.X)
		m["xt"] = d.typ(x.X.Type())
		m["low"] = d.val(x.Low)
		m["high"] = d.val(x.High)
		m["max"] = d.val(x.Max)
	case *ssa.Phi:
		m["op"] = "phi"
		m["edges"] = d.vals(x.Edges)
	case *ssa.Store:
		m["op"] = "store"
		m["addr"] = d.val(x.Addr)
		m["val"] = d.val(x.Val)
	case *ssa.If:
		m["op"] = "if"
		m["x"] = d.val(x.Cond)
	case *ssa.Jump:
		m["op"] = "jump"
	case *ssa.Return:
		m["op"] = "return"
		m["xs"] = d.vals(x.Results)
	case *ssa.Panic:
		m["op"] = "panic"
		m["x"] = d.val(x.X)
	case *ssa.MakeSlice:
		m["op"] = "makeslice"
		m["len"] = d.val(x.Len)
		m["cap"] = d.val(x.Cap)
	case *ssa.MakeClosure:
		m["op"] = "makeclosure"
		m["fn"] = d.val(x.Fn)
		m["bind"] = d.vals(x.Bindings)
	case *ssa.RunDefers:
		m["op"] = "rundefers"
	case *ssa.DebugRef:
		return nil
	default:
		m["op"] = "unsupported"
		m["what"] = fmt.Sprintf("%T %s", in, in)
	}
	return m
}

func (d *dumper) fn(f *ssa.Function) M {
	m := M{"name": f.String(), "short": f.Name(), "pos": d.pos(f.Pos())}
	ps := []any{}
	for _, p := range f.Params {
		ps = append(ps, []any{p.Name(), d.typ(p.Type())})
	}
	m["params"] = ps
	fv := []any{}
	for _, p := range f.FreeVars {
		fv = append(fv, []any{p.Name(), d.typ(p.Type())})
	}
	m["free"] = fv
	rs := []int{}
	sig := f.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, d.typ(sig.Results().At(i).Type()))
	}
	m["results"] = rs
	m["variadic"] = sig.Variadic()
	if f.Recover != nil {
		m["recover"] = f.Recover.Index
	}
	bs := []any{}
	for _, b := range f.Blocks {
		is := []any{}
		for _, in := range b.Instrs {
			if im := d.instr(in); im != nil {
				is = append(is, im)
			}
		}
		ss := []int{}
		for _, s := range b.Succs {
			ss = append(ss, s.Index)
		}
		pp := []int{}
		for _, s := range b.Preds {
			pp = append(pp, s.Index)
		}
		bs = append(bs, M{"succs": ss, "preds": pp, "instrs": is, "c": b.Comment})
	}
	m["blocks"] = bs
	return m
}

func main() {
	dir := flag.String("dir", "/repo", "module directory")
	tags := flag.String("tags", "", "build tags")
	out := flag.String("o", "", "output")
	flag.Parse()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles |
			packages.NeedImports | packages.NeedDeps | packages.NeedTypes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: *dir,
	}
	if *tags != "" {
		cfg.BuildFlags = []string{"-tags=" + *tags}
	}
	pkgs, err := packages.Load(cfg, flag.Args()...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(2)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	d := &dumper{ids: map[types.Type]int{}, strIDs: map[string]int{}, fset: prog.Fset, dir: *dir}
	fns := M{}
	want := map[*ssa.Package]bool{}
	globals := M{}
	files := []string{}
	for i, p := range spkgs {
		if p == nil {
			fmt.Fprintln(os.Stderr, "no SSA for", pkgs[i])
			os.Exit(2)
		}
		want[p] = true
		for _, mem := range p.Members {
			if g, ok := mem.(*ssa.Global); ok {
				globals[g.String()] = d.typ(g.Type())
			}
		}
		for _, f := range pkgs[i].CompiledGoFiles {
			files = append(files, f)
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		p := f.Pkg
		if p == nil && f.Origin() != nil {
			p = f.Origin().Pkg
		}
		if p == nil && f.Object() != nil && f.Object().Pkg() != nil {
			p = prog.Package(f.Object().Pkg())
		}
		if p == nil || !want[p] {
			continue
		}
		if len(f.Blocks) == 0 {
			continue
		}
		fns[f.String()] = d.fn(f)
	}
	sort.Strings(files)
	res := M{"types": d.types, "funcs": fns, "globals": globals, "files": files}
	w := os.Stdout
	if *out != "" {
		w, err = os.Create(*out)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	enc := json.NewEncoder(w)
	if err := enc.Encode(res); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if w != os.Stdout {
		if err := w.Close(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
}

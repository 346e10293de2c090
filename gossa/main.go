// gossa loads the packages of the module under test from its current source
// and writes their SSA form (golang.org/x/tools/go/ssa, naive form: every
// local variable is a memory cell) as JSON. It is the only thing the prover
// sees of the code: nothing is rewritten or left out here, except debug
// references.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

type M = map[string]interface{}

var tmap typeutil.Map
var tlist []M

func tid(t types.Type) int {
	t = types.Unalias(t)
	if v := tmap.At(t); v != nil {
		return v.(int)
	}
	id := len(tlist)
	tmap.Set(t, id)
	tlist = append(tlist, nil)
	m := M{"str": types.TypeString(t, func(p *types.Package) string { return p.Name() })}
	switch u := t.(type) {
	case *types.Basic:
		m["kind"] = "basic"
		m["name"] = u.Name()
	case *types.Named:
		m["kind"] = "named"
		n := u.Obj().Name()
		if u.Obj().Pkg() != nil {
			n = u.Obj().Pkg().Name() + "." + n
		}
		m["name"] = n
		m["under"] = tid(u.Underlying())
	case *types.Pointer:
		m["kind"] = "ptr"
		m["elem"] = tid(u.Elem())
	case *types.Slice:
		m["kind"] = "slice"
		m["elem"] = tid(u.Elem())
	case *types.Array:
		m["kind"] = "array"
		m["elem"] = tid(u.Elem())
		m["len"] = u.Len()
	case *types.Struct:
		m["kind"] = "struct"
		var fs []M
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fs = append(fs, M{"name": f.Name(), "type": tid(f.Type()), "emb": f.Embedded(), "tag": u.Tag(i)})
		}
		m["fields"] = fs
	case *types.Map:
		m["kind"] = "map"
		m["key"] = tid(u.Key())
		m["elem"] = tid(u.Elem())
	case *types.Chan:
		m["kind"] = "chan"
		m["elem"] = tid(u.Elem())
	case *types.Interface:
		m["kind"] = "iface"
		var ms []string
		for i := 0; i < u.NumMethods(); i++ {
			ms = append(ms, u.Method(i).Name())
		}
		m["methods"] = ms
	case *types.Signature:
		m["kind"] = "func"
		m["params"] = tid(u.Params())
		m["results"] = tid(u.Results())
	case *types.Tuple:
		m["kind"] = "tuple"
		var es []int
		for i := 0; i < u.Len(); i++ {
			es = append(es, tid(u.At(i).Type()))
		}
		m["elems"] = es
	default:
		m["kind"] = "other"
	}
	tlist[id] = m
	return id
}

var fset *token.FileSet

func fname(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, "github.com/zyedidia/gpeg/memo/interval/", "")
	s = strings.ReplaceAll(s, "github.com/zyedidia/gpeg/memo/", "")
	s = strings.ReplaceAll(s, "github.com/zyedidia/gpeg/input/", "")
	s = strings.ReplaceAll(s, "github.com/zyedidia/gpeg/", "")
	return s
}

func main() {
	dir := os.Args[1]
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule, Dir: dir}
	pats := os.Args[2:]
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, e)
			os.Exit(2)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.NaiveForm|ssa.InstantiateGenerics)
	prog.Build()
	fset = prog.Fset
	want := map[*ssa.Package]bool{}
	for _, p := range spkgs {
		if p != nil {
			want[p] = true
		}
	}
	funcs := M{}
	all := ssautil.AllFunctions(prog)
	var fl []*ssa.Function
	for f := range all {
		fl = append(fl, f)
	}
	sort.Slice(fl, func(i, j int) bool { return fl[i].String() < fl[j].String() })
	for _, f := range fl {
		p := f.Pkg
		if p == nil || !want[p] || f.Blocks == nil {
			continue
		}
		funcs[fname(f)] = dumpFunc(f)
	}
	// concrete types' method sets for dispatch
	impl := M{}
	for p := range want {
		for _, mem := range p.Members {
			t, ok := mem.(*ssa.Type)
			if !ok {
				continue
			}
			for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if types.IsInterface(ty) {
					continue
				}
				ms := prog.MethodSets.MethodSet(ty)
				if ms.Len() == 0 {
					continue
				}
				mm := M{}
				for i := 0; i < ms.Len(); i++ {
					fn := prog.MethodValue(ms.At(i))
					if fn != nil {
						mm[ms.At(i).Obj().Name()] = fname(fn)
					}
				}
				impl[fmt.Sprint(tid(ty))] = mm
			}
		}
	}
	consts := M{}
	for p := range want {
		for _, mem := range p.Members {
			if c, ok := mem.(*ssa.NamedConst); ok {
				if c.Value.Value != nil && c.Value.Value.Kind() == constant.Int {
					consts[p.Pkg.Name()+"."+c.Name()] = c.Value.Value.ExactString()
				}
			}
		}
	}
	out := M{"types": tlist, "funcs": funcs, "methods": impl, "consts": consts}
	enc := json.NewEncoder(os.Stdout)
	if err := enc.Encode(out); err != nil {
		panic(err)
	}
}

func dumpFunc(f *ssa.Function) M {
	ids := map[ssa.Value]string{}
	n := 0
	newid := func(v ssa.Value) string {
		s := fmt.Sprintf("v%d", n)
		n++
		ids[v] = s
		return s
	}
	var params, fvs []M
	for _, p := range f.Params {
		params = append(params, M{"id": newid(p), "name": p.Name(), "type": tid(p.Type())})
	}
	for _, p := range f.FreeVars {
		fvs = append(fvs, M{"id": newid(p), "name": p.Name(), "type": tid(p.Type())})
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				newid(v)
			}
		}
	}
	if f.Recover != nil {
		for _, in := range f.Recover.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, ok := ids[v]; !ok {
					newid(v)
				}
			}
		}
	}
	val := func(v ssa.Value) interface{} {
		switch x := v.(type) {
		case nil:
			return nil
		case *ssa.Const:
			m := M{"k": "const", "t": tid(x.Type())}
			if x.Value == nil {
				m["v"] = nil
			} else {
				switch x.Value.Kind() {
				case constant.Bool:
					m["v"] = constant.BoolVal(x.Value)
				case constant.Int:
					m["v"] = x.Value.ExactString()
					m["int"] = true
				case constant.String:
					b := []int{}
					for _, c := range []byte(constant.StringVal(x.Value)) {
						b = append(b, int(c))
					}
					m["v"] = b
					m["string"] = true
				case constant.Float:
					m["v"] = x.Value.ExactString()
					m["float"] = true
				}
			}
			return m
		case *ssa.Global:
			return M{"k": "global", "n": x.Pkg.Pkg.Name() + "." + x.Name(), "t": tid(x.Type())}
		case *ssa.Function:
			return M{"k": "func", "n": fname(x), "t": tid(x.Type())}
		case *ssa.Builtin:
			return M{"k": "builtin", "n": x.Name(), "t": tid(x.Type())}
		}
		return M{"k": "reg", "n": ids[v], "t": tid(v.Type())}
	}
	vals := func(vs []ssa.Value) []interface{} {
		r := []interface{}{}
		for _, v := range vs {
			r = append(r, val(v))
		}
		return r
	}
	call := func(m M, c *ssa.CallCommon) {
		if c.IsInvoke() {
			m["invoke"] = c.Method.Name()
			m["recv"] = val(c.Value)
			m["rectype"] = tid(c.Value.Type())
		} else {
			m["fn"] = val(c.Value)
		}
		m["args"] = vals(c.Args)
	}
	var blocks []M
	for _, b := range f.Blocks {
		var ins []M
		for _, in := range b.Instrs {
			m := M{}
			if v, ok := in.(ssa.Value); ok {
				m["id"] = ids[v]
				m["t"] = tid(v.Type())
			}
			if in.Pos().IsValid() {
				m["line"] = fset.Position(in.Pos()).Line
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				m["op"] = "alloc"
				m["heap"] = x.Heap
				m["name"] = x.Comment
			case *ssa.Store:
				m["op"] = "store"
				m["addr"] = val(x.Addr)
				m["val"] = val(x.Val)
			case *ssa.UnOp:
				m["op"] = "unop"
				m["tok"] = x.Op.String()
				m["x"] = val(x.X)
				m["commaok"] = x.CommaOk
			case *ssa.BinOp:
				m["op"] = "binop"
				m["tok"] = x.Op.String()
				m["x"] = val(x.X)
				m["y"] = val(x.Y)
			case *ssa.Call:
				m["op"] = "call"
				call(m, &x.Call)
			case *ssa.Go:
				m["op"] = "go"
				call(m, &x.Call)
			case *ssa.Defer:
				m["op"] = "defer"
				call(m, &x.Call)
			case *ssa.ChangeInterface:
				m["op"] = "changeiface"
				m["x"] = val(x.X)
			case *ssa.ChangeType:
				m["op"] = "changetype"
				m["x"] = val(x.X)
			case *ssa.Convert:
				m["op"] = "convert"
				m["x"] = val(x.X)
			case *ssa.MakeInterface:
				m["op"] = "makeiface"
				m["x"] = val(x.X)
			case *ssa.MakeClosure:
				m["op"] = "closure"
				m["fn"] = val(x.Fn)
				m["bind"] = vals(x.Bindings)
			case *ssa.MakeMap:
				m["op"] = "makemap"
			case *ssa.MakeSlice:
				m["op"] = "makeslice"
				m["len"] = val(x.Len)
				m["cap"] = val(x.Cap)
			case *ssa.Slice:
				m["op"] = "slice"
				m["x"] = val(x.X)
				m["lo"] = val(x.Low)
				m["hi"] = val(x.High)
				m["max"] = val(x.Max)
			case *ssa.FieldAddr:
				m["op"] = "fieldaddr"
				m["x"] = val(x.X)
				m["f"] = x.Field
			case *ssa.Field:
				m["op"] = "field"
				m["x"] = val(x.X)
				m["f"] = x.Field
			case *ssa.IndexAddr:
				m["op"] = "indexaddr"
				m["x"] = val(x.X)
				m["i"] = val(x.Index)
			case *ssa.Index:
				m["op"] = "index"
				m["x"] = val(x.X)
				m["i"] = val(x.Index)
			case *ssa.Lookup:
				m["op"] = "lookup"
				m["x"] = val(x.X)
				m["i"] = val(x.Index)
				m["commaok"] = x.CommaOk
			case *ssa.MapUpdate:
				m["op"] = "mapupdate"
				m["m"] = val(x.Map)
				m["key"] = val(x.Key)
				m["val"] = val(x.Value)
			case *ssa.Range:
				m["op"] = "range"
				m["x"] = val(x.X)
			case *ssa.Next:
				m["op"] = "next"
				m["x"] = val(x.Iter)
				m["str"] = x.IsString
			case *ssa.TypeAssert:
				m["op"] = "typeassert"
				m["x"] = val(x.X)
				m["at"] = tid(x.AssertedType)
				m["commaok"] = x.CommaOk
			case *ssa.Extract:
				m["op"] = "extract"
				m["x"] = val(x.Tuple)
				m["i"] = x.Index
			case *ssa.Jump:
				m["op"] = "jump"
			case *ssa.If:
				m["op"] = "if"
				m["x"] = val(x.Cond)
			case *ssa.Return:
				m["op"] = "return"
				m["res"] = vals(x.Results)
			case *ssa.Panic:
				m["op"] = "panic"
				m["x"] = val(x.X)
			case *ssa.RunDefers:
				m["op"] = "rundefers"
			case *ssa.Phi:
				m["op"] = "phi"
				m["edges"] = vals(x.Edges)
			default:
				m["op"] = fmt.Sprintf("unsupported:%T", in)
			}
			ins = append(ins, m)
		}
		succs := []int{}
		for _, s := range b.Succs {
			succs = append(succs, s.Index)
		}
		preds := []int{}
		for _, s := range b.Preds {
			preds = append(preds, s.Index)
		}
		blocks = append(blocks, M{"instrs": ins, "succs": succs, "preds": preds, "comment": b.Comment})
	}
	m := M{"params": params, "freevars": fvs, "blocks": blocks, "sig": tid(f.Signature), "results": tid(f.Signature.Results())}
	var rn []string
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rn = append(rn, f.Signature.Results().At(i).Name())
	}
	m["resnames"] = rn
	if f.Parent() != nil {
		m["parent"] = fname(f.Parent())
	}
	m["line"] = fset.Position(f.Pos()).Line
	m["file"] = fset.Position(f.Pos()).Filename
	return m
}

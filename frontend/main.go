// Command frontend loads the Go module at -dir from source and dumps the typed
// SSA of all of its packages (naive form: every source variable is a memory
// cell) as JSON. The dump is complete: any construct it cannot express is dumped
// as op "Unsupported", which the verifier refuses to reason about.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J map[string]interface{}

var (
	fset   *token.FileSet
	typIDs = map[string]int{}
	typs   []J
	module string
)

func typeID(t types.Type) int {
	t = types.Unalias(t)
	key := types.TypeString(t, nil)
	if id, ok := typIDs[key]; ok {
		return id
	}
	id := len(typs)
	typIDs[key] = id
	typs = append(typs, nil)
	j := J{"s": key}
	switch t := t.(type) {
	case *types.Basic:
		j["k"] = "basic"
		j["name"] = t.Name()
	case *types.Named:
		j["k"] = "named"
		j["name"] = key
		j["u"] = typeID(t.Underlying())
	case *types.Pointer:
		j["k"] = "ptr"
		j["e"] = typeID(t.Elem())
	case *types.Slice:
		j["k"] = "slice"
		j["e"] = typeID(t.Elem())
	case *types.Array:
		j["k"] = "array"
		j["e"] = typeID(t.Elem())
		j["n"] = t.Len()
	case *types.Struct:
		// The types of other modules' structs stay opaque.
		j["k"] = "struct"
		var names []string
		var fs []int
		for i := 0; i < t.NumFields(); i++ {
			names = append(names, t.Field(i).Name())
			fs = append(fs, typeID(t.Field(i).Type()))
		}
		j["names"] = names
		j["fs"] = fs
	case *types.Tuple:
		j["k"] = "tuple"
		var fs []int
		for i := 0; i < t.Len(); i++ {
			fs = append(fs, typeID(t.At(i).Type()))
		}
		j["fs"] = fs
	case *types.Interface:
		j["k"] = "iface"
	case *types.Signature:
		j["k"] = "func"
	case *types.Map:
		j["k"] = "map"
		j["key"] = typeID(t.Key())
		j["e"] = typeID(t.Elem())
	default:
		j["k"] = "other"
	}
	typs[id] = j
	return id
}

func fname(f *ssa.Function) string { return f.RelString(nil) }

func operand(v ssa.Value) J {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		j := J{"k": "const", "t": typeID(v.Type())}
		if v.Value == nil {
			j["v"] = nil
			return j
		}
		switch v.Value.Kind() {
		case constant.Bool:
			j["v"] = constant.BoolVal(v.Value)
		case constant.String:
			bs := []byte(constant.StringVal(v.Value))
			is := make([]int, len(bs))
			for i, b := range bs {
				is[i] = int(b)
			}
			j["str"] = is
		case constant.Int:
			j["v"] = v.Value.ExactString()
		case constant.Float:
			j["v"] = v.Value.ExactString()
		default:
			j["v"] = v.Value.ExactString()
			j["cplx"] = true
		}
		return j
	case *ssa.Global:
		return J{"k": "global", "n": v.RelString(nil), "t": typeID(v.Type())}
	case *ssa.Function:
		return J{"k": "func", "n": fname(v)}
	case *ssa.Builtin:
		return J{"k": "builtin", "n": v.Name()}
	case *ssa.Parameter, *ssa.FreeVar:
		return J{"k": "reg", "n": v.Name()}
	}
	return J{"k": "reg", "n": v.Name()}
}

func line(p token.Pos) int {
	if !p.IsValid() {
		return 0
	}
	return fset.Position(p).Line
}

func call(c *ssa.CallCommon, j J) {
	if c.IsInvoke() {
		j["invoke"] = c.Method.FullName()
		j["recv"] = operand(c.Value)
	} else {
		j["fn"] = operand(c.Value)
	}
	args := []J{}
	for _, a := range c.Args {
		args = append(args, operand(a))
	}
	j["args"] = args
}

func instr(in ssa.Instruction) J {
	j := J{"line": line(in.Pos())}
	if v, ok := in.(ssa.Value); ok {
		j["r"] = v.Name()
		j["t"] = typeID(v.Type())
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		j["op"] = "Alloc"
		j["heap"] = in.Heap
		j["name"] = in.Comment
	case *ssa.BinOp:
		j["op"] = "BinOp"
		j["tok"] = in.Op.String()
		j["x"] = operand(in.X)
		j["y"] = operand(in.Y)
		j["xt"] = typeID(in.X.Type())
		j["yt"] = typeID(in.Y.Type())
	case *ssa.UnOp:
		j["op"] = "UnOp"
		j["tok"] = in.Op.String()
		j["x"] = operand(in.X)
		j["xt"] = typeID(in.X.Type())
		j["commaok"] = in.CommaOk
	case *ssa.Call:
		j["op"] = "Call"
		call(&in.Call, j)
	case *ssa.ChangeType:
		j["op"] = "ChangeType"
		j["x"] = operand(in.X)
	case *ssa.Convert:
		j["op"] = "Convert"
		j["x"] = operand(in.X)
		j["xt"] = typeID(in.X.Type())
	case *ssa.ChangeInterface:
		j["op"] = "ChangeInterface"
		j["x"] = operand(in.X)
	case *ssa.MakeInterface:
		j["op"] = "MakeInterface"
		j["x"] = operand(in.X)
		j["xt"] = typeID(in.X.Type())
	case *ssa.Extract:
		j["op"] = "Extract"
		j["x"] = operand(in.Tuple)
		j["i"] = in.Index
	case *ssa.Field:
		j["op"] = "Field"
		j["x"] = operand(in.X)
		j["i"] = in.Field
	case *ssa.FieldAddr:
		j["op"] = "FieldAddr"
		j["x"] = operand(in.X)
		j["i"] = in.Field
	case *ssa.Index:
		j["op"] = "Index"
		j["x"] = operand(in.X)
		j["i"] = operand(in.Index)
		j["xt"] = typeID(in.X.Type())
	case *ssa.IndexAddr:
		j["op"] = "IndexAddr"
		j["x"] = operand(in.X)
		j["i"] = operand(in.Index)
		j["xt"] = typeID(in.X.Type())
	case *ssa.Lookup:
		j["op"] = "Lookup"
		j["x"] = operand(in.X)
		j["i"] = operand(in.Index)
		j["xt"] = typeID(in.X.Type())
		j["commaok"] = in.CommaOk
	case *ssa.Slice:
		j["op"] = "Slice"
		j["x"] = operand(in.X)
		j["xt"] = typeID(in.X.Type())
		if in.Low != nil {
			j["lo"] = operand(in.Low)
		}
		if in.High != nil {
			j["hi"] = operand(in.High)
		}
		if in.Max != nil {
			j["max"] = operand(in.Max)
		}
	case *ssa.MakeSlice:
		j["op"] = "MakeSlice"
		j["len"] = operand(in.Len)
		j["cap"] = operand(in.Cap)
	case *ssa.Store:
		j["op"] = "Store"
		j["addr"] = operand(in.Addr)
		j["x"] = operand(in.Val)
	case *ssa.If:
		j["op"] = "If"
		j["x"] = operand(in.Cond)
	case *ssa.Jump:
		j["op"] = "Jump"
	case *ssa.Return:
		j["op"] = "Return"
		rs := []J{}
		for _, r := range in.Results {
			rs = append(rs, operand(r))
		}
		j["rs"] = rs
	case *ssa.Panic:
		j["op"] = "Panic"
		j["x"] = operand(in.X)
	case *ssa.Phi:
		j["op"] = "Phi"
		es := []J{}
		for _, e := range in.Edges {
			es = append(es, operand(e))
		}
		j["es"] = es
	case *ssa.TypeAssert:
		j["op"] = "TypeAssert"
		j["x"] = operand(in.X)
		j["at"] = typeID(in.AssertedType)
		j["commaok"] = in.CommaOk
	case *ssa.MakeClosure:
		j["op"] = "MakeClosure"
		j["fn"] = operand(in.Fn)
		bs := []J{}
		for _, b := range in.Bindings {
			bs = append(bs, operand(b))
		}
		j["bindings"] = bs
	case *ssa.Range:
		j["op"] = "Range"
		j["x"] = operand(in.X)
		j["xt"] = typeID(in.X.Type())
	case *ssa.Next:
		j["op"] = "Next"
		j["x"] = operand(in.Iter)
		j["isstr"] = in.IsString
	case *ssa.RunDefers:
		j["op"] = "RunDefers"
	case *ssa.Defer:
		j["op"] = "Defer"
		call(&in.Call, j)
	case *ssa.DebugRef:
		return nil
	default:
		j["op"] = "Unsupported"
		j["what"] = fmt.Sprintf("%T", in)
	}
	return j
}

func fn(f *ssa.Function) J {
	j := J{"name": fname(f), "pkg": "", "synthetic": f.Synthetic}
	if f.Pkg != nil {
		j["pkg"] = f.Pkg.Pkg.Path()
	}
	pos := fset.Position(f.Pos())
	j["file"] = pos.Filename
	j["line"] = pos.Line
	ps := []J{}
	for _, p := range f.Params {
		ps = append(ps, J{"n": p.Name(), "t": typeID(p.Type())})
	}
	j["params"] = ps
	fv := []J{}
	for _, p := range f.FreeVars {
		fv = append(fv, J{"n": p.Name(), "t": typeID(p.Type())})
	}
	j["freevars"] = fv
	rs := []int{}
	rn := []string{}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		rs = append(rs, typeID(res.At(i).Type()))
		rn = append(rn, res.At(i).Name())
	}
	j["results"] = rs
	j["resnames"] = rn
	j["recover"] = f.Recover != nil
	blocks := []J{}
	for _, b := range f.Blocks {
		ins := []J{}
		for _, in := range b.Instrs {
			if x := instr(in); x != nil {
				ins = append(ins, x)
			}
		}
		var succ, pred []int
		for _, s := range b.Succs {
			succ = append(succ, s.Index)
		}
		for _, s := range b.Preds {
			pred = append(pred, s.Index)
		}
		blocks = append(blocks, J{"i": b.Index, "ins": ins, "succs": succ, "preds": pred, "comment": b.Comment})
	}
	j["blocks"] = blocks
	return j
}

func main() {
	dir := flag.String("dir", "/repo", "module directory")
	out := flag.String("o", "", "output file")
	flag.Parse()
	pats := flag.Args()
	if len(pats) == 0 {
		pats = []string{"./..."}
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: *dir,
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(2)
	}
	prog, ssapkgs := ssautil.Packages(pkgs, ssa.NaiveForm|ssa.InstantiateGenerics)
	fset = prog.Fset
	var own []*ssa.Package
	for _, p := range ssapkgs {
		if p != nil {
			p.Build()
			own = append(own, p)
		}
	}
	ownset := map[*ssa.Package]bool{}
	for _, p := range own {
		ownset[p] = true
	}
	fns := []J{}
	var names []string
	all := map[string]*ssa.Function{}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && ownset[f.Pkg] && f.Blocks != nil {
			all[fname(f)] = f
		}
	}
	// AllFunctions misses nothing reachable from the members; add members explicitly.
	var addfn func(f *ssa.Function)
	addfn = func(f *ssa.Function) {
		if f == nil || f.Blocks == nil {
			return
		}
		all[fname(f)] = f
		for _, a := range f.AnonFuncs {
			addfn(a)
		}
	}
	globals := []J{}
	for _, p := range own {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				addfn(m)
			case *ssa.Global:
				globals = append(globals, J{"n": m.RelString(nil), "t": typeID(m.Type())})
			case *ssa.Type:
				if named, ok := m.Type().(*types.Named); ok {
					for i := 0; i < named.NumMethods(); i++ {
						addfn(prog.FuncValue(named.Method(i)))
					}
				}
			}
		}
	}
	for n := range all {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fns = append(fns, fn(all[n]))
	}
	sort.Slice(globals, func(i, k int) bool { return globals[i]["n"].(string) < globals[k]["n"].(string) })
	var pk []string
	for _, p := range own {
		pk = append(pk, p.Pkg.Path())
	}
	sort.Strings(pk)
	_ = strings.Join
	res := J{"types": typs, "funcs": fns, "globals": globals, "pkgs": pk}
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if *out == "" {
		os.Stdout.Write(b)
		return
	}
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

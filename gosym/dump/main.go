// gosymdump: loads a Go package with everything it imports, builds SSA form from the source and
// serves functions, types and method lookups as JSON over a unix socket.
package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"net"
	"os"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

type J = map[string]interface{}
type L = []interface{}

var (
	prog    *ssa.Program
	mu      sync.Mutex
	fnIDs   = map[*ssa.Function]int{}
	fns     []*ssa.Function
	typeIDs typeutil.Map
	typs    []types.Type
	globIDs = map[*ssa.Global]int{}
	globs   []*ssa.Global
)

func fnID(f *ssa.Function) int {
	if id, ok := fnIDs[f]; ok {
		return id
	}
	id := len(fns)
	fns = append(fns, f)
	fnIDs[f] = id
	return id
}

func typeID(t types.Type) int {
	t = types.Unalias(t)
	if v := typeIDs.At(t); v != nil {
		return v.(int)
	}
	id := len(typs)
	typs = append(typs, t)
	typeIDs.Set(t, id)
	return id
}

func globID(g *ssa.Global) int {
	if id, ok := globIDs[g]; ok {
		return id
	}
	id := len(globs)
	globs = append(globs, g)
	globIDs[g] = id
	return id
}

func b64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

func descType(t types.Type) J {
	switch t := t.(type) {
	case *types.Named:
		n := t.Obj()
		pkg := ""
		if n.Pkg() != nil {
			pkg = n.Pkg().Path()
		}
		return J{"k": "named", "name": n.Name(), "pkg": pkg, "str": t.String(), "under": typeID(t.Underlying())}
	case *types.Basic:
		return J{"k": "basic", "name": t.Name(), "info": int(t.Info())}
	case *types.Pointer:
		return J{"k": "ptr", "elem": typeID(t.Elem())}
	case *types.Slice:
		return J{"k": "slice", "elem": typeID(t.Elem())}
	case *types.Array:
		return J{"k": "array", "elem": typeID(t.Elem()), "len": t.Len()}
	case *types.Struct:
		fs := L{}
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			fs = append(fs, L{f.Name(), typeID(f.Type()), f.Embedded(), t.Tag(i)})
		}
		return J{"k": "struct", "fields": fs}
	case *types.Map:
		return J{"k": "map", "key": typeID(t.Key()), "elem": typeID(t.Elem())}
	case *types.Chan:
		return J{"k": "chan", "elem": typeID(t.Elem())}
	case *types.Interface:
		ms := []string{}
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, t.Method(i).Name())
		}
		return J{"k": "iface", "methods": ms}
	case *types.Signature:
		return J{"k": "sig"}
	case *types.Tuple:
		es := L{}
		for i := 0; i < t.Len(); i++ {
			es = append(es, typeID(t.At(i).Type()))
		}
		return J{"k": "tuple", "elems": es}
	case *types.TypeParam:
		return J{"k": "typeparam", "name": t.String()}
	}
	return J{"k": "other", "str": t.String()}
}

type dumper struct {
	regs map[ssa.Value]int
}

func (d *dumper) val(v ssa.Value) interface{} {
	if v == nil {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Const:
		t := typeID(v.Type())
		if v.Value == nil {
			return L{"c", t, "zero", nil}
		}
		switch v.Value.Kind() {
		case constant.Bool:
			return L{"c", t, "bool", constant.BoolVal(v.Value)}
		case constant.String:
			return L{"c", t, "str", b64(constant.StringVal(v.Value))}
		case constant.Int:
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
				f, _ := constant.Float64Val(v.Value)
				return L{"c", t, "float", f}
			}
			return L{"c", t, "int", v.Value.ExactString()}
		case constant.Float:
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return L{"c", t, "int", constant.ToInt(v.Value).ExactString()}
			}
			f, _ := constant.Float64Val(v.Value)
			return L{"c", t, "float", f}
		}
		return L{"c", t, "other", v.Value.ExactString()}
	case *ssa.Function:
		return L{"f", fnID(v)}
	case *ssa.Builtin:
		return L{"b", v.Name()}
	case *ssa.Global:
		return L{"g", globID(v)}
	}
	if r, ok := d.regs[v]; ok {
		return r
	}
	return L{"?", v.Name()}
}

func (d *dumper) vals(vs []ssa.Value) L {
	r := L{}
	for _, v := range vs {
		r = append(r, d.val(v))
	}
	return r
}

func (d *dumper) call(c *ssa.CallCommon) J {
	r := J{"args": d.vals(c.Args), "fn": d.val(c.Value)}
	if c.IsInvoke() {
		r["m"] = c.Method.Name()
		r["mp"] = ""
		if !c.Method.Exported() && c.Method.Pkg() != nil {
			r["mp"] = c.Method.Pkg().Path()
		}
	} else if _, ok := c.Value.(*ssa.Builtin); ok {
		at := L{}
		for _, a := range c.Args {
			at = append(at, typeID(a.Type()))
		}
		r["at"] = at
	}
	r["rt"] = typeID(c.Signature().Results())
	return r
}

func dumpFn(f *ssa.Function) J {
	if f.Pkg != nil {
		f.Pkg.Build()
	} else if f.Origin() != nil && f.Origin().Pkg != nil {
		f.Origin().Pkg.Build()
	}
	d := &dumper{regs: map[ssa.Value]int{}}
	n := 0
	params, pt, fv := L{}, L{}, L{}
	for _, p := range f.Params {
		d.regs[p] = n
		params = append(params, n)
		pt = append(pt, typeID(p.Type()))
		n++
	}
	for _, p := range f.FreeVars {
		d.regs[p] = n
		fv = append(fv, n)
		n++
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				d.regs[v] = n
				n++
			}
		}
	}
	if f.Recover != nil {
		for _, in := range f.Recover.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, ok := d.regs[v]; !ok {
					d.regs[v] = n
					n++
				}
			}
		}
	}
	blocks := L{}
	hasDefer := false
	block := func(b *ssa.BasicBlock) J {
		ins := L{}
		for _, in := range b.Instrs {
			o := J{}
			if v, ok := in.(ssa.Value); ok {
				o["r"] = d.regs[v]
				o["t"] = typeID(v.Type())
			}
			if p := in.Pos(); p != token.NoPos {
				o["ln"] = prog.Fset.Position(p).Line
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				o["o"] = "alloc"
				o["et"] = typeID(in.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.BinOp:
				o["o"], o["op"], o["x"], o["y"] = "bin", in.Op.String(), d.val(in.X), d.val(in.Y)
				o["xt"] = typeID(in.X.Type())
				o["yt"] = typeID(in.Y.Type())
			case *ssa.UnOp:
				o["o"], o["op"], o["x"], o["ok"] = "un", in.Op.String(), d.val(in.X), in.CommaOk
				o["xt"] = typeID(in.X.Type())
			case *ssa.Call:
				o["o"], o["call"] = "call", d.call(&in.Call)
			case *ssa.Defer:
				hasDefer = true
				o["o"], o["call"] = "defer", d.call(&in.Call)
			case *ssa.Go:
				o["o"], o["call"] = "go", d.call(&in.Call)
			case *ssa.ChangeInterface:
				o["o"], o["x"] = "chiface", d.val(in.X)
			case *ssa.ChangeType:
				o["o"], o["x"] = "chtype", d.val(in.X)
			case *ssa.Convert:
				o["o"], o["x"], o["xt"] = "conv", d.val(in.X), typeID(in.X.Type())
			case *ssa.MultiConvert:
				o["o"], o["x"], o["xt"] = "conv", d.val(in.X), typeID(in.X.Type())
			case *ssa.SliceToArrayPointer:
				o["o"], o["x"] = "s2a", d.val(in.X)
			case *ssa.Extract:
				o["o"], o["x"], o["i"] = "extract", d.val(in.Tuple), in.Index
			case *ssa.Field:
				o["o"], o["x"], o["i"] = "field", d.val(in.X), in.Field
			case *ssa.FieldAddr:
				o["o"], o["x"], o["i"] = "fieldaddr", d.val(in.X), in.Field
			case *ssa.If:
				o["o"], o["x"] = "if", d.val(in.Cond)
			case *ssa.Index:
				o["o"], o["x"], o["y"], o["xt"] = "index", d.val(in.X), d.val(in.Index), typeID(in.X.Type())
			case *ssa.IndexAddr:
				o["o"], o["x"], o["y"], o["xt"] = "indexaddr", d.val(in.X), d.val(in.Index), typeID(in.X.Type())
			case *ssa.Jump:
				o["o"] = "jump"
			case *ssa.Lookup:
				o["o"], o["x"], o["y"], o["ok"], o["xt"] = "lookup", d.val(in.X), d.val(in.Index), in.CommaOk, typeID(in.X.Type())
			case *ssa.MakeChan:
				o["o"], o["x"] = "mkchan", d.val(in.Size)
			case *ssa.MakeClosure:
				o["o"], o["fn"], o["b"] = "closure", fnID(in.Fn.(*ssa.Function)), d.vals(in.Bindings)
			case *ssa.MakeInterface:
				o["o"], o["x"], o["xt"] = "mkiface", d.val(in.X), typeID(in.X.Type())
			case *ssa.MakeMap:
				o["o"] = "mkmap"
			case *ssa.MakeSlice:
				o["o"], o["len"], o["cap"] = "mkslice", d.val(in.Len), d.val(in.Cap)
			case *ssa.MapUpdate:
				o["o"], o["m"], o["x"], o["y"], o["mt"] = "mapupd", d.val(in.Map), d.val(in.Key), d.val(in.Value), typeID(in.Map.Type())
			case *ssa.Next:
				o["o"], o["x"], o["str"] = "next", d.val(in.Iter), in.IsString
			case *ssa.Panic:
				o["o"], o["x"] = "panic", d.val(in.X)
			case *ssa.Phi:
				o["o"], o["e"] = "phi", d.vals(in.Edges)
			case *ssa.Range:
				o["o"], o["x"], o["xt"] = "range", d.val(in.X), typeID(in.X.Type())
			case *ssa.Return:
				o["o"], o["x"] = "ret", d.vals(in.Results)
			case *ssa.RunDefers:
				o["o"] = "rundefers"
			case *ssa.Select:
				ss := L{}
				for _, st := range in.States {
					m := J{"x": d.val(st.Chan), "y": nil, "et": typeID(st.Chan.Type().Underlying().(*types.Chan).Elem())}
					if st.Dir == types.SendOnly {
						m["y"] = d.val(st.Send)
					}
					ss = append(ss, m)
				}
				o["o"], o["st"], o["block"] = "select", ss, in.Blocking
			case *ssa.Send:
				o["o"], o["x"], o["y"] = "send", d.val(in.Chan), d.val(in.X)
			case *ssa.Slice:
				o["o"], o["x"], o["lo"], o["hi"], o["max"] = "slice", d.val(in.X), d.val(in.Low), d.val(in.High), d.val(in.Max)
				o["xt"] = typeID(in.X.Type())
			case *ssa.Store:
				o["o"], o["x"], o["y"] = "store", d.val(in.Addr), d.val(in.Val)
			case *ssa.TypeAssert:
				o["o"], o["x"], o["at"], o["ok"] = "assert", d.val(in.X), typeID(in.AssertedType), in.CommaOk
			default:
				o["o"] = "unknown"
				o["s"] = fmt.Sprintf("%T", in)
			}
			ins = append(ins, o)
		}
		ss, ps := L{}, L{}
		for _, s := range b.Succs {
			ss = append(ss, s.Index)
		}
		for _, p := range b.Preds {
			ps = append(ps, p.Index)
		}
		return J{"i": ins, "s": ss, "p": ps}
	}
	for _, b := range f.Blocks {
		blocks = append(blocks, block(b))
	}
	rec := -1
	if f.Recover != nil {
		rec = f.Recover.Index
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	}
	named := L{}
	pos := prog.Fset.Position(f.Pos())
	return J{"name": f.String(), "short": f.Name(), "pkg": pkg, "params": params, "pt": pt, "fv": fv, "n": n, "blocks": blocks,
		"rec": rec, "defer": hasDefer, "syn": f.Synthetic, "named": named, "file": pos.Filename,
		"rt": typeID(f.Signature.Results())}
}

func handle(req J) (res interface{}) {
	defer func() {
		if e := recover(); e != nil {
			res = J{"err": fmt.Sprint(e)}
		}
	}()
	id := func(k string) int { return int(req[k].(float64)) }
	switch req["op"] {
	case "fn":
		return dumpFn(fns[id("id")])
	case "fname":
		f := fns[id("id")]
		orig := ""
		if f.Origin() != nil {
			orig = f.Origin().String()
		}
		return J{"name": f.String(), "orig": orig}
	case "type":
		t := typs[id("id")]
		r := descType(t)
		r["s"] = t.String()
		return r
	case "glob":
		g := globs[id("id")]
		return J{"name": g.String(), "pkg": g.Pkg.Pkg.Path(), "et": typeID(g.Type().Underlying().(*types.Pointer).Elem())}
	case "method":
		t := typs[id("t")]
		var pkg *types.Package
		if p := req["mp"].(string); p != "" {
			for _, q := range prog.AllPackages() {
				if q.Pkg.Path() == p {
					pkg = q.Pkg
				}
			}
		}
		if types.IsInterface(t) {
			return J{"id": -1}
		}
		sel := prog.MethodSets.MethodSet(t).Lookup(pkg, req["m"].(string))
		if sel == nil {
			return J{"id": -1}
		}
		f := prog.MethodValue(sel)
		if f == nil {
			return J{"id": -1}
		}
		return J{"id": fnID(f)}
	case "impl":
		t := typs[id("t")]
		i := typs[id("i")].Underlying().(*types.Interface)
		return J{"ok": types.Implements(t, i)}
	case "ptrto":
		return J{"id": typeID(types.NewPointer(typs[id("t")]))}
	case "mapany":
		a := types.Universe.Lookup("any").Type().Underlying()
		return J{"id": typeID(types.NewMap(types.Typ[types.String], a)), "slice": typeID(types.NewSlice(a))}
	case "basic":
		return J{"id": typeID(types.Universe.Lookup(req["name"].(string)).Type())}
	case "pkg":
		for _, p := range prog.AllPackages() {
			if p.Pkg.Path() == req["path"].(string) {
				p.Build()
				r := J{}
				for n, m := range p.Members {
					if f, ok := m.(*ssa.Function); ok {
						r[n] = fnID(f)
					}
				}
				ims := []string{}
				for _, i := range p.Pkg.Imports() {
					ims = append(ims, i.Path())
				}
				return J{"fns": r, "imports": ims}
			}
		}
		return J{"err": "no package"}
	case "order":
		// import order: dependencies first
		r := []string{}
		seen := map[*types.Package]bool{}
		var visit func(p *types.Package)
		visit = func(p *types.Package) {
			if seen[p] {
				return
			}
			seen[p] = true
			for _, q := range p.Imports() {
				visit(q)
			}
			r = append(r, p.Path())
		}
		for _, p := range prog.AllPackages() {
			visit(p.Pkg)
		}
		return J{"pkgs": r}
	case "globbyname":
		for _, p := range prog.AllPackages() {
			if p.Pkg.Path() == req["path"].(string) {
				return J{"id": globID(p.Members[req["name"].(string)].(*ssa.Global))}
			}
		}
		return J{"err": "no package"}
	case "typebyname":
		for _, p := range prog.AllPackages() {
			if p.Pkg.Path() == req["path"].(string) {
				return J{"id": typeID(p.Pkg.Scope().Lookup(req["name"].(string)).Type())}
			}
		}
		return J{"err": "no package"}
	}
	return J{"err": "bad request"}
}

func main() {
	dir, sock := os.Args[1], os.Args[2]
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Tests: false, Env: os.Environ()}
	initial, err := packages.Load(cfg, os.Args[3:]...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if n := packages.PrintErrors(initial); n > 0 {
		os.Exit(2)
	}
	prog, _ = ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	l, err := net.Listen("unix", sock)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Println("ready")
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		go func() {
			rd := bufio.NewReader(c)
			w := bufio.NewWriter(c)
			dec := json.NewDecoder(rd)
			for {
				var req J
				if err := dec.Decode(&req); err != nil {
					c.Close()
					return
				}
				mu.Lock()
				r := handle(req)
				mu.Unlock()
				bs, err := json.Marshal(r)
				if err != nil {
					bs = []byte(`{"err":"marshal"}`)
				}
				w.Write(bs)
				w.WriteByte('\n')
				w.Flush()
			}
		}()
	}
}

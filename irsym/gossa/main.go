// gossa DIR: the SSA form of the Go package in DIR (cgo processed), as JSON
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J = map[string]any

var sizes = types.SizesFor("gc", "amd64")
var tids = map[string]int{}
var tlist []J

func typ(t types.Type) int {
	if t == nil {
		return -1
	}
	key := types.TypeString(t, nil)
	if id, ok := tids[key]; ok {
		return id
	}
	id := len(tlist)
	tids[key] = id
	tlist = append(tlist, nil)
	j := J{"name": key}
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
	}
	if n, ok := t.(*types.Named); ok {
		j["named"] = n.Obj().Name()
	}
	func() {
		defer func() { recover() }()
		j["size"] = sizes.Sizeof(t)
	}()
	switch u := t.Underlying().(type) {
	case *types.Basic:
		j["kind"] = "basic"
		j["basic"] = u.Name()
		j["signed"] = u.Info()&types.IsUnsigned == 0
		j["int"] = u.Info()&types.IsInteger != 0
		j["str"] = u.Info()&types.IsString != 0
	case *types.Pointer:
		j["kind"] = "ptr"
		j["elem"] = typ(u.Elem())
	case *types.Struct:
		j["kind"] = "struct"
		var fs []*types.Var
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, u.Field(i))
		}
		offs := sizes.Offsetsof(fs)
		var l []any
		for i, f := range fs {
			l = append(l, []any{f.Name(), offs[i], typ(f.Type())})
		}
		j["fields"] = l
	case *types.Array:
		j["kind"] = "array"
		j["elem"] = typ(u.Elem())
		j["len"] = u.Len()
	case *types.Slice:
		j["kind"] = "slice"
		j["elem"] = typ(u.Elem())
	case *types.Tuple:
		j["kind"] = "tuple"
		var l []any
		for i := 0; i < u.Len(); i++ {
			l = append(l, typ(u.At(i).Type()))
		}
		j["elems"] = l
	case *types.Signature:
		j["kind"] = "func"
		if u.Recv() != nil {
			j["recv"] = typ(u.Recv().Type())
		}
		j["params"] = typ(u.Params())
		j["results"] = typ(u.Results())
	case *types.Interface:
		j["kind"] = "interface"
	default:
		j["kind"] = fmt.Sprintf("%T", u)
	}
	tlist[id] = j
	return id
}

func val(v ssa.Value) any {
	if v == nil {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Const:
		j := J{"k": "const", "t": typ(v.Type())}
		if v.Value == nil {
			j["v"] = nil
		} else {
			switch v.Value.Kind() {
			case constant.Bool:
				j["v"] = constant.BoolVal(v.Value)
			case constant.String:
				j["s"] = []byte(constant.StringVal(v.Value))
			case constant.Int:
				j["v"] = v.Value.ExactString()
				j["i"] = true
			default:
				j["v"] = v.Value.ExactString()
				j["other"] = true
			}
		}
		return j
	case *ssa.Function:
		queue(v)
		return J{"k": "fn", "n": v.String()}
	case *ssa.Global:
		return J{"k": "global", "n": v.Name(), "pkg": v.Pkg.Pkg.Path(), "t": typ(v.Type())}
	case *ssa.Builtin:
		return J{"k": "builtin", "n": v.Name()}
	}
	return J{"k": "r", "n": v.Name(), "t": typ(v.Type())}
}

func vals(l []ssa.Value) []any {
	r := []any{}
	for _, v := range l {
		r = append(r, val(v))
	}
	return r
}

func call(c *ssa.CallCommon) J {
	j := J{"args": vals(c.Args)}
	if c.IsInvoke() {
		j["invoke"] = c.Method.Name()
		j["iface"] = typ(c.Value.Type())
	}
	j["fn"] = val(c.Value)
	j["sig"] = typ(c.Signature())
	return j
}

func instr(i ssa.Instruction) J {
	j := J{"op": strings.TrimPrefix(fmt.Sprintf("%T", i), "*ssa.")}
	if v, ok := i.(ssa.Value); ok {
		j["r"] = v.Name()
		j["t"] = typ(v.Type())
	}
	switch i := i.(type) {
	case *ssa.Alloc:
		j["heap"] = i.Heap
	case *ssa.Phi:
		j["edges"] = vals(i.Edges)
	case *ssa.Call:
		j["call"] = call(&i.Call)
	case *ssa.Defer:
		j["call"] = call(&i.Call)
	case *ssa.Go:
		j["call"] = call(&i.Call)
	case *ssa.BinOp:
		j["o"], j["x"], j["y"] = i.Op.String(), val(i.X), val(i.Y)
		j["xt"], j["yt"] = typ(i.X.Type()), typ(i.Y.Type())
	case *ssa.UnOp:
		j["o"], j["x"] = i.Op.String(), val(i.X)
		j["xt"] = typ(i.X.Type())
	case *ssa.ChangeType:
		j["x"] = val(i.X)
	case *ssa.ChangeInterface:
		j["x"] = val(i.X)
	case *ssa.Convert:
		j["x"], j["xt"] = val(i.X), typ(i.X.Type())
	case *ssa.MakeInterface:
		j["x"], j["xt"] = val(i.X), typ(i.X.Type())
	case *ssa.MakeClosure:
		j["fn"], j["binds"] = val(i.Fn), vals(i.Bindings)
	case *ssa.MakeSlice:
		j["len"], j["cap"] = val(i.Len), val(i.Cap)
	case *ssa.Slice:
		j["x"], j["low"], j["high"], j["max"] = val(i.X), val(i.Low), val(i.High), val(i.Max)
		j["xt"] = typ(i.X.Type())
	case *ssa.FieldAddr:
		j["x"], j["f"], j["xt"] = val(i.X), i.Field, typ(i.X.Type())
	case *ssa.Field:
		j["x"], j["f"], j["xt"] = val(i.X), i.Field, typ(i.X.Type())
	case *ssa.IndexAddr:
		j["x"], j["i"], j["xt"] = val(i.X), val(i.Index), typ(i.X.Type())
	case *ssa.Index:
		j["x"], j["i"], j["xt"] = val(i.X), val(i.Index), typ(i.X.Type())
	case *ssa.Extract:
		j["x"], j["i"] = val(i.Tuple), i.Index
	case *ssa.TypeAssert:
		j["x"], j["at"], j["ok"] = val(i.X), typ(i.AssertedType), i.CommaOk
	case *ssa.Store:
		j["a"], j["v"], j["vt"] = val(i.Addr), val(i.Val), typ(i.Val.Type())
	case *ssa.If:
		j["c"] = val(i.Cond)
	case *ssa.Return:
		j["res"] = vals(i.Results)
	case *ssa.Panic:
		j["x"] = val(i.X)
	}
	return j
}

var work []*ssa.Function
var seen = map[*ssa.Function]bool{}

func queue(f *ssa.Function) {
	if !seen[f] {
		seen[f] = true
		work = append(work, f)
	}
}

func main() {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedCompiledGoFiles, Dir: os.Args[1], Env: append(os.Environ(), "GO111MODULE=off", "GOFLAGS=")}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		panic(err)
	}
	if packages.PrintErrors(ps) > 0 || len(ps) != 1 {
		os.Exit(2)
	}
	prog, pkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := pkgs[0]
	exported := J{}
	for n, m := range p.Members {
		switch m := m.(type) {
		case *ssa.Function:
			queue(m)
			exported[n] = m.String()
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := prog.MethodValue(ms.At(i)); f != nil {
						queue(f)
					}
				}
			}
		}
	}
	fns := J{}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		name := f.String()
		j := J{"name": f.Name(), "sig": typ(f.Signature)}
		ps := []string{}
		for _, q := range f.Params {
			ps = append(ps, q.Name())
		}
		fv := []string{}
		for _, q := range f.FreeVars {
			fv = append(fv, q.Name())
		}
		j["params"], j["free"] = ps, fv
		j["pkg"] = ""
		if f.Pkg != nil {
			j["pkg"] = f.Pkg.Pkg.Path()
		}
		if f.Signature.Recv() != nil {
			j["recv"] = typ(f.Signature.Recv().Type())
		}
		bl := []any{}
		for _, b := range f.Blocks {
			is := []any{}
			for _, i := range b.Instrs {
				if _, ok := i.(*ssa.DebugRef); ok {
					continue
				}
				is = append(is, instr(i))
			}
			sc, pr := []int{}, []int{}
			for _, s := range b.Succs {
				sc = append(sc, s.Index)
			}
			for _, s := range b.Preds {
				pr = append(pr, s.Index)
			}
			bl = append(bl, J{"i": is, "s": sc, "p": pr})
		}
		j["blocks"] = bl
		fns[name] = j
	}
	json.NewEncoder(os.Stdout).Encode(J{"pkg": p.Pkg.Path(), "members": exported, "funcs": fns, "types": tlist})
}

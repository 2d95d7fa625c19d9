package main

// A new compiler: empty tables of its own, a module of its own.

import (
	"fmt"
	"go/types"
)

func (st *State) isNewCompiler() bool {
	return st.v.c != nil && st.v.c.Opts["newcompiler"]
}

func (st *State) freshObject(kind string) Val {
	st.next++
	return Opaque{Kind: kind, Arg: st.next}
}

func (st *State) checkNewCompiler(rv Val) {
	p, ok := rv.(Ptr)
	if !ok {
		st.fail("postcondition", "a compiler is returned: "+show(rv), "state:E")
		return
	}
	v, ok := st.load(p).(*StructV)
	rt := st.v.fn.Signature.Results().At(0).Type()
	pt, ok2 := rt.Underlying().(*types.Pointer)
	if !ok || !ok2 || p.Path != "" {
		st.fail("postcondition", "a compiler of its own is returned", "state:E")
		return
	}
	u := pt.Elem().Underlying().(*types.Struct)
	used := map[string]bool{}
	for i := 0; i < u.NumFields(); i++ {
		name := fieldName("Compiler", u.Field(i).Name())
		x := unIface(v.F[i])
		// labels and what is known of them are made for each function
		perFn := name == "labels" || name == "defined"
		good := false
		tags := []string{"state:E"}
		switch u.Field(i).Type().Underlying().(type) {
		case *types.Map:
			tags = append(tags, "panic")
			o, ok := x.(Opaque)
			k := ""
			if ok {
				k = fmt.Sprint(o.Arg)
			}
			good = ok && o.Kind == "freshmap" && !used[k] || perFn && isNilVal(x)
			used[k] = true
		case *types.Slice:
			sv, ok := x.(SliceV)
			good = isNilVal(x) || ok && (sv.L == nil || isNilList(sv.L)) && sv.Wrap == ""
		case *types.Basic:
			t, ok := x.(*Term)
			// numbers may count from anywhere
			good = ok && (t.Op == "#bv" && t.S == BV64 && t.Val < 1<<32 || t == False || t.S == listSort(BV8) && isNilList(t))
		case *types.Pointer:
			o, ok := x.(Opaque)
			switch {
			case name == "args":
				good = ok && o.Kind == "options"
			case typeName(u.Field(i).Type()) == "*"+llir+".Module" || name == "module":
				good = ok && o.Kind == "freshmodule"
			default:
				good = isNilVal(x)
			}
		default:
			good = isNilVal(x)
		}
		st.oblige("postcondition", "a new compiler's "+name+" is empty and its own", boolT(good), tags...)
	}
}

package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ConstMap is a map of the package that nothing changes once it is made.
type ConstMap struct {
	K, V []*Term
}

// constGlobal gives the value of a variable of the package that is set where
// it is declared and only read afterwards: a constant, or a slice or a map of
// constants. It is nil for any other.
func (st *State) constGlobal(name string) Val {
	var g *ssa.Global
	for _, m := range st.v.pr.pkg.Members {
		if x, ok := m.(*ssa.Global); ok && x.String() == name {
			g = x
		}
	}
	ini := st.v.pr.pkg.Func("init")
	if g == nil || ini == nil {
		return nil
	}
	var def ssa.Value
	for _, fn := range everyFunc(st.v.pr) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch in := in.(type) {
					case *ssa.Store:
						if fn != ini || in.Addr != ssa.Value(g) || def != nil {
							return nil
						}
						def = in.Val
					case *ssa.UnOp:
						if in.Op != token.MUL || !onlyRead(in) {
							return nil
						}
					default:
						return nil
					}
				}
			}
		}
	}
	if ld, ok := def.(*ssa.UnOp); ok && ld.Op == token.MUL {
		// through a variable of its own
		if a, ok := ld.X.(*ssa.Alloc); ok {
			def = nil
			for _, r := range *a.Referrers() {
				if w, ok := r.(*ssa.Store); ok && w.Addr == ssa.Value(a) && def == nil {
					def = w.Val
				} else if r != ssa.Instruction(ld) {
					return nil
				}
			}
		}
	}
	elemOf := func(v ssa.Value) *Term {
		c, ok := v.(*ssa.Const)
		if !ok {
			return nil
		}
		t, _ := constVal(c).(*Term)
		return t
	}
	switch d := def.(type) {
	case *ssa.Const:
		return constVal(d)
	case *ssa.MakeMap:
		m := ConstMap{}
		for _, r := range *d.Referrers() {
			switch r := r.(type) {
			case *ssa.MapUpdate:
				k, v := elemOf(r.Key), elemOf(r.Value)
				if r.Map != ssa.Value(d) || k == nil || v == nil {
					return nil
				}
				m.K, m.V = append(m.K, k), append(m.V, v)
			case *ssa.Store:
			default:
				return nil
			}
		}
		return m
	case *ssa.Slice:
		a, ok := d.X.(*ssa.Alloc)
		if !ok || d.Low != nil || d.High != nil {
			return nil
		}
		s, ok := sortOf(d.Type().Underlying().(*types.Slice).Elem())
		if !ok {
			return nil
		}
		n := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		els := make([]*Term, n)
		for _, r := range *a.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				if r != ssa.Instruction(d) {
					return nil
				}
				continue
			}
			i, ok := ia.Index.(*ssa.Const)
			if !ok || len(*ia.Referrers()) != 1 {
				return nil
			}
			w, ok := (*ia.Referrers())[0].(*ssa.Store)
			if !ok {
				return nil
			}
			els[i.Int64()] = elemOf(w.Val)
		}
		listSort(s)
		l := mk("nil_" + sortKey(s))
		for _, e := range els {
			if e == nil || e.S != s {
				return nil
			}
			l = mk("snoc_"+sortKey(s), l, e)
		}
		return SliceV{L: l}
	}
	return nil
}

// onlyRead: elements of the value are read, and nothing else is done with it.
func onlyRead(v ssa.Value) bool {
	switch v.Type().Underlying().(type) {
	case *types.Map, *types.Slice:
	case *types.Basic:
		return true
	default:
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.IndexAddr:
			for _, q := range *r.Referrers() {
				if u, ok := q.(*ssa.UnOp); !ok || u.Op != token.MUL {
					return false
				}
			}
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func everyFunc(pr *Prog) []*ssa.Function {
	var out []*ssa.Function
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		out = append(out, fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for _, fn := range pr.all {
		add(fn)
	}
	if _, ok := pr.all["init"]; !ok {
		if fn := pr.pkg.Func("init"); fn != nil {
			add(fn)
		}
	}
	return out
}

// constLookup looks a key up in a constant map, key by key.
func (st *State) constLookup(x *ssa.Lookup, m ConstMap, key *Term) ([]*State, bool) {
	elem := x.X.Type().Underlying().(*types.Map).Elem()
	set := func(n *State, v Val, ok bool) *State {
		if x.CommaOk {
			v = TupleV{[]Val{v, boolT(ok)}}
		}
		n.top().regs[x] = v
		n.top().pc++
		return n
	}
	out := []*State{}
	var none []*Term
	for i, k := range m.K {
		c := st.F.norm(Eq(key, k))
		none = append(none, Not(c))
		if c == False {
			continue
		}
		if n := st.feasibleWith(c); n != nil {
			out = append(out, set(n, valOf(m.V[i], elem), true))
		}
	}
	if n := st.feasibleWith(And(none...)); n != nil {
		out = append(out, set(n, zeroVal(elem), false))
	}
	return out, true
}

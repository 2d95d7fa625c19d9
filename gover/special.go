package main

// Results that are objects rather than terms.

import (
	"go/types"
)

func (st *State) specialRet(x *Sexp, e env, typ typesType) Val {
	switch x.head() {
	case "lexer":
		return Opaque{Kind: "lexer"}
	}
	return nil
}

func (st *State) specialCheck(x *Sexp, e env, v Val, typ typesType, desc string) bool {
	switch x.head() {
	case "lexer":
		// a lexer at the start of the source, reading it through the adapter
		p, ok := v.(Ptr)
		if !ok {
			return false
		}
		s, ok := st.load(p).(*StructV)
		if !ok {
			return false
		}
		u := typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		rd, bf := false, false
		for i, f := range s.F {
			switch {
			case isModelPtr(u.Field(i).Type()) == "options":
				o, ok := f.(Opaque)
				if !ok || o.Kind != "options" {
					st.fail("postcondition", "the lexer keeps the options it is given", "result")
				}
			case typeName(u.Field(i).Type()) == "[]rune":
				bf = true
				sv, ok := f.(SliceV)
				if !ok || sv.L != nil && !isNilList(st.F.norm(sv.L)) {
					st.fail("postcondition", "nothing has been handed back yet", "result")
				}
			case typeName(u.Field(i).Type()) == "io.RuneReader":
				rd = true
				good := false
				if iv, ok := f.(IfaceV); ok {
					if q, ok := iv.V.(Ptr); ok {
						if m := st.v.pr.prog.LookupMethod(iv.T, nil, "ReadRune"); m != nil && m == st.v.pr.fns["ReadRune"] {
							if t, ok := st.load(q).(*StructV); ok && len(t.F) == 1 {
								if o, ok := t.F[0].(Opaque); ok && o.Kind == "reader" {
									good = true
								}
							}
						}
					}
				}
				if !good {
					st.fail("postcondition", "the source is read through the adapter", "result")
				}
			}
		}
		if !rd || !bf {
			st.fail("postcondition", "the lexer has a source and a buffer", "result")
			return true
		}
		st.oblige("postcondition", desc, True, "result")
		return true
	}
	return false
}

package main

// Values of the symbolic executor and their representation as terms.

import (
	"fmt"
	"go/types"
	"strings"
)

type Val interface{}

type Ptr struct {
	Obj  int
	Path string // ".i.j"
}
type NilV struct{}
type UndefV struct{ Why string }
type StructV struct{ F []Val }
type ArrV struct{ E []Val }
type SliceV struct {
	L    *Term  // list term
	Wrap string // constructor wrapped around each element when read ("" = none)
	Cap  bool
}
type MapV struct {
	M *Term // (Array Str (Opt T)) or (Array Str Bool)
}
type TupleV struct{ V []Val }
type FuncV struct {
	Fn    interface{}
	Binds []Val
}
type IfaceV struct {
	T types.Type
	V Val
}

// GhostPtr designates a field of a modelled object.
type GhostPtr struct {
	Kind  string
	Field string
	Arg   Val
	Idx   int // number of the field
}

// Opaque is a modelled object known by its kind only.
type Opaque struct {
	Kind string
	Arg  interface{}
}

// TypeV is an LLVM type; D is its description.
type TypeV struct {
	D   string
	N   *Term // length of an array type
	Elt *TypeV
	Fix int // number of fixed parameters of a function type
	Var *bool
}

type BlkV struct{ ID int }

func underlying(t types.Type) types.Type { return t.Underlying() }

func typeName(t types.Type) string { return types.TypeString(t, nil) }

const (
	tValue    = "github.com/llir/llvm/ir/value.Value"
	tConstant = "github.com/llir/llvm/ir/constant.Constant"
)

// sortOf gives the sort of terms that represent values of a Go type.
func sortOf(t types.Type) (string, bool) {
	switch typeName(t) {
	case tValue, tConstant, "*github.com/llir/llvm/ir.Func", "*github.com/llir/llvm/ir.Global":
		return "LV", true
	case "error":
		return "Err", true
	case "strings.Builder", "bytes.Buffer":
		return listSort(BV8), true
	case "*github.com/llir/llvm/ir.Block":
		return BV64, true
	case "*github.com/llir/llvm/ir.Case":
		return "Case", true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return Bool, true
		case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr, types.UntypedInt:
			return BV64, true
		case types.Int32, types.Uint32, types.UntypedRune:
			return BV32, true
		case types.Int8, types.Uint8:
			return BV8, true
		case types.Int16, types.Uint16:
			return bvSort(16), true
		case types.String, types.UntypedString:
			return listSort(BV8), true
		}
	case *types.Slice:
		e, ok := sortOf(u.Elem())
		if !ok {
			return "", false
		}
		return listSort(e), true
	case *types.Struct:
		if u.NumFields() == 0 {
			return "", false
		}
		var ss []string
		for i := 0; i < u.NumFields(); i++ {
			s, ok := sortOf(u.Field(i).Type())
			if !ok {
				return "", false
			}
			ss = append(ss, s)
		}
		if sealed && !sig.isDT(tupleName(ss)) {
			return "", false
		}
		return tupleSort(ss), true
	case *types.Map:
		if s, ok := sortOf(u.Key()); ok && s == listSort(BV8) {
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				return arraySort(s, Bool), true
			}
			if b, ok := u.Elem().Underlying().(*types.Struct); ok && b.NumFields() == 0 {
				return arraySort(s, Bool), true
			}
			if e, ok := sortOf(u.Elem()); ok {
				return arraySort(s, optSort(e)), true
			}
		}
	}
	return "", false
}

// termOf represents a value as a term of the given sort.
func termOf(v Val, sort string) (*Term, bool) {
	switch v := v.(type) {
	case *Term:
		if v.S == sort {
			return v, true
		}
		return nil, false
	case NilV:
		switch {
		case sort == "Err":
			return mk("enil"), true
		case strings.HasPrefix(sort, "L_"):
			return mk("nil_" + sort[2:]), true
		case sort == "LV":
			return mk("lnil"), true
		}
		return nil, false
	case SliceV:
		if v.L == nil {
			return mk("nil_" + sort[2:]), true
		}
		if v.L.S == sort && v.Wrap == "" {
			return v.L, true
		}
		if isNilList(v.L) && strings.HasPrefix(sort, "L_") {
			return mk("nil_" + sort[2:]), true
		}
		// rewrap element by element
		if w, ok := rewrap(v, sort); ok {
			return w, true
		}
		return nil, false
	case *SliceV:
		return termOf(*v, sort)
	case MapV:
		if v.M.S == sort {
			return v.M, true
		}
		return nil, false
	case *StructV:
		cs := sig.Ctors[sort]
		if len(cs) != 1 || len(cs[0].Sels) != len(v.F) {
			return nil, false
		}
		var as []*Term
		for i, f := range v.F {
			t, ok := termOf(f, cs[0].Sorts[i])
			if !ok {
				return nil, false
			}
			as = append(as, t)
		}
		return mk(cs[0].Name, as...), true
	case IfaceV:
		return termOf(v.V, sort)
	case BlkV:
		return nil, false
	}
	return nil, false
}

func isNilList(t *Term) bool { return strings.HasPrefix(t.Op, "nil_") && isCtorApp(t) }

func isSnoc(t *Term) bool { return strings.HasPrefix(t.Op, "snoc_") && isCtorApp(t) }

// rewrap converts a list whose elements are unwrapped into one of wrapped elements.
func rewrap(v SliceV, sort string) (*Term, bool) {
	if v.Wrap != "" {
		if isNilList(v.L) {
			return mk("nil_" + sort[2:]), true
		}
		if isSnoc(v.L) {
			r, ok := rewrap(SliceV{L: v.L.Args[0], Wrap: v.Wrap}, sort)
			if !ok {
				return nil, false
			}
			return mk("snoc_"+sort[2:], r, mk(v.Wrap, v.L.Args[1])), true
		}
		// lift function for opaque lists
		fn := "lift_" + v.Wrap
		if f, ok := sig.Funs[fn]; ok && f.Ret == sort {
			return mk(fn, v.L), true
		}
		return nil, false
	}
	return nil, false
}

// valOf makes the value of a Go type from a term.
func valOf(t *Term, typ types.Type) Val {
	switch u := typ.Underlying().(type) {
	case *types.Slice:
		return SliceV{L: t}
	case *types.Map:
		return MapV{M: t}
	case *types.Struct:
		if cs := sig.Ctors[t.S]; len(cs) == 1 && len(cs[0].Sels) == u.NumFields() {
			s := &StructV{}
			for i := range cs[0].Sels {
				s.F = append(s.F, valOf(mk(cs[0].Sels[i], t), u.Field(i).Type()))
			}
			return s
		}
	}
	return t
}

func zeroVal(typ types.Type) Val {
	switch typeName(typ) {
	case "error":
		return mk("enil")
	case tValue, tConstant:
		return NilV{}
	case "strings.Builder", "bytes.Buffer":
		return strLit("")
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		s, ok := sortOf(typ)
		if !ok {
			return UndefV{"zero value of " + typeName(typ)}
		}
		if s == Bool {
			return False
		}
		if w := bvWidth(s); w != 0 {
			return bv(w, 0)
		}
		return strLit("")
	case *types.Slice:
		if s, ok := sortOf(typ); ok {
			return SliceV{L: mk("nil_" + s[2:])}
		}
		return SliceV{}
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, zeroVal(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		a := &ArrV{}
		if u.Len() > 1000 {
			return UndefV{"large array"}
		}
		for i := int64(0); i < u.Len(); i++ {
			a.E = append(a.E, zeroVal(u.Elem()))
		}
		return a
	}
	return NilV{}
}

func freshVal(name string, typ types.Type) Val {
	if s, ok := sortOf(typ); ok {
		switch typ.Underlying().(type) {
		case *types.Pointer:
			return UndefV{"havocked " + name}
		}
		return valOf(fresh(name, s), typ)
	}
	if u, ok := typ.Underlying().(*types.Struct); ok {
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, freshVal(name, u.Field(i).Type()))
		}
		return s
	}
	return UndefV{"havocked " + name}
}

func show(v Val) string {
	switch v := v.(type) {
	case *Term:
		return v.String()
	case SliceV:
		if v.L == nil {
			return "nil-slice"
		}
		return fmt.Sprintf("slice%s(%s)", v.Wrap, v.L)
	case *StructV:
		var p []string
		for _, f := range v.F {
			p = append(p, show(f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case MapV:
		return v.M.String()
	case TupleV:
		var p []string
		for _, f := range v.V {
			p = append(p, show(f))
		}
		return "(" + strings.Join(p, ", ") + ")"
	}
	return fmt.Sprintf("%T%+v", v, v)
}

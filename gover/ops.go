package main

// Go operations on symbolic values.

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func (st *State) binop(op token.Token, a, b Val, typ types.Type) Val {
	switch op {
	case token.EQL:
		return st.F.norm(st.equal(a, b, typ))
	case token.NEQ:
		return st.F.norm(Not(st.equal(a, b, typ)))
	}
	for _, v := range []Val{a, b} {
		if u, ok := v.(UndefV); ok {
			return u // nothing is known about it: it may not be used
		}
	}
	x, y := st.term(a), st.term(b)
	if strings.HasPrefix(x.S, "L_") {
		if op == token.ADD {
			return st.strcat(x, y)
		}
		bail("operator %s on strings", op)
	}
	sg := isSigned(typ)
	pick := func(s, u string) string {
		if sg {
			return s
		}
		return u
	}
	// shift counts may have another type
	if op == token.SHL || op == token.SHR {
		wx, wy := bvWidth(x.S), bvWidth(y.S)
		if wy < wx {
			y = mk("(_ zero_extend "+strconv.Itoa(wx-wy)+")", y)
		} else if wy > wx {
			if y.Op != "#bv" {
				bail("shift count")
			}
			v := y.Val
			if v > uint64(wx) {
				v = uint64(wx)
			}
			y = bv(wx, v)
		}
	}
	switch op {
	case token.ADD:
		return mk("bvadd", x, y)
	case token.SUB:
		return mk("bvsub", x, y)
	case token.MUL:
		return mk("bvmul", x, y)
	case token.QUO, token.REM:
		st.oblige("no panic", "division by zero", Not(Eq(y, bv(bvWidth(y.S), 0))), "panic")
		if op == token.QUO {
			return mk(pick("bvsdiv", "bvudiv"), x, y)
		}
		return mk(pick("bvsrem", "bvurem"), x, y)
	case token.AND:
		return mk("bvand", x, y)
	case token.OR:
		return mk("bvor", x, y)
	case token.XOR:
		return mk("bvxor", x, y)
	case token.AND_NOT:
		return mk("bvand", x, mk("bvnot", y))
	case token.SHL:
		return mk("bvshl", x, y)
	case token.SHR:
		return mk(pick("bvashr", "bvlshr"), x, y)
	case token.LSS:
		return mk(pick("bvslt", "bvult"), x, y)
	case token.LEQ:
		return mk(pick("bvsle", "bvule"), x, y)
	case token.GTR:
		return mk(pick("bvslt", "bvult"), y, x)
	case token.GEQ:
		return mk(pick("bvsle", "bvule"), y, x)
	}
	bail("operator %s", op)
	return nil
}

func (st *State) equal(a, b Val, typ types.Type) *Term {
	// nil comparisons
	na, nb := isNilVal(a), isNilVal(b)
	if na && nb {
		return True
	}
	if na {
		a, b = b, a
		na, nb = nb, na
	}
	switch x := a.(type) {
	case SliceV:
		if nb || isEmptySlice(b) {
			if x.L == nil {
				return True
			}
			if isNilList(st.F.norm(x.L)) {
				// an empty slice may or may not be nil
				if x.Cap {
					return False
				}
				return fresh("isnil", Bool)
			}
			ln := mk("len_"+x.L.S[2:], x.L)
			z := fresh("isnil", Bool)
			st.F.assume(Imp(z, Eq(ln, bv(64, 0))))
			return z
		}
	case Ptr:
		if nb {
			return False
		}
		if y, ok := b.(Ptr); ok {
			return boolT(x == y)
		}
	case BlkV:
		if nb {
			return False
		}
		if y, ok := b.(BlkV); ok {
			return boolT(x == y)
		}
	case Opaque, MapV, MapW, FuncV, TypeV, *TypeV, GhostPtr:
		if nb {
			return False
		}
	case *Term:
		if nb {
			switch x.S {
			case "Err":
				return Eq(x, mk("enil"))
			case "LV":
				return mk("is-lnil", x)
			case BV64: // *ir.Block reference
				return Eq(x, bv(64, 0))
			}
			bail("comparison of %s with nil", x)
		}
		if y, ok := b.(*Term); ok {
			return Eq(x, y)
		}
		if i, ok := b.(IfaceV); ok {
			if y, ok := i.V.(*Term); ok && y.S == x.S {
				return Eq(x, y)
			}
		}
	case *StructV:
		y, ok := b.(*StructV)
		if ok && len(x.F) == len(y.F) {
			r := True
			for i := range x.F {
				r = And(r, st.equal(x.F[i], y.F[i], nil))
			}
			return r
		}
	case IfaceV:
		if nb {
			return False
		}
		if y, ok := b.(IfaceV); ok {
			return st.equal(x.V, y.V, nil)
		}
		if _, ok := b.(*Term); ok {
			return st.equal(b, a, nil)
		}
	}
	bail("comparison of %s and %s", show(a), show(b))
	return nil
}

func isNilVal(v Val) bool {
	_, ok := v.(NilV)
	return ok
}
func isEmptySlice(v Val) bool {
	s, ok := v.(SliceV)
	return ok && (s.L == nil || isNilList(s.L))
}

func (st *State) strcat(a, b *Term) *Term {
	b = st.F.norm(b)
	if isNilList(b) {
		return a
	}
	if isNilList(a) {
		return b
	}
	if isSnoc(b) {
		return mk(b.Op, st.strcat(a, b.Args[0]), b.Args[1])
	}
	if _, ok := sig.Funs["strcat"]; ok {
		return mk("strcat", a, b)
	}
	bail("string concatenation")
	return nil
}

func (st *State) fieldAddr(p Val, field int, ptrT types.Type) Val {
	switch p := p.(type) {
	case Ptr:
		return Ptr{p.Obj, p.Path + "." + strconv.Itoa(field)}
	case Opaque, BlkV, *Term, GhostPtr, *TypeV:
		s := ptrT.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		kind := typeName(ptrT.Underlying().(*types.Pointer).Elem())
		if i := strings.LastIndexAny(kind, "/."); i >= 0 {
			kind = kind[i+1:]
		}
		return GhostPtr{Kind: kind, Field: fieldName(kind, s.Field(field).Name()), Arg: p, Idx: field}
	case NilV:
		st.fail("no panic", "nil pointer dereference", "panic")
		panic(pathEnd{})
	case IfaceV:
		return st.fieldAddr(p.V, field, ptrT)
	}
	bail("field of %s", show(p))
	return nil
}

// listLen is the length of a list; lengths are below 2^62.
func (st *State) listLen(l *Term) *Term {
	t := st.F.norm(mk("len_"+l.S[2:], l))
	st.lenAxioms(t)
	return t
}

func (st *State) lenAxioms(t *Term) {
	if strings.HasPrefix(t.Op, "len_") && !isCtorApp(t.Args[0]) && !st.F.lens[t] {
		k, x := t.Op[4:], t.Args[0]
		st.F.lens[t] = true
		st.F.assume(And(mk("bvsle", bv(64, 0), t), mk("bvsle", t, bv(64, 1<<62))))
		st.F.assume(Eq(mk("is-nil_"+k, x), Eq(t, bv(64, 0))))
		st.F.assume(Or(mk("is-nil_"+k, x), Eq(t, mk("bvadd", mk("len_"+k, mk("init_"+k, x)), bv(64, 1)))))
	}
	for _, a := range t.Args {
		st.lenAxioms(a)
	}
}

func (st *State) indexAddr(base Val, idx *Term) Val {
	switch p := base.(type) {
	case Ptr: // pointer to array
		if idx.Op != "#bv" {
			bail("symbolic index into an array")
		}
		if a, ok := st.load(p).(*ArrV); ok {
			if int(idx.Val) >= len(a.E) || int64(idx.Val) < 0 {
				st.fail("no panic", "index out of range", "panic")
				panic(pathEnd{})
			}
		}
		return Ptr{p.Obj, p.Path + "." + strconv.Itoa(int(idx.Val))}
	case SliceV:
		if p.L == nil {
			st.fail("no panic", "index out of range", "panic")
			panic(pathEnd{})
		}
		st.inRange(idx, p.L)
		return GhostPtr{Kind: "elem", Arg: elemRef{p, idx}}
	case *sliceObj:
		cur := st.load(p.P).(SliceV)
		st.inRange(idx, cur.L)
		return GhostPtr{Kind: "elem", Arg: elemRef{cur, idx}, Field: strconv.Itoa(p.P.Obj) + "|" + p.P.Path}
	case GSlice:
		c := st.F.norm(And(mk("bvsle", bv(64, 0), idx), mk("bvslt", idx, p.Len)))
		if c != True {
			st.oblige("no panic", "index in range", c, "panic")
		}
		return GhostPtr{Kind: "gelem", Arg: [2]Val{p, idx}}
	case VecV:
		if idx.Op != "#bv" || idx.Val >= uint64(len(p.E)) {
			st.fail("no panic", "index out of range", "panic")
			panic(pathEnd{})
		}
		return GhostPtr{Kind: "vecelem", Arg: [2]Val{p, idx}}
	case GhostPtr, *Term:
		return GhostPtr{Kind: "ielem", Arg: [2]Val{base, idx}}
	}
	bail("index of %s", show(base))
	return nil
}

type elemRef struct {
	S SliceV
	I *Term
}

// sliceObj is a slice whose backing store is a known object (never used yet by value semantics).
type sliceObj struct{ P Ptr }

func (st *State) sliceOfObj(p Ptr, l *Term) Val { return SliceV{L: l, Cap: true} }

func (st *State) inRange(idx, l *Term) {
	ln := st.listLen(l)
	c := st.F.norm(And(mk("bvsle", bv(64, 0), idx), mk("bvslt", idx, ln)))
	if c == True {
		return
	}
	if c == False {
		st.fail("no panic", "index out of range", "panic")
		panic(pathEnd{})
	}
	st.oblige("no panic", "index in range", c, "panic")
}

func wrapElem(w string, t *Term) *Term {
	if w == "" {
		return t
	}
	return mk(w, t)
}

func (st *State) index(base Val, idx *Term, typ types.Type) Val {
	switch p := base.(type) {
	case *Term: // string
		st.inRange(idx, p)
		return st.F.norm(st.nth(p, idx))
	case SliceV:
		st.inRange(idx, p.L)
		return valOf(st.F.norm(wrapElem(p.Wrap, st.nth(p.L, idx))), typ)
	case *ArrV:
		if idx.Op == "#bv" && int(idx.Val) < len(p.E) {
			return p.E[idx.Val]
		}
	}
	bail("index of %s", show(base))
	return nil
}

func (st *State) slice(x *ssa.Slice) Val {
	base := st.get(x.X)
	var lo, hi *Term
	if x.Low != nil {
		lo = st.term(st.get(x.Low))
	}
	if x.High != nil {
		hi = st.term(st.get(x.High))
	}
	var l *Term
	wrap := ""
	switch p := base.(type) {
	case Ptr:
		a, ok := st.load(p).(*ArrV)
		if !ok {
			bail("slice of %s", show(st.load(p)))
		}
		t := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		s, ok := sortOf(t.Elem())
		if !ok {
			// a slice of arguments that are not terms
			return VecV{a.E}
		}
		listSort(s)
		l = mk("nil_" + sortKey(s))
		for _, e := range a.E {
			et, ok := termOf(e, s)
			if !ok {
				return VecV{a.E}
			}
			l = mk("snoc_"+sortKey(s), l, et)
		}
	case SliceV:
		l = p.L
		wrap = p.Wrap
	case *Term:
		l = p
	default:
		bail("slice of %s", show(base))
	}
	if l == nil {
		bail("slice of nil")
	}
	k := l.S[2:]
	n := st.listLen(l)
	if hi == nil {
		hi = n
	}
	if lo == nil {
		lo = bv(64, 0)
	}
	if _, isStr := base.(*Term); isStr && st.driving() && x.Low == nil && x.High != nil {
		// all but the extension, which a name ends with
		if e := st.ext(l); st.F.norm(Eq(hi, mk("bvsub", n, st.listLen(e)))) == True {
			return st.F.norm(mk("ftrim", l, e))
		}
	}
	c := And(mk("bvsle", bv(64, 0), lo), mk("bvsle", lo, hi), mk("bvsle", hi, n))
	if st.F.norm(c) != True {
		st.oblige("no panic", "slice bounds in range", c, "panic")
	}
	if hi != n {
		nl := st.F.norm(l)
		if isSnoc(nl) && st.F.norm(Eq(hi, st.listLen(nl.Args[0]))) == True {
			l = nl.Args[0]
		} else if st.F.norm(mk("bvadd", hi, bv(64, 1))) == n {
			l = mk("init_"+k, l)
		} else {
			l = mk("take_"+k, l, hi)
		}
	}
	if lo.Op == "#bv" && lo.Val == 0 {
	} else {
		if _, ok := sig.Funs["drop_"+k]; !ok {
			bail("slice from %s", lo)
		}
		l = mk("drop_"+k, l, lo)
	}
	if _, ok := base.(*Term); ok {
		return st.F.norm(l)
	}
	return SliceV{L: l, Wrap: wrap, Cap: true}
}

func (st *State) convert(v Val, from, to types.Type) Val {
	if o, ok := v.(Opaque); ok && o.Kind == "moduletext" {
		return v
	}
	fs, ok1 := sortOf(from)
	ts, ok2 := sortOf(to)
	if !ok1 || !ok2 {
		bail("conversion from %s to %s", from, to)
	}
	if sv, ok := v.(SliceV); ok {
		if b, isb := to.Underlying().(*types.Basic); isb && b.Kind() == types.String && sv.L != nil && sv.L.S == ts {
			return st.F.norm(sv.L)
		}
		if sv.L != nil && sv.L.S == ts {
			return v
		}
		bail("conversion from %s to %s", from, to)
	}
	t := st.term(v)
	wf, wt := bvWidth(fs), bvWidth(ts)
	if wf != 0 && wt != 0 {
		switch {
		case wt == wf:
			return t
		case wt < wf:
			return mk("(_ extract "+strconv.Itoa(wt-1)+" 0)", t)
		case isSigned(from):
			if t.Op != "#bv" && strings.HasPrefix(t.Op, "(_ zero_extend") {
				return mk("(_ zero_extend "+strconv.Itoa(wt-bvWidth(t.Args[0].S))+")", t.Args[0])
			}
			return mk("(_ sign_extend "+strconv.Itoa(wt-wf)+")", t)
		default:
			if t.Op != "#bv" && strings.HasPrefix(t.Op, "(_ zero_extend") {
				return mk("(_ zero_extend "+strconv.Itoa(wt-bvWidth(t.Args[0].S))+")", t.Args[0])
			}
			return mk("(_ zero_extend "+strconv.Itoa(wt-wf)+")", t)
		}
	}
	if fs == ts {
		if _, isSl := to.Underlying().(*types.Slice); isSl {
			return SliceV{L: t, Cap: true}
		}
		return t
	}
	// a character to a string: its UTF-8 encoding
	if ts == listSort(BV8) && wf != 0 {
		if f, ok := sig.Funs["utf8"]; ok && f.Sorts[0] == BV32 {
			if wf == 8 {
				t = mk("(_ zero_extend 24)", t)
			} else if wf == 64 {
				t = mk("(_ extract 31 0)", t)
			}
			return st.F.norm(mk("utf8", t))
		}
	}
	bail("conversion from %s to %s", from, to)
	return nil
}

// unwrap takes the wrapping constructor off a list element.
func (st *State) unwrap(t *Term, w string) *Term {
	if w == "" {
		return t
	}
	t = st.F.norm(t)
	if t.Op == w {
		return t.Args[0]
	}
	if strings.HasPrefix(w, "(_ zero_extend") {
		n, _ := strconv.Atoi(strings.Trim(strings.Fields(w)[2], ")"))
		iw := bvWidth(t.S) - n
		r := mk("(_ extract "+strconv.Itoa(iw-1)+" 0)", t)
		st.oblige("representation", "the character is a byte", Eq(t, mk(w, r)), "result")
		return r
	}
	if c, ok := sig.Ctor[w]; ok {
		r := mk(c.Sels[0], t)
		st.oblige("representation", "the value is a "+w, mk("is-"+w, t), "value")
		return r
	}
	bail("cannot unwrap %s", t)
	return nil
}

func (st *State) builtin(name string, com *ssa.CallCommon, args []Val) Val {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case SliceV:
			if x.L == nil {
				if x.Wrap == "opaque" {
					bail("length of an opaque slice")
				}
				return bv(64, 0)
			}
			return st.listLen(x.L)
		case *Term:
			return st.listLen(st.F.norm(x))
		case *ArrV:
			return bv(64, uint64(len(x.E)))
		case VecV:
			return bv(64, uint64(len(x.E)))
		case GSlice:
			return x.Len
		case NilV:
			return bv(64, 0)
		}
	case "append":
		if o, ok := args[0].(Opaque); ok && o.Kind == "strings" {
			return o
		}
		typ := com.Args[0].Type()
		ls, ok := sortOf(typ)
		if !ok {
			if a, ok := concrete(args[0]); ok {
				if b, ok := concrete(args[1]); ok {
					return VecV{append(append([]Val(nil), a...), b...)}
				}
			}
			return SliceV{Wrap: "opaque"}
		}
		a, ok := args[0].(SliceV)
		if !ok {
			if isNilVal(args[0]) {
				a = SliceV{L: mk("nil_" + ls[2:])}
			} else {
				bail("append to %s", show(args[0]))
			}
		}
		if a.L == nil {
			a.L = mk("nil_" + ls[2:])
		}
		var b SliceV
		switch y := args[1].(type) {
		case SliceV:
			b = y
		case *Term:
			b = SliceV{L: y}
		case NilV:
			return a
		default:
			bail("append of %s", show(args[1]))
		}
		if b.L == nil {
			if b.Wrap == "opaque" {
				bail("append of opaque values")
			}
			return a
		}
		// a ++ b, where b is a concrete list of elements
		bl := st.F.norm(b.L)
		var els []*Term
		for isSnoc(bl) {
			els = append(els, wrapElem(b.Wrap, bl.Args[1]))
			bl = bl.Args[0]
		}
		if !isNilList(bl) {
			if isNilList(st.F.norm(a.L)) && a.Wrap == "" {
				return SliceV{L: b.L, Wrap: b.Wrap, Cap: true}
			}
			k := a.L.S[2:]
			if a.L.S == b.L.S && a.Wrap == b.Wrap {
				if a.L.S == listSort(BV8) {
					return SliceV{L: st.strcat(a.L, b.L), Wrap: a.Wrap, Cap: true}
				}
				if _, ok := sig.Funs["cat_"+k]; ok {
					return SliceV{L: mk("cat_"+k, a.L, b.L), Wrap: a.Wrap, Cap: true}
				}
			}
			bail("append of a symbolic slice")
		}
		l := a.L
		k := l.S[2:]
		for i := len(els) - 1; i >= 0; i-- {
			e := st.unwrap(els[i], a.Wrap)
			if e.S != listElem[l.S] {
				bail("append: element sort %s to %s", e.S, l.S)
			}
			l = mk("snoc_"+k, l, e)
		}
		return SliceV{L: l, Wrap: a.Wrap, Cap: true}
	case "ssa:deferstack":
		return Opaque{Kind: "deferstack"}
	case "delete":
		bail("delete")
	case "cap":
		bail("cap")
	case "copy":
		bail("copy")
	case "min", "max":
		r := st.term(args[0])
		sg := "bvslt"
		if !isSigned(com.Args[0].Type()) {
			sg = "bvult"
		}
		for _, a := range args[1:] {
			t := st.term(a)
			c := mk(sg, t, r)
			if name == "max" {
				c = mk(sg, r, t)
			}
			r = Ite(c, t, r)
		}
		return r
	}
	bail("builtin %s", name)
	return nil
}

func (st *State) makeMap(typ types.Type) Val {
	if st.isNewCompiler() {
		return st.freshObject("freshmap")
	}
	if s, ok := sortOf(typ); ok {
		_, v := arrayParts(s)
		if v == Bool {
			return MapV{mk("(as const "+s+")", False)}
		}
		return MapV{mk("(as const "+s+")", mk(sig.Ctors[v][0].Name))}
	}
	if v := st.specialMap(typ); v != nil {
		return v
	}
	bail("map of type %s", typ)
	return nil
}

// mapCell makes maps reference values: the map lives in a cell.
type mapCell struct{ P Val }

func (st *State) lookup(x *ssa.Lookup) ([]*State, bool) {
	f := st.top()
	m := st.get(x.X)
	if cm, ok := m.(ConstMap); ok {
		return st.constLookup(x, cm, st.term(st.get(x.Index)))
	}
	if t, ok := m.(*Term); ok { // string index
		f.regs[x] = st.index(t, st.term(st.get(x.Index)), x.Type())
		f.pc++
		return nil, false
	}
	var key Val = st.get(x.Index)
	if isNilVal(m) {
		z := zeroVal(x.X.Type().Underlying().(*types.Map).Elem())
		if x.CommaOk {
			f.regs[x] = TupleV{[]Val{z, False}}
		} else {
			f.regs[x] = z
		}
		f.pc++
		return nil, false
	}
	if mr, ok := m.(mapRef); ok {
		m = st.load(mr.P)
	}
	if sp, forks, done, handled := st.specialLookup(x, m, key); handled {
		if forks != nil || done {
			return forks, done
		}
		f.regs[x] = sp
		f.pc++
		return nil, false
	}
	mv, ok := m.(MapV)
	if !ok {
		bail("lookup in %s", show(m))
	}
	k := st.term(key)
	sel := st.F.norm(mk("select", mv.M, k))
	elemT := x.X.Type().Underlying().(*types.Map).Elem()
	if sel.S == Bool {
		if x.CommaOk {
			var v Val = sel
			if _, isS := elemT.Underlying().(*types.Struct); isS {
				v = &StructV{}
			}
			f.regs[x] = TupleV{[]Val{v, sel}}
		} else {
			f.regs[x] = sel
		}
		f.pc++
		return nil, false
	}
	// option valued: fork on presence
	ok2 := optKey(sel.S)
	isS := st.F.norm(mk("is-some_"+ok2, sel))
	var out []*State
	for _, c := range []*Term{isS, Not(isS)} {
		if c == False {
			continue
		}
		n := st
		if c != True {
			n = st.feasibleWith(c)
			if n == nil {
				continue
			}
			n.note("%s: lookup %v", st.pos(), clip(c.String(), 100))
		}
		var v Val
		present := c == isS
		if present {
			v = valOf(n.F.norm(mk("val_"+ok2, sel)), elemT)
		} else {
			v = zeroVal(elemT)
		}
		if x.CommaOk {
			n.top().regs[x] = TupleV{[]Val{v, boolT(present)}}
		} else {
			n.top().regs[x] = v
		}
		n.top().pc++
		if n == st {
			return nil, false
		}
		out = append(out, n)
	}
	if out == nil {
		out = []*State{}
	}
	return out, true
}

// mapRef is a map held in a cell, so that updates are seen by all holders.
type mapRef struct{ P Val }

func (st *State) mapUpdate(x *ssa.MapUpdate) {
	m := st.get(x.Map)
	key := st.get(x.Key)
	v := st.get(x.Value)
	// find the cell the map was loaded from
	if st.specialMapUpdate(x, m, key, v) {
		return
	}
	mv, ok := m.(MapV)
	if !ok {
		bail("update of %s", show(m))
	}
	ld, ok := x.Map.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		// a map created in place: update the register
		st.top().regs[x.Map] = MapV{st.mapStore(mv.M, key, v)}
		return
	}
	addr := st.get(ld.X)
	cur, ok := st.load(addr).(MapV)
	if !ok {
		bail("update of %s", show(st.load(addr)))
	}
	st.store(addr, MapV{st.mapStore(cur.M, key, v)})
}

func (st *State) mapStore(m *Term, key, v Val) *Term {
	k := st.term(key)
	_, vs := arrayParts(m.S)
	if vs == Bool {
		switch v := v.(type) {
		case *Term:
			return mk("store", m, k, v)
		case *StructV:
			return mk("store", m, k, True)
		}
		bail("map value %s", show(v))
	}
	ok := optKey(vs)
	t, good := termOf(v, sig.Ctor["some_"+ok].Sorts[0])
	if !good {
		bail("map value %s", show(v))
	}
	return mk("store", m, k, mk("some_"+ok, t))
}

func (st *State) makeInterface(v Val, from, to types.Type) Val {
	switch typeName(to) {
	case tValue, tConstant:
		if t, ok := v.(*Term); ok && t.S == "LV" {
			return t
		}
		if isNilVal(v) {
			return mk("lnil")
		}
	case "error":
		if t, ok := v.(*Term); ok && t.S == "Err" {
			return t
		}
		er := fresh("err", "Err")
		st.F.assume(And(Not(Eq(er, mk("enil"))), Not(Eq(er, mk("eeof")))))
		return er
	}
	return IfaceV{T: from, V: v}
}

func (st *State) rangeOver(x *ssa.Range) Val {
	v := st.get(x.X)
	return Opaque{Kind: "iter", Arg: v}
}

func (st *State) rangeNext(x *ssa.Next) ([]*State, bool) {
	return st.specialNext(x)
}

// nth is the element of a list at an index known to be in range.
func (st *State) nth(l, i *Term) *Term {
	l = st.F.norm(l)
	n := st.listLen(l)
	k := l.S[2:]
	if st.F.norm(mk("bvadd", i, bv(64, 1))) == n {
		return mk("last_"+k, l)
	}
	return mk("nth_"+k, l, i)
}

// concrete gives the elements of a slice that are not terms.
func concrete(v Val) ([]Val, bool) {
	switch v := v.(type) {
	case VecV:
		return v.E, true
	case NilV:
		return nil, true
	case SliceV:
		return nil, v.L == nil && v.Wrap == ""
	}
	return nil, false
}

package main

// Functions of the LLVM builder library other than the methods of a block.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// carr is an array constant.
type carr struct {
	Words *Term // list of words, or nil
	Bytes *Term // list of bytes, or nil
	Zeros *Term // number of zero words, or nil
}

func (st *State) llirCall(name string, fn *ssa.Function, com *ssa.CallCommon, args []Val, finish func(*State, Val)) ([]*State, bool, bool) {
	one := func(v Val) ([]*State, bool, bool) { finish(st, v); return nil, false, true }
	if !strings.Contains(name, llir) {
		return nil, false, false
	}
	n := strings.Replace(name, "*", "", 1)
	n = strings.Replace(n, llir, "ir", 1)
	switch n {
	case "ir/types.NewPointer":
		return one(&TypeV{D: "ptr", Elt: st.typ(args[0])})
	case "ir/types.NewArray":
		return one(&TypeV{D: "arr", N: st.term(args[0]), Elt: st.typ(args[1])})
	case "ir/types.NewFunc":
		st.wordType(args[0], "result of a function")
		ps := st.vec(args[1])
		for _, p := range ps {
			st.wordType(p, "parameter of a function")
		}
		return one(&TypeV{D: "func", Fix: len(ps)})
	case "ir/constant.NewInt":
		v := st.term(args[1])
		switch t := st.typ(args[0]); t.D {
		case "i64":
			return one(mk("lword", v))
		case "i32":
			return one(mk("li32", st.F.norm(mk("(_ extract 31 0)", v))))
		case "i8":
			return one(mk("li8", st.F.norm(mk("(_ extract 7 0)", v))))
		default:
			bail("integer constant of type %s", t.D)
		}
	case "ir/constant.NewArray":
		return one(st.constArray(args[0], args[1]))
	case "ir/constant.NewZeroInitializer":
		t := st.typ(args[0])
		if t.D != "arr" || t.Elt.D != "i64" {
			bail("zero constant of type %s", t.D)
		}
		return one(Opaque{Kind: "carr", Arg: carr{Zeros: t.N}})
	case "ir/constant.NewGetElementPtr":
		return one(st.gep(args[0], args[1], st.vec(args[2])))
	case "ir/constant.NewPtrToInt":
		st.wordType(args[1], "result of ptrtoint")
		t := st.lv(args[0])
		if t.Op == "lfn" {
			return one(mk("lword", mk("faddr", mk("fr_n", t.Args[0]))))
		}
		if t.Op == "lptr8" {
			return one(mk("lword", t.Args[0]))
		}
		return one(mk("lword", st.ptr(t, "operand of ptrtoint")))
	case "ir.NewIncoming":
		return one(Opaque{Kind: "incoming", Arg: Incoming{V: st.lv(args[0]), B: st.term(args[1])}})
	case "ir.NewCase":
		return one(mk("case_", st.word(args[0], "value of a case"), st.target(unIface(args[1]))))
	case "ir.NewParam":
		st.paramName(st.F.norm(st.term(args[0])))
		return one(Opaque{Kind: "newparam", Arg: st.typ(args[1])})
	case "(ir.GlobalIdent).Name":
		if o, ok := args[0].(Opaque); ok && o.Kind == "gid" {
			return one(st.symName(o.Arg))
		}
		if g, ok := args[0].(GhostPtr); ok && g.Field == "GlobalIdent" {
			return one(st.symName(g.Arg))
		}
	case "(ir.Func).NewBlock":
		if t, ok := args[0].(*Term); ok && st.R.NoFn {
			nm := st.F.norm(st.term(args[1]))
			if st.meta["curfnv"] == nil || !st.isCurFn(t) {
				// the function becomes the current one here
				st.meta["startedfn"] = st.F.norm(t)
			}
			b := st.startFn(st.F.norm(t))
			b.Name = nm
			st.R.names = append(st.R.names, nm)
			st.setEnvField("e_nl", bv(64, 0))
			return one(b.Id)
		}
		if o, ok := args[0].(Opaque); ok && o.Kind == "curfn" || st.isCurFn(args[0]) {
			if st.R.NoFn {
				st.fail("well-formed code", "a block is made outside a function", "wf")
				panic(pathEnd{})
			}
			id := freshBlk()
			nm := st.term(args[1])
			st.R.newBlock(id, true, nm)
			st.R.names = append(st.R.names, nm)
			return one(id)
		}
	case "(ir.Module).NewFunc":
		return one(st.newFunc(args))
	case "(ir.Module).NewGlobalDef":
		return one(st.newGlobal(args))
	case "ir.NewModule":
		if st.isNewCompiler() {
			return one(st.freshObject("freshmodule"))
		}
		return one(Opaque{Kind: "module"})
	case "(types.IntType).Equal":
	}
	bail("call of %s", name)
	return nil, false, false
}

func unIface(v Val) Val {
	if i, ok := v.(IfaceV); ok {
		return i.V
	}
	return v
}

func (st *State) isCurFn(v Val) bool {
	cur, ok := st.meta["curfnv"]
	if !ok {
		return false
	}
	a, ok1 := cur.(*Term)
	b, ok2 := v.(*Term)
	return ok1 && ok2 && st.F.norm(a) == st.F.norm(b)
}

func (st *State) symName(v Val) *Term {
	t := st.F.norm(st.term(v))
	switch t.Op {
	case "lfn":
		return st.F.norm(mk("fr_n", t.Args[0]))
	case "lglob":
		return st.F.norm(mk("gr_n", t.Args[0]))
	}
	bail("name of %s", t)
	return nil
}

func (st *State) constArray(ty, elems Val) Val {
	t := st.typ(ty)
	if t.D != "arr" {
		bail("array constant of type %s", t.D)
	}
	sv, ok := elems.(SliceV)
	if !ok {
		bail("array constant of %s", show(elems))
	}
	w := map[string]string{"i64": "lword", "i8": "li8"}[t.Elt.D]
	if w == "" {
		bail("array constant of %s", t.Elt.D)
	}
	l, ok := st.unwrapAll(sv, w)
	if !ok {
		st.fail("well-formed code", "elements of an array constant have the type of its elements", "wf")
		panic(pathEnd{})
	}
	st.oblige("well-formed code", "an array constant has as many elements as its type", Eq(t.N, st.listLen(l)), "wf")
	if w == "lword" {
		return Opaque{Kind: "carr", Arg: carr{Words: l}}
	}
	return Opaque{Kind: "carr", Arg: carr{Bytes: l}}
}

// unwrapAll gives the list of the contents of elements all made by constructor w.
func (st *State) unwrapAll(sv SliceV, w string) (*Term, bool) {
	k := sortKey(sig.Ctor[w].Sorts[0])
	listSort(sig.Ctor[w].Sorts[0])
	if sv.L == nil {
		return mk("nil_" + k), true
	}
	if sv.Wrap == w {
		return sv.L, true
	}
	l := st.F.norm(sv.L)
	if isNilList(l) {
		return mk("nil_" + k), true
	}
	if sv.Wrap == "" && isSnoc(l) {
		r, ok := st.unwrapAll(SliceV{L: l.Args[0]}, w)
		if !ok {
			return nil, false
		}
		e := st.F.norm(l.Args[1])
		if e.Op != w {
			if !st.F.prove(mk("is-"+w, e)).OK {
				return nil, false
			}
			e = mk(w, st.F.norm(mk(sig.Ctor[w].Sels[0], e)))
		}
		return mk("snoc_"+k, r, e.Args[0]), true
	}
	if sv.Wrap == "" && strings.HasPrefix(l.Op, "lift_"+w) {
		return l.Args[0], true
	}
	return nil, false
}

// ---- functions and globals of the module ----

// paramName checks that the name of a parameter is one in LLVM IR, and not that of a block.
func (st *State) paramName(n *Term) {
	s, ok := litStr(n)
	if ok && s == "" {
		return // numbered by llir
	}
	if !ok && n.Op == "strcat" {
		s, ok = litStr(n.Args[0])
	}
	const desc = "the name of a parameter is valid and differs from those of blocks"
	if !ok || s == "" || s[0] >= '0' && s[0] <= '9' {
		st.fail("well-formed code", desc+": "+clip(n.String(), 100), "wf")
		return
	}
	for _, p := range append([]string{"func.entry"}, labelPrefixes...) {
		if strings.HasPrefix(s, p) || strings.HasPrefix(p, s) {
			st.fail("well-formed code", desc+": "+s, "wf")
			return
		}
	}
	st.oblige("well-formed code", desc, True, "wf")
	freshMu.Lock()
	paramNames[s] = true
	freshMu.Unlock()
}

var paramNames = map[string]bool{}

func (st *State) newFunc(args []Val) Val {
	nm := st.F.norm(st.term(args[1]))
	rt := st.typ(args[2])
	np := 0
	s, isl := litStr(nm)
	intr := isl && strings.HasPrefix(s, "llvm.") || !isl && nm.Op != "gname" && st.F.prove(mk("isintr", nm)).OK
	for _, p := range st.vec(args[3]) {
		o, ok := p.(Opaque)
		if !ok || o.Kind != "newparam" {
			bail("parameter %s", show(p))
		}
		if !intr {
			st.wordType(o.Arg.(*TypeV), "parameter of a function")
		}
		np++
	}
	if !intr && rt.D != "i64" {
		st.fail("well-formed code", "a function returns a word", "wf")
	}
	va := fresh("va", Bool)
	f := mk("fr", nm, bv(64, uint64(np)), va)
	pend, _ := st.meta["pending"].([]*Term)
	st.meta["pending"] = append(append([]*Term(nil), pend...), va, f)
	st.setEnvField("e_mf", mk("snoc_FR", st.envField("e_mf"), f))
	return mk("lfn", f)
}

func (st *State) setVariadic(f Val, b *Term) {
	t := st.term(f)
	if t.Op == "lfn" && t.Args[0].Op == "fr" {
		pend, _ := st.meta["pending"].([]*Term)
		for i := 0; i+1 < len(pend); i += 2 {
			va := pend[i]
			if st.F.norm(va) == va && t.Args[0].Args[2] == va {
				st.F.assume(Eq(va, b))
				return
			}
		}
	}
	bail("the signature of a function changes after it was used")
}

// modFuncs settles the functions made here: those not set to be variadic are
// not, and each has the form the calling convention assumes.
func (st *State) modFuncs() {
	pend, _ := st.meta["pending"].([]*Term)
	for i := 0; i+1 < len(pend); i += 2 {
		if va := pend[i]; st.F.norm(va) == va {
			st.F.assume(Not(va))
		}
		f := pend[i+1]
		st.oblige("calling convention", "a function of the module has no parameter, or one and any number more", Or(mk("isintr", mk("fr_n", f)), mk("frok", f)), "abi")
	}
	pg, _ := st.meta["pendingG"].([]*Term)
	for i := 0; i+1 < len(pg); i += 2 {
		if l := pg[i]; st.F.norm(l) == l {
			st.F.assume(Eq(l, bv(64, 0)))
		}
		if l := pg[i+1]; st.F.norm(l) == l {
			st.F.assume(Not(l))
		}
	}
}

func (st *State) ginit(v Val) (init *Term, arr *Term) {
	v = unIface(v)
	if o, ok := v.(Opaque); ok && o.Kind == "carr" {
		c := o.Arg.(carr)
		switch {
		case c.Bytes != nil:
			return mk("gbytes", c.Bytes), True
		case c.Zeros != nil:
			return mk("gzeros", c.Zeros), True
		default:
			return mk("gwords", c.Words), True
		}
	}
	w := st.word(v, "value of a global")
	return mk("gwords", mk("snoc_bv64", mk("nil_bv64"), w)), False
}

func (st *State) newGlobal(args []Val) Val {
	nm := st.F.norm(st.term(args[1]))
	v, arr := st.ginit(args[2])
	link, ro := fresh("link", BV64), fresh("ro", Bool)
	pg, _ := st.meta["pendingG"].([]*Term)
	st.meta["pendingG"] = append(append([]*Term(nil), pg...), link, ro)
	g := mk("gr", nm, arr, v, link, ro)
	st.setEnvField("e_mg", mk("snoc_GR", st.envField("e_mg"), g))
	return mk("lglob", g)
}

func (st *State) globalField(p GhostPtr, v Val) bool {
	t, ok := p.Arg.(*Term)
	if !ok || t.Op != "lglob" || t.Args[0].Op != "gr" {
		return false
	}
	g := t.Args[0]
	switch p.Field {
	case "UnnamedAddr":
		return true
	case "Linkage":
		l := st.term(v)
		w := bv(64, 2)
		if l.Op == "#bv" {
			switch l.Val {
			case st.v.pr.enumConst("LinkagePrivate"):
				w = bv(64, 1)
			case st.v.pr.enumConst("LinkageNone"):
				w = bv(64, 0)
			case st.v.pr.enumConst("LinkageCommon"):
			default:
				return false
			}
		} else {
			return false
		}
		if st.F.norm(g.Args[3]) != g.Args[3] {
			return false
		}
		st.F.assume(Eq(g.Args[3], w))
		return true
	case "Immutable":
		if st.F.norm(g.Args[4]) != g.Args[4] {
			return false
		}
		st.F.assume(Eq(g.Args[4], st.term(v)))
		return true
	case "Init":
		nv, arr := st.ginit(v)
		if arr != g.Args[1] {
			return false
		}
		ng := mk("gr", g.Args[0], g.Args[1], nv, g.Args[3], g.Args[4])
		e := st.G["E"]
		st.G["E"] = st.F.norm(substM(e, map[*Term]*Term{g: ng}))
		st.meta["replaced:"+fmt.Sprint(g.ID)] = mk("lglob", ng)
		st.replaceVals(mk("lglob", g), mk("lglob", ng))
		return true
	}
	return false
}

// replaceVals puts b for a in all registers and variables.
func (st *State) replaceVals(a, b *Term) {
	for _, f := range st.frames {
		for k, v := range f.regs {
			if v == Val(a) {
				f.regs[k] = b
			}
		}
	}
	for k, v := range st.heap {
		if v == Val(a) {
			st.heap[k] = b
		}
	}
}

// ---- names of blocks ----

// sprintf: the text of an integer in a format with one %d is kept as a term.
func (st *State) sprintf(args []Val) Val {
	f, ok := litStr(st.F.norm(st.term(args[0])))
	vs := st.vecOr(args[1])
	if ok {
		if t := st.pieces(f, vs); t != nil {
			return t
		}
	}
	if ok && vs != nil && strings.Count(f, "%") == 1 && len(vs) == 1 {
		v := unIface(vs[0])
		if t, isT := v.(*Term); isT {
			t = st.F.norm(t)
			if strings.Contains(f, "%d") && t.S == BV64 {
				return mk("fmtd", strLit(f), t)
			}
			if f == "%s" && t.S == listSort(BV8) {
				return t
			}
		}
	}
	if ok && vs != nil && strings.Count(f, "%") == 2 && strings.Count(f, "%d") == 2 && len(vs) == 2 {
		a, ok1 := unIface(vs[0]).(*Term)
		b, ok2 := unIface(vs[1]).(*Term)
		if ok1 && ok2 && a.S == BV64 && b.S == BV64 {
			return mk("fmtdd", strLit(f), st.F.norm(a), st.F.norm(b))
		}
	}
	if ok && !strings.Contains(f, "%") && len(vs) == 0 {
		return strLit(f)
	}
	return fresh("str", listSort(BV8))
}

func (st *State) vecOr(v Val) (out []Val) {
	switch v.(type) {
	case VecV, NilV, SliceV:
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsupported); ok {
					out = nil
					return
				}
				panic(r)
			}
		}()
		return st.vec(v)
	}
	return nil
}

// labelRange: a callee that works on the compiler may take label numbers.
func (st *State) labelRange(fn *ssa.Function) {
	if _, ok := st.G["LID"]; !ok {
		return
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if isModelPtr(fn.Signature.Params().At(i).Type()) == "compiler" {
			old := st.G["LID"]
			n := fresh("LID", BV64)
			st.F.assume(And(mk("bvule", old, n), mk("bvult", n, bv(64, 1<<62))))
			st.G["LID"] = n
			if lb := st.G["LB"]; lb != nil {
				st.G["LB"] = fresh("LB", lb.S)
			}
			rs, _ := st.meta["lids"].([][2]*Term)
			st.meta["lids"] = append(append([][2]*Term(nil), rs...), [2]*Term{old, n})
			return
		}
	}
}

// blockNames checks that a block made here has a name no other block of the
// function has: it is numbered, with a number taken here and by no callee.
func (st *State) blockNames() {
	lid0 := st.v.G0["LID"]
	if lid0 == nil {
		return
	}
	now := st.F.norm(st.G["LID"])
	rs, _ := st.meta["lids"].([][2]*Term)
	for i, n := range st.R.names {
		n = st.F.norm(n)
		if s, ok := litStr(n); ok && s == "func.entry" {
			continue
		}
		if n.Op == "fmtd" {
			f, _ := litStr(n.Args[0])
			noteFormat(f)
			for _, p := range labelPrefixes {
				if h, _, _ := strings.Cut(f, "%"); strings.HasPrefix(h, p) || strings.HasPrefix(p, h) {
					st.fail("well-formed code", "a block name differs from that of a label: "+f, "wf")
				}
			}
			k := n.Args[1]
			c := []*Term{mk("bvule", lid0, k), mk("bvult", k, now)}
			for _, r := range rs {
				c = append(c, Or(mk("bvult", k, r[0]), mk("bvule", r[1], k)))
			}
			st.oblige("well-formed code", "the number in a block name is not taken by another part of the function", And(c...), "wf")
		} else if n.Op != "lname" && !st.isLabelName(n) {
			st.fail("well-formed code", "the name of a block is numbered or that of a label: "+n.String(), "wf")
		}
		for j := 0; j < i; j++ {
			m := st.F.norm(st.R.names[j])
			if m.Op == "fmtd" && n.Op == "fmtd" {
				f, _ := litStr(m.Args[0])
				g, _ := litStr(n.Args[0])
				if f == g {
					st.oblige("well-formed code", "block names differ", Not(Eq(n.Args[1], m.Args[1])), "wf")
				} else if confusable(f, g) {
					st.fail("well-formed code", "block names differ: "+f+" and "+g, "wf")
				}
				continue
			}
			if m.Op == "fmtd" != (n.Op == "fmtd") {
				continue // a numbered name and a label, see noteFormat
			}
			st.oblige("well-formed code", "block names differ", Not(Eq(n, m)), "wf")
		}
	}
}

func (st *State) isLabelName(n *Term) bool { return st.F.prove(mk("islabel", n)).OK }

var labelPrefixes = []string{"label.", "case."}

var formats = map[string]bool{}

func noteFormat(f string) {
	freshMu.Lock()
	formats[f] = true
	freshMu.Unlock()
}

// blockNamesReport: the numbered block names of different parts of the compiler. Within one
// function under contract blockNames compares them; the numbers taken by different
// activations differ; what is left are formats that give the same name for different numbers.
func blockNamesReport() *Report {
	r := &Report{Function: "(block names)", Paths: 1}
	var l []string
	for f := range formats {
		l = append(l, f)
	}
	sort.Strings(l)
	for i, f := range l {
		for _, g := range l[:i] {
			r.Obs = append(r.Obs, &Obligation{Fn: r.Function, Kind: "well-formed code", Desc: "block names " + g + " and " + f + " never coincide", OK: !confusable(f, g), Backend: "rewriting", Tags: []string{"wf"}})
		}
	}
	for p := range paramNames {
		for _, f := range l {
			h, _, _ := strings.Cut(f, "%")
			r.Obs = append(r.Obs, &Obligation{Fn: r.Function, Kind: "well-formed code", Desc: "parameter names " + p + "* and block names " + f + " never coincide", OK: !strings.HasPrefix(p, h) && !strings.HasPrefix(h, p), Backend: "rewriting", Tags: []string{"wf"}})
		}
	}
	return r
}

// confusable tells whether two different formats with one %d can give the same text.
func confusable(f, g string) bool {
	p, q := strings.SplitN(f, "%d", 2), strings.SplitN(g, "%d", 2)
	if len(p) != 2 || len(q) != 2 {
		return true
	}
	a, b := p[0], q[0]
	if len(a) > len(b) {
		a, b = b, a
	}
	if !strings.HasPrefix(b, a) {
		return false
	}
	if len(a) == len(b) {
		// the numbers end where the text after them begins
		d := func(s string) bool { return s != "" && s[0] >= '0' && s[0] <= '9' }
		return p[1] == q[1] || d(p[1]) || d(q[1])
	}
	c := b[len(a)]
	return c >= '0' && c <= '9' || c == '-'
}

var _ = types.Typ

package main

// The objects the compiler under verification works on: the lexer's input
// stream, the compiler's tables, and the LLVM builder library.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type typesType = types.Type

const llir = "github.com/llir/llvm/ir"

// VecV is a slice of values that are not terms.
type VecV struct{ E []Val }

// GSlice is a slice of a modelled object.
type GSlice struct {
	Kind string
	Arg  Val
	Len  *Term
}

func isModelPtr(t types.Type) string {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	n := typeName(p.Elem())
	switch n[strings.LastIndexAny(n, "./")+1:] {
	case "Lexer":
		return "lexer"
	case "Compiler":
		return "compiler"
	case "CompileOptions":
		return "options"
	}
	return ""
}

func isLexerPtr(t types.Type) bool { return isModelPtr(t) == "lexer" }

// setupGhosts gives the function the ghost state its parameters call for.
func (st *State) setupGhosts(fn *ssa.Function) {
	for _, p := range fn.Params {
		switch isModelPtr(p.Type()) {
		case "lexer":
			if st.v.concrete {
				st.G["R"] = sym("R", "Stream")
			} else {
				st.G["S"] = sym("S", "Stream")
			}
		case "compiler":
			st.G["E"] = sym("E", "Env")
			st.G["LID"] = sym("LID", BV64)
			st.F.assume(mk("bvult", st.G["LID"], bv(64, 1<<62)))
			st.G["LB"] = sym("LB", arraySort(listSort(BV8), Bool))
			st.R = newRegion(sym("W", "World"))
			o := st.v.c.Opts
			st.R.NoFn = o["toplevel"] || o["function"] || o["newfn"]
			if o["newfn"] {
				st.G["VA"] = sym("VA", BV64)
				st.F.assume(Eq(st.G["VA"], bv(64, ^uint64(0))))
			}
			if o["program"] {
				st.G["P"] = mk("nil_" + sortKey("Top"))
			}
		}
	}
	if st.v.c.Opts["reader"] {
		st.G["R"] = sym("R", "Stream")
	}
	if st.v.c.Opts["driver"] {
		st.setupDriver()
	}
}

func (st *State) ghostEnv(e env) {
	if st.R != nil {
		if b := st.R.B[st.R.Cur]; b != nil {
			e["W"] = b.W
		}
	}
	if st.v.concrete && st.G["R"] != nil {
		if l, ok := st.meta["lexer"].(Ptr); ok {
			buf, _ := unwrapBuf(st, st.load(l).(*StructV).F[st.meta["lexerbuf"].(int)])
			if buf != nil {
				e["S"] = mk("BS", buf, st.G["R"])
				e["BUF"] = buf
			}
		}
	}
}

func unwrapBuf(st *State, v Val) (*Term, bool) {
	s, ok := v.(SliceV)
	if !ok {
		return nil, false
	}
	if s.L == nil || isNilList(s.L) {
		return mk("nil_bv8"), true
	}
	if s.Wrap == "(_ zero_extend 24)" {
		return s.L, true
	}
	if s.L.S == listSort(BV32) {
		// element by element
		l := st.F.norm(s.L)
		if isSnoc(l) {
			r, ok := unwrapBuf(st, SliceV{L: l.Args[0]})
			if !ok {
				return nil, false
			}
			return mk("snoc_bv8", r, st.unwrap(l.Args[1], "(_ zero_extend 24)")), true
		}
	}
	return nil, false
}

// concreteLexer is a Lexer object with a buffer of bytes.
func (st *State) concreteLexer(typ types.Type) Val {
	u := typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	v := &StructV{}
	found := -1
	for i := 0; i < u.NumFields(); i++ {
		t := u.Field(i).Type()
		switch {
		case isModelPtr(t) == "options":
			v.F = append(v.F, Opaque{Kind: "options"})
		case typeName(t) == "io.RuneReader" || typeName(t) == "io.Reader":
			v.F = append(v.F, Opaque{Kind: "reader"})
		case typeName(t) == "[]rune" && found < 0:
			v.F = append(v.F, SliceV{L: sym("BUF", listSort(BV8)), Wrap: "(_ zero_extend 24)", Cap: true})
			found = i
		default:
			v.F = append(v.F, freshVal(u.Field(i).Name(), t))
		}
	}
	if found < 0 {
		bail("the lexer has no buffer of characters handed back")
	}
	p := st.alloc(nil, v)
	st.meta["lexer"] = p
	st.meta["lexerbuf"] = found
	return p
}

func (st *State) ghostNow(g string) *Term {
	if g == "S" && st.v.concrete {
		e := env{}
		st.ghostEnv(e)
		return e["S"]
	}
	t := st.G[g]
	if st.R != nil && st.R.sub != nil && t != nil {
		return substM(t, st.R.sub)
	}
	return t
}

func (st *State) ghostVolatile(g string) bool {
	return g == "N" && st.v.c.Opts["main"] || g == "LID" || g == "LB" || g == "R" && st.v.concrete
}

func (st *State) freshParam(name string, p *ssa.Parameter, i int) Val {
	if name == "_" {
		name = p.Name()
	}
	switch t := p.Type().Underlying().(type) {
	case *types.Pointer:
		if _, ok := sortOf(p.Type()); !ok {
			if s, ok := sortOf(t.Elem()); ok {
				c := st.alloc(t.Elem(), valOf(sym(name, s), t.Elem()))
				st.v.mu.Lock()
				st.v.extra["param:"+strconv.Itoa(i)] = c
				st.v.mu.Unlock()
				return c
			}
			if u, ok := t.Elem().Underlying().(*types.Struct); ok {
				v := &StructV{}
				for i := 0; i < u.NumFields(); i++ {
					ft := u.Field(i).Type()
					if n := typeName(ft); n == "io.Reader" || n == "io.RuneReader" {
						v.F = append(v.F, Opaque{Kind: "reader"})
						continue
					}
					v.F = append(v.F, freshVal(u.Field(i).Name(), ft))
				}
				return st.alloc(t.Elem(), v)
			}
			return UndefV{"parameter " + name}
		}
	case *types.Slice:
		if w := st.v.c.Opts2["wrap:"+name]; w != "" {
			return SliceV{L: sym(name, listSort(wrapSort(w))), Wrap: w, Cap: true}
		}
		if s, ok := sortOf(p.Type()); ok {
			return SliceV{L: sym(name, s), Cap: true}
		}
	}
	if s, ok := sortOf(p.Type()); ok {
		return valOf(sym(name, s), p.Type())
	}
	if n := typeName(p.Type()); n == "io.Reader" {
		return Opaque{Kind: "reader"}
	}
	if v := st.driverParam(name, p); v != nil {
		return v
	}
	return Opaque{Kind: typeName(p.Type())}
}

func wrapSort(w string) string {
	if c, ok := sig.Ctor[w]; ok {
		return c.Sorts[0]
	}
	return BV8
}

func (st *State) allocFor(a *ssa.Alloc, t types.Type) Val {
	return st.alloc(t, zeroVal(t))
}

// ---- fields of modelled objects ----

// fields of the Compiler object: name -> selector of Env and the constructor
// that wraps its elements.
type cfield struct{ sel, wrap string }

var compFields = map[string]cfield{
	"locals":         {"e_locals", "lptr"},
	"globals":        {"e_globals", "lglob"},
	"functions":      {"e_funs", "lfn"},
	"usedAsFunction": {"e_used", ""},
	"functionParams": {"e_fp", ""},
	"stringID":       {"e_sid", ""},
	"defined":        {"e_def", ""},
	"gotos":          {"e_gotos", ""},
}

func (st *State) envField(sel string) *Term { return st.F.norm(mk(sel, st.G["E"])) }

func (st *State) setEnvField(sel string, t *Term) {
	e := st.G["E"]
	c := sig.Ctors["Env"][0]
	fs := make([]*Term, len(c.Sels))
	for i, s := range c.Sels {
		if s == sel {
			fs[i] = t
		} else {
			fs[i] = mk(s, e)
		}
	}
	st.G["E"] = st.F.norm(mk(c.Name, fs...))
}

// MapW is a map of the Compiler whose values are wrapped by a constructor.
type MapW struct {
	Sel, Wrap string
}

func (st *State) ghostLoad(p GhostPtr) Val {
	switch p.Kind {
	case "global":
		return st.globalVar(p.Field)
	case "Lexer":
		switch p.Field {
		case "args":
			return Opaque{Kind: "options"}
		}
	case "CompileOptions":
		switch p.Field {
		case "WordSize":
			return bv(64, 8)
		case "GlobalPrefix":
			return sym("gprefix", listSort(BV8))
		}
		if v := st.driverOption(p.Field); v != nil {
			return v
		}
	case "Compiler":
		switch p.Field {
		case "args":
			return Opaque{Kind: "options"}
		case "builder":
			return st.R.Cur
		case "currentFn":
			if v, ok := st.meta["curfnv"]; ok {
				return v
			}
			return Opaque{Kind: "curfn"}
		case "labelID":
			return st.G["LID"]
		case "module":
			return Opaque{Kind: "module"}
		case "gotos":
			return SliceV{L: st.envField("e_gotos"), Cap: true}
		case "strings":
			return Opaque{Kind: "strings"}
		case "labels":
			return MapW{"LB", ""}
		}
		if f, ok := compFields[p.Field]; ok {
			t := st.envField(f.sel)
			if strings.HasPrefix(t.S, "(Array") {
				return MapW{f.sel, f.wrap}
			}
			return t
		}
	case "Module":
		switch p.Field {
		case "Funcs":
			return SliceV{L: st.envField("e_mf"), Wrap: "lfn", Cap: true}
		case "Globals":
			return SliceV{L: st.envField("e_mg"), Wrap: "lglob", Cap: true}
		}
	case "TermSwitch", "switch":
		if p.Field == "Cases" {
			if t := st.switchOf(p); t != nil {
				return SliceV{L: t.Cs, Cap: true}
			}
		}
	case "Block":
		switch p.Field {
		case "Term":
			blk, ok := p.Arg.(*Term)
			if !ok {
				break
			}
			b := st.R.B[st.F.norm(blk)]
			if b == nil {
				bail("terminator of an unknown block")
			}
			if b.T == nil {
				return NilV{}
			}
			return Opaque{Kind: "terminator"}
		}
	case "Func":
		switch p.Field {
		case "GlobalIdent":
			return Opaque{Kind: "gid", Arg: p.Arg}
		case "Params":
			lv, ok := p.Arg.(*Term)
			if !ok {
				break
			}
			return GSlice{"params", lv, st.F.norm(mk("fr_np", mk("lf", lv)))}
		case "Sig":
			return GhostPtr{Kind: "fnsig", Arg: p.Arg}
		case "Blocks":
			return GSlice{"blocks", p.Arg, bv(64, 1)}
		}
	case "Global":
		switch p.Field {
		case "GlobalIdent":
			return Opaque{Kind: "gid", Arg: p.Arg}
		case "ContentType":
			return Opaque{Kind: "ctype", Arg: p.Arg}
		}
	case "elem":
		r := p.Arg.(elemRef)
		t := st.nth(r.S.L, r.I)
		if r.S.Wrap == "lfn" {
			// functions of the module: see modFuncs
			st.F.assume(Or(mk("isintr", mk("fr_n", t)), mk("frok", t)))
		}
		return st.F.norm(wrapElem(r.S.Wrap, t))
	case "gelem":
		a := p.Arg.([2]Val)
		g := a[0].(GSlice)
		i := a[1].(*Term)
		switch g.Kind {
		case "params":
			if st.isCurFn(g.Arg) {
				return mk("lword", mk("arg", i))
			}
			return Opaque{Kind: "param", Arg: i}
		case "blocks":
			if o, ok := g.Arg.(Opaque); !(ok && o.Kind == "curfn" || st.isCurFn(g.Arg)) || i.Op != "#bv" || i.Val != 0 || st.R.NoFn {
				bail("a block of a function other than the first one of the current function")
			}
			return Opaque{Kind: "entryblock"}
		}
	case "vecelem":
		a := p.Arg.([2]Val)
		i := a[1].(*Term)
		v := a[0].(VecV)
		if i.Op == "#bv" && int(i.Val) < len(v.E) {
			return v.E[i.Val]
		}
	}
	if g, ok := p.Arg.(GhostPtr); ok && g.Kind == "elem" {
		if t, ok := st.ghostLoad(g).(*Term); ok {
			if cs := sig.Ctors[t.S]; len(cs) == 1 && p.Idx < len(cs[0].Sels) {
				return st.F.norm(mk(cs[0].Sels[p.Idx], t))
			}
		}
	}
	if v := st.driverLoad(p); v != nil {
		return v
	}
	bail("load of %s.%s", p.Kind, p.Field)
	return nil
}

func (st *State) ghostStore(p GhostPtr, v Val) {
	switch p.Kind {
	case "Compiler":
		switch p.Field {
		case "builder":
			if isNilVal(v) {
				st.R.Cur = bv(64, 0)
				return
			}
			st.R.Cur = st.F.norm(st.term(v))
			return
		case "labelID":
			old := st.G["LID"]
			n := st.term(v)
			st.oblige("well-formed code", "the label counter only grows", mk("bvule", old, n), "wf")
			st.G["LID"] = n
			return
		case "currentFn":
			if t, ok := v.(*Term); ok {
				v = st.F.norm(t)
			}
			st.meta["curfnv"] = v
			return
		case "strings":
			return
		case "labels":
			if o, ok := v.(Opaque); ok && o.Kind == "emptymap" {
				st.G["LB"] = mk("(as const "+st.G["LB"].S+")", False)
				return
			}
			if m, ok := v.(MapV); ok && strings.HasPrefix(m.M.Op, "(as const") {
				st.G["LB"] = mk("(as const "+st.G["LB"].S+")", False)
				return
			}
			if w, ok := v.(MapW); ok && w.Sel == "LB" {
				return
			}
		}
		if f, ok := compFields[p.Field]; ok {
			s := sigSort(f.sel)
			switch x := v.(type) {
			case MapV:
				// an empty map of the element sort
				if strings.HasPrefix(x.M.Op, "(as const") {
					_, vs := arrayParts(s)
					if vs == Bool {
						st.setEnvField(f.sel, mk("(as const "+s+")", False))
					} else {
						st.setEnvField(f.sel, mk("(as const "+s+")", mk(sig.Ctors[vs][0].Name)))
					}
					return
				}
			case MapW:
				if x.Sel == f.sel {
					return
				}
			}
			if t, ok := termOf(v, s); ok {
				st.setEnvField(f.sel, t)
				return
			}
			if o, ok := v.(Opaque); ok && o.Kind == "emptymap" {
				_, vs := arrayParts(s)
				st.setEnvField(f.sel, mk("(as const "+s+")", mk(sig.Ctors[vs][0].Name)))
				return
			}
		}
	case "TermSwitch", "switch":
		if p.Field == "Cases" {
			if t := st.switchOf(p); t != nil {
				if cs, ok := termOf(v, listSort("Case")); ok {
					t.Cs = cs
					return
				}
			}
		}
	case "Module":
		sel := map[string]string{"Funcs": "e_mf", "Globals": "e_mg"}[p.Field]
		if sel != "" {
			if s, ok := v.(SliceV); ok {
				st.setEnvField(sel, s.L)
				return
			}
		}
	case "elem":
		r := p.Arg.(elemRef)
		if r.I.Op != "#bv" || r.I.Val != 0 || r.S.Wrap != "lword" {
			break
		}
		old := r.S
		nw := SliceV{L: st.F.norm(mk("set0", old.L, st.word(v, "element of a list of words"))), Wrap: old.Wrap, Cap: old.Cap}
		rep := func(x Val) Val {
			if y, ok := x.(SliceV); ok && y.L == old.L && y.Wrap == old.Wrap {
				return nw
			}
			return x
		}
		for _, f := range st.frames {
			for k, x := range f.regs {
				f.regs[k] = rep(x)
			}
		}
		for k, x := range st.heap {
			st.heap[k] = rep(x)
		}
		return
	case "FuncType":
		if p.Field == "Variadic" {
			if o, ok := p.Arg.(Ptr); ok {
				_ = o
			}
			if t, ok := p.Arg.(*TypeV); ok {
				b := st.term(v)
				if b == True {
					st.meta["variadic:"+fmt.Sprintf("%p", t)] = True
					return
				}
			}
			if g, ok := p.Arg.(GhostPtr); ok && g.Kind == "fnsig" {
				st.setVariadic(g.Arg, st.term(v))
				return
			}
		}
	case "Global":
		if st.globalField(p, v) {
			return
		}
	}
	if st.driverStore(p, v) {
		return
	}
	bail("store to %s.%s", p.Kind, p.Field)
}

// switchOf is the switch instruction a pointer to one of its fields belongs to.
func (st *State) switchOf(p GhostPtr) *RTerm {
	v := p.Arg
	if g, ok := v.(GhostPtr); ok {
		v = g.Arg
	}
	if id, ok := v.(*Term); ok {
		if b := st.R.B[id]; b != nil && b.T != nil && b.T.Kind == "switch" {
			return b.T
		}
	}
	return nil
}

func sigSort(sel string) string {
	si := sig.Sel[sel]
	return si.C.Sorts[si.Idx]
}

func (st *State) globalVar(name string) Val {
	switch name {
	case "io.EOF":
		return mk("eeof")
	case llir + "/types.I64":
		return &TypeV{D: "i64"}
	case llir + "/types.I32":
		return &TypeV{D: "i32"}
	case llir + "/types.I8":
		return &TypeV{D: "i8"}
	case llir + "/types.Void":
		return &TypeV{D: "void"}
	}
	if v := st.driverGlobal(name); v != nil {
		return v
	}
	if v := st.constGlobal(name); v != nil {
		return v
	}
	bail("variable %s", name)
	return nil
}

// ---- maps of the compiler ----

func (st *State) specialMap(typ types.Type) Val { return Opaque{Kind: "emptymap"} }

func (st *State) specialLookup(x *ssa.Lookup, m Val, key Val) (Val, []*State, bool, bool) {
	w, ok := m.(MapW)
	if !ok {
		if v, ok := st.driverLookup(x, m, key); ok {
			return v, nil, false, true
		}
		return nil, nil, false, false
	}
	k := st.term(key)
	if w.Sel == "LB" {
		// the block of a label
		return st.labelLookup(x, k, st.F.norm(mk("select", st.G["LB"], k)))
	}
	arr := st.envField(w.Sel)
	s := st.F.norm(mk("select", arr, k))
	f := st.top()
	if s.S == Bool {
		if x.CommaOk {
			return TupleV{[]Val{s, s}}, nil, false, true
		}
		return s, nil, false, true
	}
	ok2 := optKey(s.S)
	isS := st.F.norm(mk("is-some_"+ok2, s))
	elemT := x.X.Type().Underlying().(*types.Map).Elem()
	mkv := func(n *State, present bool) Val {
		var v Val
		if present {
			t := n.F.norm(mk("val_"+ok2, s))
			if w.Sel == "e_funs" {
				n.F.assume(mk("frok", t))
				n.F.assume(Eq(mk("fr_n", t), mk("gname", k)))
			}
			if w.Wrap != "" {
				v = n.canonPtr(mk(w.Wrap, t))
				if w.Wrap == "lglob" { // the object itself
					v = mk("lglob", t)
				}
			} else {
				v = valOf(t, elemT)
			}
		} else {
			v = zeroVal(elemT)
		}
		if x.CommaOk {
			return TupleV{[]Val{v, boolT(present)}}
		}
		return v
	}
	if isS == True || isS == False {
		return mkv(st, isS == True), nil, false, true
	}
	var out []*State
	for _, present := range []bool{true, false} {
		c := isS
		if !present {
			c = Not(isS)
		}
		n := st.feasibleWith(c)
		if n == nil {
			continue
		}
		n.note("%s: in %s: %v", st.pos(), w.Sel, present)
		n.top().regs[x] = mkv(n, present)
		n.top().pc++
		out = append(out, n)
	}
	_ = f
	if out == nil {
		out = []*State{}
	}
	return nil, out, true, true
}

// enterLabel: a block becomes the block of a label.
func (st *State) enterLabel(k, id *Term) {
	lb := st.G["LB"]
	b := st.R.B[id]
	if b == nil || !b.Own || b.Label || b.Name == nil {
		st.fail("label table", "a label is given a block made for it", "wf", "labels")
		panic(pathEnd{})
	}
	st.oblige("label table", "a label gets one block only", Not(mk("select", lb, k)), "wf", "labels")
	st.oblige("label table", "the block of a label has its name", Eq(b.Name, k), "wf", "labels")
	st.oblige("label table", "the name of a label block is that of a label", mk("islabel", k), "wf", "labels")
	b.Label = true
	// the definition of lblk
	st.F.assume(Eq(mk("lblk", k), id))
	st.G["LB"] = mk("store", lb, k, True)
}

func (st *State) labelLookup(x *ssa.Lookup, k, present *Term) (Val, []*State, bool, bool) {
	mkv := func(st *State, p bool) Val {
		var v Val = NilV{}
		if p {
			v = mk("lblk", k)
			st.F.assume(Not(Eq(mk("lblk", k), bv(64, 0))))
		}
		if x.CommaOk {
			return TupleV{[]Val{v, boolT(p)}}
		}
		return v
	}
	if present == True || present == False {
		return mkv(st, present == True), nil, false, true
	}
	out := []*State{}
	for _, p := range []bool{true, false} {
		c := present
		if !p {
			c = Not(present)
		}
		n := st.feasibleWith(c)
		if n == nil {
			continue
		}
		n.note("%s: label known: %v", st.pos(), p)
		n.top().regs[x] = mkv(n, p)
		n.top().pc++
		out = append(out, n)
	}
	return nil, out, true, true
}

func (st *State) specialMapUpdate(x *ssa.MapUpdate, m, key, v Val) bool {
	w, ok := m.(MapW)
	if !ok {
		return st.driverMapUpdate(x, m, key, v)
	}
	k := st.term(key)
	if w.Sel == "LB" {
		st.enterLabel(k, st.F.norm(st.term(v)))
		return true
	}
	arr := st.envField(w.Sel)
	_, vs := arrayParts(arr.S)
	if vs == Bool {
		st.setEnvField(w.Sel, mk("store", arr, k, st.term(v)))
		return true
	}
	ok2 := optKey(vs)
	var t *Term
	if w.Wrap != "" {
		t = st.term(v)
		if w.Wrap == "lptr" {
			t = st.canonPtr(t)
		}
		t = st.unwrap(t, w.Wrap)
		if w.Sel == "e_locals" {
			st.newVariable(k, st.F.norm(t))
		}
		if w.Sel == "e_funs" {
			st.oblige("calling convention", "a function has no parameter, or one and any number more", mk("frok", t), "abi")
			st.oblige("function table", "a function is entered by its name", Eq(mk("fr_n", t), mk("gname", k)), "wf")
		}
	} else {
		var good bool
		t, good = termOf(v, sig.Ctor["some_"+ok2].Sorts[0])
		if !good {
			bail("map value %s", show(v))
		}
	}
	st.setEnvField(w.Sel, mk("store", arr, k, mk("some_"+ok2, t)))
	return true
}

// specialNext: ranging over a map yields any of its entries.
func (st *State) specialNext(x *ssa.Next) ([]*State, bool) {
	it, ok := st.get(x.Iter).(Opaque)
	if !ok || it.Kind != "iter" {
		bail("iteration over %s", show(st.get(x.Iter)))
	}
	if w, ok := it.Arg.(MapW); ok && w.Sel == "e_funs" {
		// some entry not visited yet, or the end; an entry looked for exists
		// (see findAny)
		return st.findAny(x, w)
	}
	bail("iteration over %s", show(it.Arg))
	return nil, false
}

// findAny: `for k, v := range m { if v == x {...; break} }`. The entry found
// is any one whose value is x. The loop is taken as one step: one entry (k, v)
// is visited; all others are assumed to fall through without effect, which is
// checked by visiting an arbitrary entry first.
func (st *State) findAny(x *ssa.Next, w MapW) ([]*State, bool) {
	f := st.top()
	id := "iter:" + x.Name()
	if it, ok := st.meta[id].(*iterState); ok {
		// An arbitrary entry fell through. So did all others, the one of the
		// function looked for among them; then the map ends.
		if it.heap != st.heapShape(it.objs) || it.shape != st.regionShape() {
			bail("an iteration over the functions changes the state")
		}
		if fv, ok := st.meta["wantfn"].(*Term); ok {
			key := st.meta["wantkey"].(*Term)
			has := Eq(mk("select", st.envField("e_funs"), key), mk("some_FR", mk("lf", fv)))
			m := map[*Term]*Term{it.k: key, it.fr: mk("lf", fv)}
			for _, c := range append([]*Term(nil), st.F.facts[it.nf:]...) {
				st.F.assume(Imp(has, substM(c, m)))
			}
			if !st.F.feasible() {
				return []*State{}, true
			}
		}
		delete(st.meta, id)
		f.regs[x] = TupleV{[]Val{False, strLit(""), NilV{}}}
		f.pc++
		return nil, false
	}
	var out []*State
	// an empty map
	a := st.clone()
	if fv, ok := a.meta["wantfn"].(*Term); ok {
		key := a.meta["wantkey"].(*Term)
		sel := a.F.norm(mk("select", a.envField("e_funs"), key))
		a.F.assume(Not(Eq(sel, mk("some_FR", mk("lf", fv)))))
	}
	a.top().regs[x] = TupleV{[]Val{False, strLit(""), NilV{}}}
	a.top().pc++
	if a.F.feasible() {
		out = append(out, a)
	}
	b := st.clone()
	k := fresh("key", listSort(BV8))
	fr := fresh("fn", "FR")
	b.F.assume(Eq(mk("select", b.envField("e_funs"), k), mk("some_FR", fr)))
	b.F.assume(mk("frok", fr))
	b.F.assume(Eq(mk("fr_n", fr), mk("gname", k)))
	b.F.assume(Eq(mk("bname", mk("fr_n", fr)), k))
	var objs []int
	for o := range b.heap {
		objs = append(objs, o)
	}
	sort.Ints(objs)
	b.meta[id] = &iterState{nf: len(b.F.facts), k: k, fr: fr, objs: objs, heap: b.heapShape(objs), shape: b.regionShape()}
	b.top().regs[x] = TupleV{[]Val{True, k, mk("lfn", fr)}}
	b.top().pc++
	b.note("%s: entry of a map", st.pos())
	if b.F.feasible() {
		out = append(out, b)
	}
	if out == nil {
		out = []*State{}
	}
	return out, true
}

type iterState struct {
	nf          int
	k, fr       *Term
	objs        []int
	heap, shape string
}

// heapShape identifies the values of objects and the ghost state.
func (st *State) heapShape(objs []int) string {
	s := ""
	for _, o := range objs {
		s += show(st.heap[o]) + ";"
	}
	for _, g := range sortedKeys(st.G) {
		s += fmt.Sprintf("%d,", st.G[g].ID)
	}
	return s
}

// ---- type assertions and interface calls ----

func (st *State) typeAssert(x *ssa.TypeAssert) ([]*State, bool) {
	v := st.get(x.X)
	f := st.top()
	want := typeName(x.AssertedType)
	set := func(s *State, v Val, ok bool) {
		if x.CommaOk {
			if !ok {
				v = NilV{}
			}
			s.top().regs[x] = TupleV{[]Val{v, boolT(ok)}}
		} else {
			if !ok {
				s.fail("no panic", "type assertion", "panic")
				panic(pathEnd{})
			}
			s.top().regs[x] = v
		}
		s.top().pc++
	}
	var c *Term
	var val Val = v
	switch t := v.(type) {
	case *Term:
		if t.S == "LV" {
			switch want {
			case "*" + llir + ".Func":
				c = mk("is-lfn", t)
			case "*" + llir + ".Global":
				c = mk("is-lglob", t)
			}
		}
	case Opaque:
		if t.Kind == "ctype" && want == "*"+llir+"/types.ArrayType" {
			c = mk("gr_arr", mk("lg", t.Arg.(*Term)))
			val = t
		}
	case IfaceV:
		if typeName(t.T) == want {
			set(st, t.V, true)
			return nil, false
		}
	case NilV:
		set(st, NilV{}, false)
		return nil, false
	}
	if c == nil {
		bail("type assertion of %s to %s", show(v), want)
	}
	_ = f
	c = st.F.norm(c)
	if c == True || c == False {
		set(st, val, c == True)
		return nil, false
	}
	out := []*State{}
	for _, p := range []bool{true, false} {
		cc := c
		if !p {
			cc = Not(c)
		}
		n := st.feasibleWith(cc)
		if n == nil {
			continue
		}
		n.note("%s: is %s: %v", st.pos(), want, p)
		if n.protect(func() bool { set(n, val, p); return false }) {
			continue
		}
		out = append(out, n)
	}
	return out, true
}

func (st *State) invoke(com *ssa.CallCommon, fnv Val, args []Val, finish func(*State, Val)) ([]*State, bool) {
	m := com.Method.Name()
	if o, ok := fnv.(Opaque); ok && o.Kind == "reader" && m == "ReadRune" {
		// the adapter around the source, see ReadRune
		c, ok := contracts["ReadRune"]
		fn := st.v.pr.fns["ReadRune"]
		if !ok || fn == nil {
			bail("ReadRune has no contract")
		}
		return st.applyContract(c, fn, append([]Val{fnv}, args...), finish)
	}
	if t, ok := fnv.(*Term); ok {
		switch {
		case t.S == "LV" && m == "Type":
			st.word(t, "operand")
			finish(st, &TypeV{D: "i64"})
			return nil, false
		case t.S == "Err" && m == "Error":
			finish(st, fresh("errtext", listSort(BV8)))
			return nil, false
		}
	}
	if i, ok := fnv.(IfaceV); ok {
		// dynamic type known: call the method
		if f := st.v.pr.prog.LookupMethod(i.T, com.Method.Pkg(), m); f != nil {
			com2 := *com
			com2.Method = nil
			com2.Value = f
			com2.Args = nil
			return st.doCallResolved(f, append([]Val{i.V}, args...), finish, com)
		}
	}
	if forks, done, ok := st.driverInvoke(com, fnv, args, finish); ok {
		return forks, done
	}
	bail("call of method %s of %s", m, show(fnv))
	return nil, false
}

func (st *State) doCallResolved(f *ssa.Function, args []Val, finish func(*State, Val), com *ssa.CallCommon) ([]*State, bool) {
	if f.Pkg == st.v.pr.pkg {
		if c, ok := contracts[cname(f)]; ok {
			return st.applyContract(c, f, args, finish)
		}
	}
	return st.extern(f.String(), f, com, args, finish)
}

// ---- LLVM values ----

// canonPtr views a global that is one word as a pointer to its word.
func (st *State) canonPtr(t *Term) *Term {
	t = st.F.norm(t)
	if t.Op == "lglob" && st.F.norm(mk("gr_arr", t.Args[0])) == False {
		return st.F.norm(mk("lptr", mk("gaddr", mk("gr_n", t.Args[0]))))
	}
	return t
}

func (st *State) lv(v Val) *Term {
	if isNilVal(v) {
		return mk("lnil")
	}
	t := st.term(v)
	if t.S != "LV" {
		bail("value %s", t)
	}
	return st.canonPtr(t)
}

// want requires a value to be of a kind and returns its content.
func (st *State) want(v Val, ctor, what string, tags ...string) *Term {
	t := st.lv(v)
	c := sig.Ctor[ctor]
	if t.Op == ctor {
		return t.Args[0]
	}
	if t.Op == "lnil" {
		tags = append(tags, "panic")
	}
	ok := st.oblige("well-formed code", what+" is used with its type ("+ctor+")", mk("is-"+ctor, t), append(tags, "wf")...)
	if ok {
		st.F.assume(mk("is-"+ctor, t))
	}
	return st.F.norm(mk(c.Sels[0], t))
}

func (st *State) word(v Val, what string, tags ...string) *Term {
	return st.want(v, "lword", what, tags...)
}
func (st *State) ptr(v Val, what string, tags ...string) *Term {
	return st.want(v, "lptr", what, tags...)
}

func (st *State) typ(v Val) *TypeV {
	switch x := v.(type) {
	case *TypeV:
		return x
	case IfaceV:
		return st.typ(x.V)
	case Opaque:
		if x.Kind == "ctype" {
			return &TypeV{D: "ctype"}
		}
	}
	bail("type %s", show(v))
	return nil
}

func (st *State) wordType(v Val, what string) {
	if t := st.typ(v); t.D != "i64" {
		st.fail("well-formed code", what+" has type "+t.D, "wf")
		panic(pathEnd{})
	}
}

// vec returns the elements of a slice argument.
func (st *State) vec(v Val) []Val {
	switch x := v.(type) {
	case VecV:
		return x.E
	case NilV:
		return nil
	case SliceV:
		if x.L == nil {
			if x.Wrap == "opaque" {
				bail("opaque arguments")
			}
			return nil
		}
		l := st.F.norm(x.L)
		var out []Val
		for isSnoc(l) {
			out = append([]Val{Val(wrapElem(x.Wrap, l.Args[1]))}, out...)
			l = l.Args[0]
		}
		if !isNilList(l) {
			bail("arguments of unknown number")
		}
		return out
	}
	bail("arguments %s", show(v))
	return nil
}

func (st *State) wconst(v Val, what string) uint64 {
	t := st.lv(v)
	if (t.Op == "li32" || t.Op == "lword") && t.Args[0].Op == "#bv" {
		return t.Args[0].Val
	}
	bail("%s %s", what, t)
	return 0
}

func (pr *Prog) enumConst(name string) uint64 {
	for _, p := range pr.prog.AllPackages() {
		if p.Pkg.Path() == llir+"/enum" {
			if o, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
				n, _ := constant.Uint64Val(o.Val())
				return n
			}
		}
	}
	bail("constant enum.%s", name)
	return 0
}

func b2w(t *Term) *Term { return Ite(t, bv(64, 1), bv(64, 0)) }

// blockMethod models (*ir.Block).X.
func (st *State) blockMethod(m string, args []Val, com *ssa.CallCommon) Val {
	if isNilVal(args[0]) {
		st.fail("no panic", "code is put in a nil block", "panic")
		panic(pathEnd{})
	}
	if o, ok := args[0].(Opaque); ok && o.Kind == "entryblock" {
		// the first block of the function
		switch m {
		case "NewAlloca":
			return st.allocaInst(args[1])
		}
		bail("%s in the first block of the function", m)
	}
	b := st.at(st.term(args[0]))
	bin := map[string]string{"NewAdd": "bvadd", "NewSub": "bvsub", "NewMul": "bvmul", "NewSDiv": "bvsdiv", "NewSRem": "bvsrem", "NewUDiv": "bvudiv", "NewURem": "bvurem",
		"NewAnd": "bvand", "NewOr": "bvor", "NewXor": "bvxor", "NewShl": "bvshl", "NewAShr": "bvashr", "NewLShr": "bvlshr"}
	if op, ok := bin[m]; ok {
		x, y := st.word(args[1], "operand of "+m), st.word(args[2], "operand of "+m)
		return mk("lword", st.F.norm(mk(op, x, y)))
	}
	switch m {
	case "NewLoad":
		st.wordType(args[1], "a loaded value")
		return mk("lword", mk("ld", b.W, st.ptr(args[2], "address of a load")))
	case "NewStore":
		v := args[1]
		if o, ok := v.(Opaque); ok && o.Kind == "param" {
			v = mk("lword", mk("arg", o.Arg.(*Term)))
		}
		b.W = mk("wst", b.W, st.ptr(args[2], "address of a store", "panic"), st.word(v, "value stored", "panic"))
		return Opaque{Kind: "inst"}
	case "NewICmp":
		p := st.term(args[1])
		if p.Op != "#bv" {
			bail("predicate")
		}
		var x, y *Term
		x, y = st.word(args[2], "operand of icmp", "panic"), st.word(args[3], "operand of icmp", "panic")
		var c *Term
		for n, op := range map[string]string{"IPredSLT": "bvslt", "IPredSLE": "bvsle", "IPredSGT": "bvsgt", "IPredSGE": "bvsge", "IPredULT": "bvult", "IPredULE": "bvule", "IPredUGT": "bvugt", "IPredUGE": "bvuge"} {
			if st.v.pr.enumConst(n) == p.Val {
				switch op {
				case "bvsgt":
					c = mk("bvslt", y, x)
				case "bvsge":
					c = mk("bvsle", y, x)
				case "bvugt":
					c = mk("bvult", y, x)
				case "bvuge":
					c = mk("bvule", y, x)
				default:
					c = mk(op, x, y)
				}
			}
		}
		if st.v.pr.enumConst("IPredEQ") == p.Val {
			c = Eq(x, y)
		}
		if st.v.pr.enumConst("IPredNE") == p.Val {
			c = Not(Eq(x, y))
		}
		return mk("lbool", c)
	case "NewZExt":
		st.wordType(args[2], "result of zext")
		return mk("lword", b2w(st.want(args[1], "lbool", "operand of zext")))
	case "NewSExt":
		st.wordType(args[2], "result of sext")
		return mk("lword", Ite(st.want(args[1], "lbool", "operand of sext"), bv(64, ^uint64(0)), bv(64, 0)))
	case "NewIntToPtr":
		a := st.word(args[1], "operand of inttoptr")
		t := st.typ(args[2])
		if t.D != "ptr" {
			st.fail("well-formed code", "inttoptr to "+t.D, "wf")
			panic(pathEnd{})
		}
		switch t.Elt.D {
		case "i64":
			return mk("lptr", a)
		case "func":
			return mk("lfnptr", a, bv(64, uint64(t.Elt.Fix)), st.isVariadic(t.Elt))
		}
		bail("inttoptr to pointer to %s", t.Elt.D)
	case "NewPtrToInt":
		st.wordType(args[2], "result of ptrtoint")
		t := st.lv(args[1])
		switch t.Op {
		case "lptr":
			return mk("lword", t.Args[0])
		case "lfn":
			return mk("lword", mk("faddr", mk("fr_n", t.Args[0])))
		case "lptr8":
			return mk("lword", t.Args[0])
		}
		for _, k := range []string{"lptr", "lfn", "lptr8"} {
			if st.F.prove(mk("is-"+k, t)).OK {
				st.F.assume(mk("is-"+k, t))
				return st.blockMethod(m, args, com)
			}
		}
		st.fail("well-formed code", "operand of ptrtoint is a pointer: "+t.String(), "wf")
		panic(pathEnd{})
	case "NewBitCast":
		t := st.lv(args[1])
		ty := st.typ(args[2])
		if ty.D == "ptr" && ty.Elt.D == "func" {
			f := st.want(t, "lfn", "operand of bitcast")
			return mk("lfnptr", mk("faddr", mk("fr_n", f)), bv(64, uint64(ty.Elt.Fix)), st.isVariadic(ty.Elt))
		}
		bail("bitcast")
	case "NewGetElementPtr":
		return st.gep(args[1], args[2], st.gepIdx(args[3]))
	case "NewPhi":
		vals := st.vec(args[1])
		ph := RPhi{Sym: fresh("phi", BV64)}
		for _, v := range vals {
			in := v.(Opaque).Arg.(Incoming)
			ph.In = append(ph.In, Incoming{V: st.word(in.V, "value of a phi"), B: in.B})
		}
		if b.W != b.Entry {
			st.fail("well-formed code", "a phi instruction is not at the start of its block", "wf")
		}
		b.Phis = append(b.Phis, ph)
		return mk("lword", ph.Sym)
	case "NewBr":
		to := st.target(args[1])
		b.T = &RTerm{Kind: "br", To: []*Term{to}, Pos: st.pos()}
		return Opaque{Kind: "terminator"}
	case "NewCondBr":
		c := st.want(args[1], "lbool", "condition of a branch")
		b.T = &RTerm{Kind: "cond", Cond: c, To: []*Term{st.target(args[2]), st.target(args[3])}, Pos: st.pos()}
		return Opaque{Kind: "terminator"}
	case "NewRet":
		v := st.word(args[1], "returned value")
		b.T = &RTerm{Kind: "ret", Val: v, Pos: st.pos()}
		return Opaque{Kind: "terminator"}
	case "NewCall":
		return st.callInst(b, args[1], args[2])
	case "NewAlloca":
		if !b.First {
			st.fail("stack", "storage is reserved once, in the first block of the function", "wf", "stack")
			panic(pathEnd{})
		}
		return st.allocaInst(args[1])
	case "NewVAArg":
		return st.vaArg(b, args)
	case "NewSwitch":
		v := st.word(args[1], "switch value")
		b.T = &RTerm{Kind: "switch", Val: v, To: []*Term{st.target(args[2])}, Pos: st.pos()}
		cs, ok := termOf(args[3], listSort("Case"))
		if !ok {
			bail("cases given to NewSwitch: %s", show(args[3]))
		}
		b.T.Cs = cs
		return GhostPtr{Kind: "switch", Arg: b.Id}
	}
	bail("(*ir.Block).%s is not modelled", m)
	return nil
}

func (st *State) G0(n string) *Term {
	if t, ok := st.G[n]; ok {
		return t
	}
	bail("no ghost %s", n)
	return nil
}

func (st *State) isVariadic(t *TypeV) *Term {
	if v, ok := st.meta["variadic:"+fmt.Sprintf("%p", t)]; ok {
		return v.(*Term)
	}
	return False
}

func (st *State) target(v Val) *Term {
	if isNilVal(v) {
		st.fail("well-formed code", "branch to a nil block", "wf")
		panic(pathEnd{})
	}
	t := st.F.norm(st.term(v))
	if t.Op != "lblk" && st.R.B[t] == nil {
		bail("branch to an unknown block %s", t)
	}
	return t
}

func (st *State) gepIdx(v Val) []Val { return st.vec(v) }

// gep models getelementptr.
func (st *State) gep(ty, base Val, idx []Val) Val {
	t := st.lv(base)
	if o, ok := ty.(IfaceV); ok {
		ty = o.V
	}
	d := st.typ(ty)
	if d.D == "i64" && len(idx) == 1 {
		a := st.ptr(t, "base of an address computation", "panic")
		i := st.word(idx[0], "index", "panic")
		return mk("lptr", st.F.norm(mk("bvadd", a, mk("bvmul", bv(64, 8), i))))
	}
	if len(idx) == 2 && st.wconst(idx[0], "index") == 0 {
		k := st.wconst(idx[1], "index")
		switch {
		case t.Op == "lglob":
			// array of words: the type must be that of the global
			g := t.Args[0]
			if v := st.F.norm(mk("gr_v", g)); v.Op == "gbytes" && k == 0 {
				return mk("lptr8", mk("gaddr", mk("gr_n", g)))
			}
			if d.D != "ctype" {
				st.gepType(d, g)
			}
			st.oblige("well-formed code", "the global is an array", mk("gr_arr", g), "wf")
			return mk("lptr", st.F.norm(mk("bvadd", mk("gaddr", mk("gr_n", g)), bv(64, 8*k))))
		case t.Op == "larr":
			// local array of words
			if d.D != "arr" || d.Elt.D != "i64" {
				st.fail("well-formed code", "the type of an address computation is that of the array", "wf")
				panic(pathEnd{})
			}
			st.oblige("well-formed code", "the type of an address computation is that of the array", Eq(d.N, t.Args[1]), "wf")
			st.oblige("well-formed code", "element of an array", mk("bvult", bv(64, k), t.Args[1]), "wf")
			return mk("lptr", st.F.norm(mk("bvadd", t.Args[0], bv(64, 8*k))))
		case t.Op == "larr8" && k == 0:
			return mk("lptr8", t.Args[0])
		}
	}
	bail("getelementptr of %s", t)
	return nil
}

func (st *State) gepType(d *TypeV, g *Term) {}

func (st *State) callInst(b *RBlk, callee, argsV Val) Val {
	args, ok := argsV.(SliceV)
	if isNilVal(argsV) {
		args, ok = SliceV{}, true
	}
	if !ok {
		bail("arguments %s", show(argsV))
	}
	if lv, isT := callee.(*Term); isT {
		if s, isl := litStr(st.F.norm(mk("fr_n", mk("lf", lv)))); isl && strings.HasPrefix(s, "llvm.") {
			return st.intrinsic(b, s, st.vec(argsV))
		}
	}
	var words *Term
	switch {
	case args.L == nil || isNilList(st.F.norm(args.L)):
		words = mk("nil_bv64")
	case args.Wrap == "lword":
		words = args.L
	default:
		words = mk("nil_bv64")
		for _, a := range st.vec(args) {
			words = mk("snoc_bv64", words, st.word(a, "argument of a call"))
		}
	}
	n := st.listLen(words)
	t := st.lv(callee)
	var addr, fixed, variadic *Term
	switch {
	case t.Op == "lfnptr":
		addr, fixed, variadic = t.Args[0], t.Args[1], t.Args[2]
	default:
		f := st.want(t, "lfn", "callee", "panic")
		addr = mk("faddr", mk("fr_n", f))
		fixed = mk("fr_np", f)
		variadic = mk("fr_va", f)
	}
	st.oblige("well-formed code", "the number of arguments fits the type of the callee", Or(Eq(n, fixed), And(variadic, mk("bvsle", fixed, n))), "wf", "abi")
	st.oblige("calling convention", "the first of several arguments is passed as a fixed one", Or(Eq(n, bv(64, 0)), mk("bvsle", bv(64, 1), fixed)), "abi")
	v := mk("callv", b.W, addr, words)
	b.W = mk("callw", b.W, addr, words)
	return mk("lword", v)
}

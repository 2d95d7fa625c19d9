package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}
var loopMu sync.Mutex

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	loopMu.Lock()
	defer loopMu.Unlock()
	if m, ok := loopCache[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := m[s]
				if li == nil {
					li = &loopInfo{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = li
				}
				// natural loop of the back edge b -> s
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if li.body[x] {
						continue
					}
					li.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	loopCache[fn] = m
	return m
}

func loopAt(b *ssa.BasicBlock) *loopInfo { return loopsOf(b.Parent())[b] }

// atLoop is called when control reaches a loop head.
func (st *State) atLoop(li *loopInfo) (done bool) {
	f := st.top()
	back := f.prev != nil && li.body[f.prev]
	ls := f.loops[li.head]
	if !back || ls == nil {
		ls = &loopState{}
		f.loops[li.head] = ls
	}
	ls.count++
	if back && ls.inv != nil && !st.specIs(ls.inv.Pat.head()) {
		// the specification does not go on with this loop: no induction, the
		// next iteration is followed
		ls.inv = nil
		ls.count = 296
		return false
	}
	if back && ls.inv != nil {
		if ls.flag != nil {
			now, ok := st.load(ls.flag).(*Term)
			if !ok {
				bail("the condition of a loop")
			}
			same := Eq(st.F.norm(now), ls.flagVal)
			if st.F.prove(Not(same)).OK {
				return false // the loop ends here
			}
			if !st.F.prove(same).OK {
				x := st.feasibleWith(Not(same))
				if x != nil {
					if y := st.feasibleWith(same); y != nil {
						y.protect(func() bool { return y.atLoop(li) })
					}
					st.F.assume(Not(same))
					return false
				}
			}
		}
		// the invariant must hold again
		st.modFuncs()
		m := st.matchInv(ls.inv, li, true)
		if m == nil {
			return true
		}
		for _, g := range sortedKeys(ls.ghosts) {
			st.oblige("loop invariant", g+" is unchanged by an iteration", Eq(st.ghostNow(g), ls.ghosts[g]), "state:"+g)
		}
		if sh, ok := st.meta["code:"+ls.inv.Name+ls.inv.Pat.String()].(string); ok && !inv3(ls.inv) && sh != st.regionShape() {
			st.fail("loop invariant", "an iteration generates no code", "effects")
		}
		st.checkMeasure(ls, m.binds)
		return true
	}
	// a loop whose first iteration is known to end or continue needs no invariant
	if st.spec != nil {
		for _, inv := range forLoop(loopInvs[st.v.name], li) {
			key := "cutat:" + inv.Name + inv.Pat.head()
			if h := st.meta[key]; st.driving() && h != nil && h != li.head {
				continue // that of another loop
			}
			m := st.matchInv(inv, li, false)
			if m == nil {
				continue
			}
			st.meta[key] = li.head
			ls.inv, ls.li = inv, li
			st.loopEnter(ls, m.binds)
			st.cut(inv, li, m, ls)
			if inv.Join {
				return st.join(inv, li)
			}
			return false
		}
	}
	if ls.count > 300 {
		st.fail("loop invariant", "a loop without an invariant is not bounded")
		return true
	}
	return false
}

func (st *State) specIs(head string) bool {
	f := st.F
	f.deep = true
	f.memo = map[*Term]*Term{}
	n := f.norm(st.spec)
	f.deep = false
	f.memo = map[*Term]*Term{}
	return n.Op == head
}

type invMatch struct {
	binds env
	cells []cellMatch
}

type cellMatch struct {
	p    Val
	typ  types.Type
	t    *Sexp
	name string
}

// candidateCells lists the local variables of the active frames.
func (st *State) candidateCells() []cellMatch {
	var out []cellMatch
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		var here []cellMatch
		for k, v := range f.regs {
			if a, ok := k.(*ssa.Alloc); ok {
				if p, ok := v.(Ptr); ok {
					here = append(here, cellMatch{p: p, typ: a.Type().Underlying().(*types.Pointer).Elem(), name: a.Comment})
				}
			}
		}
		sort.Slice(here, func(i, j int) bool { return here[i].p.(Ptr).Obj > here[j].p.(Ptr).Obj })
		out = append(out, here...)
	}
	return out
}

// matchInv matches the pattern of an invariant with the current state. With
// must, failures are reported as obligations.
func (st *State) matchInv(inv *LoopInv, li *loopInfo, must bool) *invMatch {
	f := st.F
	if !must && st.spec.Op == inv.Pat.head() {
		// the specification as it stands, before anything is unfolded
		if m := st.matchSpec(inv, li, must, st.spec); m != nil {
			return m
		}
	}
	f.deep = true
	f.memo = map[*Term]*Term{}
	n := f.norm(st.spec)
	f.deep = false
	f.memo = map[*Term]*Term{}
	if must {
		return st.matchSpec(inv, li, must, n)
	}
	if n.Op == inv.Pat.head() {
		if m := st.matchSpec(inv, li, must, n); m != nil {
			return m
		}
	}
	// the specification when it comes to the loop
	f.deep, f.stop = true, inv.Pat.head()
	f.memo = map[*Term]*Term{}
	n2 := f.norm(st.spec)
	f.deep, f.stop = false, ""
	f.memo = map[*Term]*Term{}
	if n2 == n {
		return nil
	}
	return st.matchSpec(inv, li, must, n2)
}

func (st *State) matchSpec(inv *LoopInv, li *loopInfo, must bool, n *Term) *invMatch {
	f := st.F
	h := inv.Pat.head()
	if n.Op != h {
		if must {
			st.oblige("loop invariant", "after an iteration the specification continues with "+h+"; normal form "+clip(n.String(), 300), hc("undetermined", Bool, 0), tagsOfHead(h)...)
		}
		return nil
	}
	m := &invMatch{binds: st.specEnv()}
	var goals []*Term
	var descs []string
	var match func(p *Sexp, t *Term) bool
	match = func(p *Sexp, t *Term) bool {
		if !p.List && strings.HasPrefix(p.A, "?") {
			if b, ok := m.binds[p.A]; ok {
				goals = append(goals, Eq(b, t))
				descs = append(descs, p.A)
				return true
			}
			m.binds[p.A] = t
			return true
		}
		if !p.List {
			if _, isG := st.G[p.A]; isG {
				goals = append(goals, Eq(st.ghostNow(p.A), t))
				descs = append(descs, "state "+p.A)
				return true
			}
			goals = append(goals, Eq(elab(p, m.binds, t.S), t))
			descs = append(descs, p.A)
			return true
		}
		if c, ok := sig.Ctor[p.head()]; ok {
			if t.Op != c.Name {
				if st.hasVars(p) {
					return false
				}
			} else {
				for i := range t.Args {
					if !match(p.L[1+i], t.Args[i]) {
						return false
					}
				}
				return true
			}
		}
		goals = append(goals, Eq(elab(p, m.binds, t.S), t))
		descs = append(descs, p.String())
		return true
	}
	for i, a := range n.Args {
		if !match(inv.Pat.L[1+i], a) {
			if must {
				st.fail("loop invariant", "shape of "+inv.Pat.L[1+i].String()+" in "+clip(a.String(), 200))
			}
			return nil
		}
	}
	check := func(desc string, g *Term, tag string) bool {
		if must && desc == "argument state T of "+h {
			st.checkActsEq("loop invariant", g, false)
			return true
		}
		if must {
			st.oblige("loop invariant", desc, g, tag)
			return true
		}
		ok := f.prove(g).OK
		if !ok {
			dbg("no invariant %s: %s: %s\n", inv.Pat, desc, f.norm(g))
		}
		return ok
	}
	for i, g := range goals {
		if !check("argument "+descs[i]+" of "+h, g, "parse") {
			return nil
		}
	}
	if !must {
		// establishing the invariant is itself an obligation
		st.oblige("loop invariant", "holds on entry: "+inv.Pat.String(), Eq(st.spec, n), "parse")
	} else {
		st.oblige("loop invariant", "the specification continues with "+h, Eq(st.spec, n), "parse")
	}
	// cells
	used := map[Ptr]bool{}
	cands := st.candidateCells()
	mod := st.modified(li)
	ls := st.top().loops[li.head]
	var prev []cellMatch
	if must && ls != nil {
		if mm, ok := st.meta["loop:"+inv.Name+inv.Pat.String()].(*invMatch); ok {
			prev = mm.cells
		}
	}
	if must {
		if mm, ok := st.meta["loop:"+inv.Name+inv.Pat.String()].(*invMatch); ok {
			for _, k := range inv.Keep {
				st.oblige("loop invariant", k+" is unchanged by an iteration", Eq(mm.binds[k], m.binds[k]), "parse")
			}
		}
	}
	for _, c := range inv.Cells {
		switch c.head() {
		case "param":
			want := m.binds[c.L[2].A]
			now := mk("nil_" + want.S[2:])
			if cell := st.paramCell(c.L[1].A); cell != nil {
				t, ok := termOf(st.load(cell), want.S)
				if !ok {
					return nil
				}
				now = t
			}
			if !check("*"+c.L[1].A+" is "+c.L[2].A, Eq(now, want), "value") {
				return nil
			}
		case "world":
			if st.R == nil {
				return nil
			}
			if !st.R.atCut(st, must) {
				return nil
			}
			t := elab(c.L[1], m.binds, "World")
			st.takeAxioms(t)
			if !check("effects so far are those of "+c.L[1].String(), Eq(st.R.exitW, t), "effects") {
				return nil
			}
		case "code":
			if st.R == nil || st.R.havocked {
				return nil
			}
			if must {
				st.R.closed(st)
			}
			if !st.flowIs(f.norm(elab(c.L[1], m.binds, "Stmt")), must) {
				return nil
			}
		case "swcases":
			t := st.openSwitch()
			if t == nil {
				if must {
					st.fail("loop invariant", "the switch instruction is there", "effects")
				}
				return nil
			}
			want := elab(c.L[1], m.binds, listSort("Case"))
			st.takeAxioms(want)
			if !check("cases so far are "+c.L[1].String(), Eq(t.Cs, want), "effects") {
				return nil
			}
			if must && st.regionShape() != st.meta["shape:"+inv.Pat.String()] {
				st.fail("loop invariant", "an iteration generates no other code", "effects")
			}
		}
	}
	ci := 0
	for _, c := range inv.Cells {
		switch c.head() {
		case "cell":
			name := c.L[1].A
			try := func(cm cellMatch) (*Term, *Term, bool) {
				v := st.load(cm.p)
				s, ok := sortOf(cm.typ)
				if !ok {
					return nil, nil, false
				}
				if w, in := wrapCell(c.L[2]); w != "" {
					want := elab(in, m.binds, listSort(sig.Ctor[w].Sorts[0]))
					st.takeAxioms(want)
					sv, ok := v.(SliceV)
					if !ok {
						return nil, nil, false
					}
					now, ok := st.unwrapAll(sv, w)
					if !ok || now.S != want.S {
						return nil, nil, false
					}
					return st.valueNow(now), want, true
				}
				now, ok := termOf(v, s)
				if !ok {
					return nil, nil, false
				}
				want := elab(c.L[2], m.binds, s)
				if want.S != s {
					return nil, nil, false
				}
				st.takeAxioms(want)
				return st.valueNow(now), want, true
			}
			var order []cellMatch
			if prev != nil {
				order = []cellMatch{prev[ci]}
			} else {
				// variables of the name given first, then those the loop changes
				var rest [4][]cellMatch
				for _, cm := range cands {
					if used[cm.p.(Ptr)] {
						continue
					}
					k := 3
					switch mine := mod[cm.p.(Ptr).Obj]; {
					case cm.name == name && mine:
						k = 0
					case mine:
						k = 1
					case cm.name == name:
						k = 2
					}
					rest[k] = append(rest[k], cm)
				}
				order = append(append(append(rest[0], rest[1]...), rest[2]...), rest[3]...)
			}
			found := false
			for _, cm := range order {
				now, want, ok := try(cm)
				if !ok {
					continue
				}
				if must {
					if desc := "variable " + name + " is " + c.L[2].String(); !st.oblige("loop invariant", desc, Eq(now, want), cellTag(c.L[2])) && now.S == "LV" {
						st.sameType("loop invariant", desc, now, want)
					}
				} else if !f.prove(Eq(now, want)).OK {
					dbg("variable %s: %s is not %s\n", cm.name, now, want)
					continue
				}
				cm.t = c.L[2]
				used[cm.p.(Ptr)] = true
				m.cells = append(m.cells, cm)
				found = true
				break
			}
			if !found {
				if must {
					st.fail("loop invariant", "no variable holds "+c.L[2].String())
				}
				return nil
			}
			ci++
		}
	}
	st.flagCells(inv, li, m, prev, must, mod, used)
	for _, s := range inv.Side {
		se := env{}
		for k, v := range m.binds {
			se[k] = v
		}
		for g := range st.G { // as in cut, the ghost state in a side condition is that of now
			se[g] = st.G[g]
		}
		sc := elab(s, se, Bool)
		st.lenAxioms(sc)
		if !check("side condition "+s.String(), sc, "value") {
			return nil
		}
	}
	return m
}

// wrapCell: a variable holds a list of values all made by one constructor.
func wrapCell(x *Sexp) (string, *Sexp) {
	switch x.head() {
	case "words":
		return "lword", x.L[1]
	case "wrap":
		return x.L[1].A, x.L[2]
	}
	return "", nil
}

// takeAxioms adds what is known of the initial parts of lists in a term.
func (st *State) takeAxioms(t *Term) {
	if strings.HasPrefix(t.Op, "take_") {
		k := t.Op[5:]
		s, i := t.Args[0], t.Args[1]
		n := mk("len_"+k, s)
		st.lenAxioms(n)
		st.F.assume(hc("=", Bool, 0, hc(t.Op, t.S, 0, s, bv(64, 0)), mk("nil_"+k)))
		st.F.assume(Imp(Eq(i, n), hc("=", Bool, 0, t, s)))
		st.F.assume(Imp(And(mk("bvsle", bv(64, 0), i), mk("bvsle", i, n)), Eq(mk("len_"+k, t), i)))
		for _, j := range []*Term{i, mk("bvsub", i, bv(64, 1))} {
			c := And(mk("bvsle", bv(64, 0), j), mk("bvslt", j, n))
			st.F.assume(Imp(c, hc("=", Bool, 0, mk("take_"+k, s, mk("bvadd", j, bv(64, 1))), mk("snoc_"+k, hc("take_"+k, t.S, 0, s, j), mk("nth_"+k, s, j)))))
		}
	}
	for _, a := range t.Args {
		st.takeAxioms(a)
	}
}

func (st *State) hasVars(p *Sexp) bool {
	if !p.List {
		return strings.HasPrefix(p.A, "?")
	}
	for _, x := range p.L {
		if st.hasVars(x) {
			return true
		}
	}
	return false
}

// specEnv binds the names a specification may use: parameters and entry state.
func (st *State) specEnv() env {
	e := env{}
	for k, v := range st.v.env {
		e[k] = v
	}
	return e
}

// cut replaces the state by an arbitrary one that satisfies the invariant.
func (st *State) cut(inv *LoopInv, li *loopInfo, m *invMatch, ls *loopState) {
	st.v.mu.Lock()
	st.v.loopsCut++
	st.v.mu.Unlock()
	f := st.top()
	st.note("%s: loop %s", st.pos(), inv.Pat.head())
	// fresh pattern variables
	nb := st.specEnv()
	ghosts := map[string]bool{}
	for _, k := range inv.Keep {
		nb[k] = m.binds[k]
	}
	var walk func(p *Sexp)
	walk = func(p *Sexp) {
		if !p.List {
			if strings.HasPrefix(p.A, "?") {
				if _, ok := nb[p.A]; !ok {
					nb[p.A] = fresh(p.A[1:], m.binds[p.A].S)
					if inv.Join {
						nb[p.A] = sym("join."+p.A[1:], m.binds[p.A].S)
					}
				}
			} else if _, ok := st.G[p.A]; ok {
				ghosts[p.A] = true
			}
			return
		}
		for i, x := range p.L {
			if i > 0 {
				walk(x)
			}
		}
	}
	walk(inv.Pat)
	for _, s := range inv.Cells {
		if s.head() == "ghost" { // ghost state changed by the loop but not part of the pattern
			ghosts[s.L[1].A] = true
		}
	}
	for g := range ghosts {
		st.G[g] = fresh(g, st.G[g].S)
		if inv.Join {
			st.G[g] = sym("join."+g, st.G[g].S)
		}
		nb[g] = st.G[g]
	}
	if lid := st.G["LID"]; lid != nil {
		// numbers taken by earlier iterations
		n := fresh("LID", BV64)
		st.F.assume(And(mk("bvule", lid, n), mk("bvult", n, bv(64, 1<<62))))
		st.G["LID"] = n
		rs, _ := st.meta["lids"].([][2]*Term)
		st.meta["lids"] = append(append([][2]*Term(nil), rs...), [2]*Term{lid, n})
		st.G["LB"] = fresh("LB", st.G["LB"].S)
		nb["LB"] = st.G["LB"]
	}
	ls.flag = nil
	if a := flagOf(li); a != nil && !inv.Join {
		if p, ok := st.top().regs[a].(Ptr); ok && !m.has(p) {
			if t, ok := st.load(p).(*Term); ok {
				if t = st.F.norm(t); t == True || t == False {
					ls.flag, ls.flagVal = p, t
				}
			}
		}
	}
	for obj := range st.modified(li) {
		if t, ok := st.heapT[obj]; ok {
			st.heap[obj] = freshVal("loop", t)
		}
	}
	if ls.flag != nil {
		st.store(ls.flag, ls.flagVal)
	}
	fn := sig.Funs[inv.Pat.head()]
	var as []*Term
	for i, p := range inv.Pat.L[1:] {
		as = append(as, elab(p, nb, fn.Sorts[i]))
	}
	st.spec = hc(fn.Name, fn.Ret, 0, as...)
	ls.inv = inv
	ls.ghosts = map[string]*Term{}
	for g, t := range st.G {
		if !ghosts[g] && !st.ghostVolatile(g) {
			ls.ghosts[g] = t
		}
	}
	for _, c := range inv.Cells {
		if c.head() == "param" {
			t := nb[c.L[2].A]
			if cell := st.paramCell(c.L[1].A); cell != nil {
				st.store(cell, SliceV{L: t})
			} else {
				st.F.assume(Eq(t, mk("nil_"+t.S[2:])))
			}
		}
		if c.head() == "world" {
			st.substAll()
			w := elab(c.L[1], nb, "World")
			st.takeAxioms(w)
			st.R.restart(st, w)
		}
		if c.head() == "code" {
			st.codeCut(elab(c.L[1], nb, "Stmt"))
		}
		if c.head() == "swcases" {
			t := elab(c.L[1], nb, listSort("Case"))
			st.takeAxioms(t)
			st.openSwitch().Cs = t
			st.meta["shape:"+inv.Pat.String()] = st.regionShape()
		}
	}
	for _, cm := range m.cells {
		var v Val
		if w, in := wrapCell(cm.t); w != "" {
			l := elab(in, nb, listSort(sig.Ctor[w].Sorts[0]))
			st.takeAxioms(l)
			v = SliceV{L: l, Wrap: w}
		} else {
			s, _ := sortOf(cm.typ)
			t := elab(cm.t, nb, s)
			st.takeAxioms(t)
			v = valOf(t, cm.typ)
		}
		st.store(cm.p, v)
	}
	for _, s := range inv.Side {
		st.F.assume(elab(s, nb, Bool))
	}
	st.meta["loop:"+inv.Name+inv.Pat.String()] = m
	if st.R != nil {
		st.meta["code:"+inv.Name+inv.Pat.String()] = st.regionShape()
	}
	st.setMeasure(inv, ls, nb)
	_ = f
}

// paramCell is the variable a pointer parameter points to, nil if it is nil.
func (st *State) paramCell(name string) Val {
	if st.meta["nilparam"] != nil {
		return nil
	}
	for i, p := range st.v.c.Params {
		if p == name {
			if v, ok := st.v.extra["param:"+strconv.Itoa(i)]; ok {
				return v
			}
		}
	}
	bail("no parameter %s", name)
	return nil
}

// modified lists the objects a loop may store to.
func (st *State) modified(li *loopInfo) map[int]bool {
	out := map[int]bool{}
	f := st.top()
	root := func(v ssa.Value) {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
				continue
			case *ssa.IndexAddr:
				v = x.X
				if ld, ok := v.(*ssa.UnOp); ok { // an element of a slice held by a variable
					if p, ok := f.regs[ld.X].(Ptr); ok {
						out[p.Obj] = true
					}
				}
				continue
			}
			break
		}
		if p, ok := f.regs[v].(Ptr); ok {
			out[p.Obj] = true
		}
		if fv, ok := v.(*ssa.FreeVar); ok {
			for i, w := range f.fn.FreeVars {
				if w == fv {
					if p, ok := f.binds[i].(Ptr); ok {
						out[p.Obj] = true
					}
				}
			}
		}
	}
	for b := range li.body {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				root(x.Addr)
				// a local reallocated in the loop
			case *ssa.MapUpdate:
				if ld, ok := x.Map.(*ssa.UnOp); ok {
					root(ld.X)
				}
			case *ssa.Call:
				for _, a := range x.Call.Args {
					if t, ok := a.Type().Underlying().(*types.Pointer); ok {
						if n, ok := types.Unalias(t.Elem()).(*types.Named); ok && x.Call.StaticCallee() != nil && !storesType(x.Call.StaticCallee(), n.Obj().Name()) && n.Obj().Name() == "CompileOptions" {
							continue
						}
						root(a)
						// a pointer loaded from a variable
						if ld, ok := a.(*ssa.UnOp); ok {
							if p, ok := f.regs[ld.X].(Ptr); ok {
								if q, ok := st.heap[p.Obj].(Ptr); ok {
									out[q.Obj] = true
								}
							}
						}
					}
				}
				// closures may change what they capture
				var fv Val
				if v, ok := f.regs[x.Call.Value]; ok {
					fv = v
				} else if ld, ok := x.Call.Value.(*ssa.UnOp); ok {
					if p, ok := f.regs[ld.X].(Ptr); ok {
						fv = st.heap[p.Obj]
					}
				}
				if c, ok := fv.(FuncV); ok {
					for k, b := range c.Binds {
						if p, ok := b.(Ptr); ok && st.closureWrites(c, k) {
							out[p.Obj] = true
						}
					}
				}
			}
		}
	}
	// objects that are not variables of this activation keep their value
	for o := range out {
		if _, ok := st.heap[o]; !ok {
			delete(out, o)
		}
	}
	return out
}

// inv3: the invariant says what code has been generated.
func inv3(inv *LoopInv) bool {
	for _, c := range inv.Cells {
		switch c.head() {
		case "world", "code", "swcases":
			return true
		}
	}
	return false
}

// join makes the paths that come to a loop go on as one: what is known of the
// path so far is forgotten, and a path whose state is that of an earlier one ends.
func (st *State) join(inv *LoopInv, li *loopInfo) bool {
	delete(st.meta, "printed")
	delete(st.meta, "made")
	var b strings.Builder
	fmt.Fprintf(&b, "%p ", li.head)
	for i := 1; i <= st.next; i++ {
		if v, ok := st.heap[i]; ok {
			fmt.Fprintf(&b, "%d:%s ", i, show(v))
		}
	}
	for _, g := range sortedKeys(st.G) {
		fmt.Fprintf(&b, "%s:%s ", g, st.G[g])
	}
	for i, f := range st.frames {
		fmt.Fprintf(&b, "frame %s ", f.fn)
		for _, x := range f.binds {
			b.WriteString(show(x) + " ")
		}
		var rs []string
		for r, v := range f.regs {
			if ins, ok := r.(ssa.Instruction); ok {
				at := li.head
				if i < len(st.frames)-1 {
					at = f.blk
				}
				if ins.Block() == at || !ins.Block().Dominates(at) {
					continue
				}
			}
			rs = append(rs, r.Name()+"="+show(v))
		}
		sort.Strings(rs)
		b.WriteString(strings.Join(rs, " "))
	}
	var ms []string
	for k, v := range st.meta {
		if strings.HasPrefix(k, "loop:") {
			continue // what the invariant was matched with
		}
		ms = append(ms, k+"="+show(v))
	}
	sort.Strings(ms)
	b.WriteString(strings.Join(ms, " "))
	key := b.String()
	st.v.mu.Lock()
	seen := st.v.joins[key]
	if st.v.joins == nil {
		st.v.joins = map[string]bool{}
	}
	st.v.joins[key] = true
	st.v.mu.Unlock()
	if seen {
		return true
	}
	st.F = newFacts(st.F.sv)
	for _, r := range st.v.c.Req {
		st.F.assume(elab(r, st.v.env, Bool))
	}
	nb := st.specEnv()
	for g, t := range st.G {
		nb[g] = t
	}
	for i, p := range inv.Pat.L[1:] {
		if !p.List && strings.HasPrefix(p.A, "?") {
			nb[p.A] = st.spec.Args[i]
		}
	}
	for _, s := range inv.Side {
		st.F.assume(elab(s, nb, Bool))
	}
	return false
}

// indexForm tells how the invariant counts: "range" when its index is the
// hidden variable of a range clause, one less than that of the specification,
// "index" for a variable of its own; the cell is returned with it.
func (inv *LoopInv) indexForm() (string, int) {
	for k, c := range inv.Cells {
		if c.head() != "cell" {
			continue
		}
		if c.L[1].A == "rangeindex" {
			return "range", k
		}
		if c.L[1].A == "i" && strings.HasPrefix(c.L[2].A, "?") {
			return "index", k
		}
	}
	return "", 0
}

// bothForms adds, to every invariant that counts, the one for the other form
// of the loop.
func bothForms() {
	for fn, invs := range loopInvs {
		have := map[string]bool{}
		for _, inv := range invs {
			form, k := inv.indexForm()
			if form != "" {
				have[form+inv.keyText(k)] = true
			}
		}
		out := invs
		for _, inv := range invs {
			form, k := inv.indexForm()
			other := map[string]string{"range": "index", "index": "range"}[form]
			if other == "" || have[other+inv.keyText(k)] {
				continue
			}
			c := *inv
			c.Cells = append([]*Sexp(nil), inv.Cells...)
			var v *Sexp
			if form == "index" {
				v = inv.Cells[k].L[2]
				c.Cells[k] = mustSexp("(cell rangeindex (- " + v.String() + " 1))")
			} else {
				v = inv.Cells[k].L[2].L[1]
				c.Cells[k] = mustSexp("(cell i " + v.String() + ")")
			}
			out = append(out, &c)
		}
		loopInvs[fn] = out
	}
}

// keyText is what the invariant says apart from its index.
func (inv *LoopInv) keyText(k int) string {
	s := inv.Pat.String()
	for i, c := range inv.Cells {
		if i != k {
			s += c.String()
		}
	}
	return s
}

// forLoop orders the invariants: those of the form the loop has come first.
func forLoop(invs []*LoopInv, li *loopInfo) []*LoopInv {
	form := "index"
	for _, in := range li.head.Instrs {
		if u, ok := in.(*ssa.UnOp); ok {
			if a, ok := u.X.(*ssa.Alloc); ok && (a.Comment == "rangeindex" || a.Comment == "rangeint.iter") {
				form = "range"
			}
		}
	}
	var first, rest []*LoopInv
	for _, inv := range invs {
		if g, _ := inv.indexForm(); g == "" || g == form {
			first = append(first, inv)
		} else {
			rest = append(rest, inv)
		}
	}
	return append(first, rest...)
}

func mustSexp(s string) *Sexp {
	xs, err := parseSexps(s)
	if err != nil || len(xs) != 1 {
		panic("mustSexp " + s)
	}
	return xs[0]
}

// flagOf gives the variable that alone decides, at its head, whether a loop
// goes on. Iterations begin with the value it has at the first; with the
// other the loop ends.
func flagOf(li *loopInfo) *ssa.Alloc {
	in, ok := li.head.Instrs[len(li.head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	c := in.Cond
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok {
			return nil
		}
		if u.Op == token.NOT {
			c = u.X
			continue
		}
		a, ok := u.X.(*ssa.Alloc)
		if !ok || u.Op != token.MUL || u.Block() != li.head {
			return nil
		}
		return a
	}
}

func (m *invMatch) has(p Ptr) bool {
	for _, cm := range m.cells {
		if cm.p == Val(p) {
			return true
		}
	}
	return false
}

// flagCells: a variable that is true before the first iteration and changed by
// the loop may tell whether this is the first.
func (st *State) flagCells(inv *LoopInv, li *loopInfo, m *invMatch, prev []cellMatch, must bool, mod map[int]bool, used map[Ptr]bool) {
	if inv.Flag == nil || inv.Join {
		return
	}
	if must {
		for _, cm := range prev {
			if cm.t == inv.Flag {
				now, _ := termOf(st.load(cm.p), Bool)
				st.oblige("loop invariant", "variable "+cm.name+" is "+inv.Flag.String(), Eq(st.valueNow(now), elab(inv.Flag, m.binds, Bool)), "parse")
			}
		}
		return
	}
	skip := flagOf(li)
	for _, cm := range st.candidateCells() {
		p := cm.p.(Ptr)
		if s, ok := sortOf(cm.typ); !ok || s != Bool || used[p] || !mod[p.Obj] {
			continue
		}
		if skip != nil && st.top().regs[skip] == Val(p) {
			continue
		}
		now, ok := termOf(st.load(p), Bool)
		if !ok || st.F.norm(now) != True || !st.F.prove(elab(inv.Flag, m.binds, Bool)).OK {
			continue
		}
		cm.t = inv.Flag
		m.cells = append(m.cells, cm)
	}
}

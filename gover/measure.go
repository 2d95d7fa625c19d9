package main

// Termination: what is left of the text (slen) never grows, each iteration of a loop makes a
// measure smaller, and each recursive call is made with less text left or goes down a
// hierarchy of functions.

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// withTerm: termination is to be proved.
var withTerm bool

func slen(s *Term) *Term { return mk("slen", s) }

// termHyp records a fact about lengths; only proofs of termination use it.
func (st *State) termHyp(t *Term) {
	if !withTerm {
		return
	}
	l, _ := st.meta["term"].([]*Term)
	st.meta["term"] = append(append([]*Term(nil), l...), t)
}

// proveLen proves a goal about lengths.
func (st *State) proveLen(goal *Term) (bool, []*Term) {
	if !withTerm {
		return true, nil
	}
	hyps, _ := st.meta["term"].([]*Term)
	q := append([]*Term(nil), hyps...)
	seen := map[*Term]bool{}
	max := bv(64, 1<<62)
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			walk(a)
		}
		if t.Op != "slen" && !strings.HasPrefix(t.Op, "len_") {
			return
		}
		x := t.Args[0]
		ax := []*Term{mk("bvult", t, max)}
		if t.Op != "slen" {
			ax = append(ax, Or(mk("is-nil_"+t.Op[4:], x), mk("bvult", bv(64, 0), t)))
		}
		if n := st.F.norm(x); n != x {
			// an instance of the definition of the length
			ax = append(ax, Imp(Eq(x, n), Eq(t, mk(t.Op, n))))
		}
		for _, a := range ax {
			q = append(q, a)
			walk(a)
		}
	}
	for _, h := range hyps {
		walk(h)
	}
	walk(goal)
	facts := append(append([]*Term(nil), st.F.facts...), st.F.instances()...)
	if g := toInt(goal); g != nil {
		// no length is more than 2^62, so sums of two do not wrap
		zero := hc("0", "Int", 0)
		var qi []*Term
		for _, h := range append(append([]*Term(nil), q...), facts...) {
			if h = toInt(h); h != nil {
				qi = append(qi, h)
			}
		}
		for t := range seen {
			if isLen(t) {
				qi = append(qi, hc("<=", Bool, 0, zero, toInt(t)))
			}
		}
		qi = append(qi, Not(g))
		if st.F.sv.check(qi) == "unsat" {
			return true, qi
		}
	}
	q = append(append(q, facts...), Not(goal))
	return st.F.sv.check(q) == "unsat", q
}

func isLen(t *Term) bool { return t.Op == "slen" || strings.HasPrefix(t.Op, "len_") }

// toInt puts integers for lengths; nil if there is anything else about them.
func toInt(t *Term) *Term {
	if t.S == BV64 {
		switch {
		case t.Op == "#bv" && t.Val < 1<<62:
			return hc(fmt.Sprint(t.Val), "Int", 0)
		case isLen(t):
			return hc("int_"+t.Op, "Int", 0, t.Args[0])
		case t.Op == "bvadd" && len(t.Args) == 2:
			a, b := toInt(t.Args[0]), toInt(t.Args[1])
			if a == nil || b == nil {
				return nil
			}
			return hc("+", "Int", 0, a, b)
		}
		return nil
	}
	if t.S != Bool {
		return nil
	}
	switch t.Op {
	case "not", "and", "or", "=>":
		var as []*Term
		for _, x := range t.Args {
			a := toInt(x)
			if a == nil {
				return nil
			}
			as = append(as, a)
		}
		return hc(t.Op, Bool, 0, as...)
	case "bvult", "bvule", "=":
		if t.Args[0].S == BV64 && (hasLen(t.Args[0]) || hasLen(t.Args[1])) {
			a, b := toInt(t.Args[0]), toInt(t.Args[1])
			if a == nil || b == nil {
				return nil
			}
			return hc(map[string]string{"bvult": "<", "bvule": "<=", "=": "="}[t.Op], Bool, 0, a, b)
		}
	}
	if hasLen(t) {
		return nil
	}
	return t
}

var lenMemo sync.Map

func hasLen(t *Term) bool {
	if isLen(t) {
		return true
	}
	if len(t.Args) == 0 {
		return false
	}
	if b, ok := lenMemo.Load(t); ok {
		return b.(bool)
	}
	b := false
	for _, a := range t.Args {
		if hasLen(a) {
			b = true
			break
		}
	}
	lenMemo.Store(t, b)
	return b
}

func (st *State) obligeLen(kind, desc string, goal *Term) bool {
	if !withTerm {
		return true
	}
	ok, q := st.proveLen(goal)
	o := &Obligation{Fn: st.v.name, Kind: kind, Desc: desc, Pos: st.pos(), OK: ok, Backend: "z3", Tags: []string{"termination"}}
	if !ok {
		o.Trace = append([]string(nil), st.trace...)
		o.Script = script(q)
		o.Norm = goal.String()
	}
	st.v.add(o)
	return ok
}

// structural: the contract says what the text is afterwards by its construction.
func (c *Contract) structural() bool { return c.Opts["concrete"] || c.Opts["reader"] }

// termAfter: what is known of lengths after a call.
func (st *State) termAfter(c *Contract, cas *Case, e env) {
	for _, d := range cas.Do {
		switch d.head() {
		case "set":
			if d.L[1].A == "S" && !c.structural() {
				st.termHyp(mk("bvule", slen(elab(d.L[2], e, "Stream")), slen(e["S"])))
			}
		case "term":
			st.termHyp(elab(d.L[1], e, Bool))
		}
	}
}

// termReturn proves what termAfter gives to callers.
func (st *State) termReturn(c *Contract, cas *Case, e env) {
	for _, d := range cas.Do {
		switch d.head() {
		case "set":
			if d.L[1].A == "S" && !c.structural() {
				st.obligeLen("termination", "no more text is left than before", mk("bvule", slen(elab(d.L[2], e, "Stream")), slen(e["S"])))
			}
		case "term":
			st.obligeLen("termination", "lengths: "+d.L[1].String(), elab(d.L[1], e, Bool))
		}
	}
}

// loopLens are the facts about lengths that hold whenever a loop is entered.
func (st *State) loopLens(ls *loopState, b env) (gs []*Term, ds []string) {
	inv := ls.inv
	e := env{}
	for k, v := range b {
		e[k] = v
	}
	for g := range st.G {
		e[g] = st.ghostNow(g)
	}
	if s, s0 := st.G["S"], st.v.G0["S"]; s != nil && s0 != nil {
		gs = append(gs, mk("bvule", slen(e["S"]), slen(s0)))
		ds = append(ds, "no more text is left than at the start")
		e["S0"] = s0
		if ls.outer != nil {
			op := "bvule"
			if ls.strict {
				op = "bvult"
			}
			gs = append(gs, mk(op, slen(e["S"]), slen(ls.outer)))
			ds = append(ds, "no more text is left than when the loop was entered")
		}
	}
	for _, x := range inv.Term {
		gs = append(gs, elab(x, e, Bool))
		ds = append(ds, "lengths: "+x.String())
	}
	return
}

func (st *State) loopEnter(ls *loopState, b env) {
	if s := st.G["S"]; s != nil && ls.outer == nil {
		ls.outer = st.v.G0["S"]
		for _, f := range st.frames {
			for _, o := range f.loops {
				if o != ls && o.inv != nil && o.head != nil && o.li.body[f.blk] {
					if ok, _ := st.proveLen(mk("bvule", slen(o.head), slen(ls.outer))); ok {
						ls.outer = o.head
					}
				}
			}
		}
		ls.strict, _ = st.proveLen(mk("bvult", slen(st.ghostNow("S")), slen(ls.outer)))
	}
	gs, ds := st.loopLens(ls, b)
	for i := range gs {
		st.obligeLen("termination", ds[i], gs[i])
	}
}

// measure of a loop; by default what is left of the text.
func (st *State) measure(inv *LoopInv, b env) *Term {
	e := env{}
	for k, v := range b {
		e[k] = v
	}
	for g := range st.G {
		e[g] = st.ghostNow(g)
	}
	if inv.Measure != nil {
		return elab(inv.Measure, e, BV64)
	}
	if st.G["S"] != nil {
		return slen(e["S"])
	}
	return nil
}

// setMeasure assumes what loopEnter has proved, and takes the measure.
func (st *State) setMeasure(inv *LoopInv, ls *loopState, b env) {
	gs, _ := st.loopLens(ls, b)
	for _, g := range gs {
		st.termHyp(g)
	}
	if st.G["S"] != nil {
		ls.head = st.ghostNow("S")
	}
	ls.measure = st.measure(inv, b)
}

// checkMeasure: the iteration has made the measure smaller.
func (st *State) checkMeasure(ls *loopState, b env) {
	st.loopEnter(ls, b)
	if !withTerm {
		return
	}
	now := st.measure(ls.inv, b)
	if now == nil || ls.measure == nil {
		st.fail("termination", "the loop "+ls.inv.Pat.String()+" has a measure", "termination")
		return
	}
	st.obligeLen("termination", "an iteration of the loop "+ls.inv.Pat.head()+" makes its measure smaller", mk("bvult", now, ls.measure))
}

// ---- recursion ----

var (
	sccOnce sync.Once
	sccOf   map[*ssa.Function]int
	flatMu  sync.Mutex
	flat    = map[[2]string]string{} // calls made with as much text as at the start
)

func components(p *Prog) {
	sccOf = map[*ssa.Function]int{}
	succ := func(f *ssa.Function) (out []*ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g.Pkg == p.pkg {
						out = append(out, g)
					}
				}
			}
		}
		return append(out, f.AnonFuncs...)
	}
	idx, low, on := map[*ssa.Function]int{}, map[*ssa.Function]int{}, map[*ssa.Function]bool{}
	var stack []*ssa.Function
	n, comp := 0, 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		idx[f], low[f], on[f] = n, n, true
		stack = append(stack, f)
		for _, g := range succ(f) {
			if idx[g] == 0 {
				visit(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && idx[g] < low[f] {
				low[f] = idx[g]
			}
		}
		if low[f] == idx[f] {
			comp++
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				sccOf[g] = comp
				if g == f {
					break
				}
			}
		}
	}
	var fs []string
	for k := range p.fns {
		fs = append(fs, k)
	}
	sort.Strings(fs)
	for _, k := range fs {
		if idx[p.fns[k]] == 0 {
			visit(p.fns[k])
		}
	}
}

// recursion is checked where a function calls one that may call it again.
func (st *State) recursion(c *Contract, fn *ssa.Function) {
	if !withTerm {
		return
	}
	sccOnce.Do(func() { components(st.v.pr) })
	if fn == nil || sccOf[fn] == 0 || sccOf[fn] != sccOf[st.v.fn] {
		return
	}
	s, s0 := st.G["S"], st.v.G0["S"]
	if s == nil || s0 == nil {
		st.fail("termination", "a recursive function has a measure", "termination")
		return
	}
	if ok, _ := st.proveLen(mk("bvult", slen(st.ghostNow("S")), slen(s0))); ok {
		st.obligeLen("termination", "the recursive call of "+c.Fn+" has less text left", mk("bvult", slen(st.ghostNow("S")), slen(s0)))
		return
	}
	if st.obligeLen("termination", "the recursive call of "+c.Fn+" has no more text left", mk("bvule", slen(st.ghostNow("S")), slen(s0))) {
		flatMu.Lock()
		flat[[2]string{st.v.name, c.Fn}] = st.pos()
		flatMu.Unlock()
	}
}

// recursionReport: the calls that are made before anything is read form no cycle.
func recursionReport() *Report {
	r := &Report{Function: "(recursion)", Paths: 1}
	succ := map[string][]string{}
	for e := range flat {
		succ[e[0]] = append(succ[e[0]], e[1])
	}
	var reach func(from, to string, seen map[string]bool) bool
	reach = func(from, to string, seen map[string]bool) bool {
		if from == to {
			return true
		}
		if seen[from] {
			return false
		}
		seen[from] = true
		for _, g := range succ[from] {
			if reach(g, to, seen) {
				return true
			}
		}
		return false
	}
	var es [][2]string
	for e := range flat {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool { return fmt.Sprint(es[i]) < fmt.Sprint(es[j]) })
	for _, e := range es {
		r.Obs = append(r.Obs, &Obligation{Fn: r.Function, Kind: "termination", Desc: e[0] + " calls " + e[1] + " before anything is read, which does not lead back to " + e[0], Pos: flat[e],
			OK: !reach(e[1], e[0], map[string]bool{}), Backend: "rewriting", Tags: []string{"termination"}})
	}
	return r
}

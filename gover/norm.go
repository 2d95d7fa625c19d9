package main

// Path conditions, and rewriting of terms under them.

import (
	"fmt"
	"os"
	"strings"
)

var debug = os.Getenv("GOVER_DEBUG") != ""

func dbg(f string, a ...interface{}) {
	if debug {
		fmt.Fprintf(os.Stderr, f, a...)
	}
}

type Facts struct {
	facts []*Term // as assumed
	rw    map[*Term]*Term
	keys  []*Term // keys of rw in order of insertion
	memo  map[*Term]*Term
	insts map[*Term]bool // unfolded applications
	lens  map[*Term]bool // lengths whose axioms have been added
	dead  bool
	deep  bool // use the solver to decide conditions of specification functions
	sv    *solver
	dec   map[*Term]int
	fuel  int
	stop  string // a function that is not unfolded
	block *Term  // condition that stopped an unfolding
}

func newFacts(sv *solver) *Facts {
	return &Facts{rw: map[*Term]*Term{}, memo: map[*Term]*Term{}, insts: map[*Term]bool{}, lens: map[*Term]bool{}, sv: sv, dec: map[*Term]int{}}
}

func (f *Facts) clone() *Facts {
	n := newFacts(f.sv)
	n.facts = append([]*Term(nil), f.facts...)
	n.keys = append([]*Term(nil), f.keys...)
	for k, v := range f.rw {
		n.rw[k] = v
	}
	for k, v := range f.memo {
		n.memo[k] = v
	}
	for k := range f.insts {
		n.insts[k] = true
	}
	for k := range f.lens {
		n.lens[k] = true
	}
	n.dead = f.dead
	n.deep = f.deep
	for k, v := range f.dec {
		if v != 0 {
			n.dec[k] = v
		}
	}
	return n
}

func (f *Facts) norm(t *Term) *Term {
	if r, ok := f.memo[t]; ok {
		return r
	}
	r := f.norm1(t, nil)
	f.memo[t] = r
	return r
}

// substEnv is a substitution of normal terms for formal parameters.
type substEnv struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
}

// norm1 normalises t under the substitution m (of formal parameters).
func (f *Facts) norm1(t *Term, m *substEnv) *Term {
	if len(t.Args) == 0 {
		if m != nil {
			if r, ok := m.m[t]; ok {
				return r // already normal
			}
		}
		return f.top(t)
	}
	if m == nil {
		if r, ok := f.memo[t]; ok {
			return r
		}
		return f.norm2(t, m)
	}
	if r, ok := m.memo[t]; ok {
		return r
	}
	r := f.norm2(t, m)
	m.memo[t] = r
	return r
}

func (f *Facts) norm2(t *Term, m *substEnv) *Term {
	sub := func(x *Term) *Term {
		if m == nil {
			return f.norm(x)
		}
		return f.norm1(x, m)
	}
	if t.Op == "ite" {
		c := sub(t.Args[0])
		if d := f.decide(c); d != nil {
			c = d
		}
		if c == True {
			return sub(t.Args[1])
		}
		if c == False {
			return sub(t.Args[2])
		}
		return f.top(Ite(c, sub(t.Args[1]), sub(t.Args[2])))
	}
	if t.Op == "and" || t.Op == "or" {
		var as []*Term
		for _, a := range t.Args {
			x := sub(a)
			if t.Op == "and" && x == False || t.Op == "or" && x == True {
				return x
			}
			as = append(as, x)
		}
		return f.top(mk(t.Op, as...))
	}
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = sub(a)
	}
	return f.top(mkSafe(t, args))
}

func mkSafe(t *Term, args []*Term) *Term {
	if si, ok := sig.Sel[t.Op]; ok && isCtorApp(args[0]) && args[0].Op != si.C.Name {
		return hc(t.Op, t.S, 0, args...)
	}
	return mk(t.Op, args...)
}

// top rewrites at the root of a term whose arguments are normal.
func (f *Facts) top(t *Term) *Term {
	for i := 0; i < 200; i++ {
		if r, ok := f.rw[t]; ok {
			t = f.norm(r)
			return t
		}
		if t.Op == "not" {
			if r, ok := f.rw[t.Args[0]]; ok {
				return Not(f.norm(r))
			}
		}
		if fn, ok := sig.Funs[t.Op]; ok && fn.Rec {
			if u := f.unfold(fn, t); u != nil {
				return u
			}
		}
		if t.Op == "select" || t.Op == "store" {
			return t
		}
		return t
	}
	return t
}

// decide settles a boolean term: True, False or nil.
func (f *Facts) decide(c *Term) *Term {
	if c == True || c == False {
		return c
	}
	if !f.deep {
		return nil
	}
	if v, ok := f.dec[c]; ok {
		switch v {
		case 1:
			return True
		case 2:
			return False
		}
		return nil
	}
	fs := append(append([]*Term(nil), f.facts...), Not(c))
	if f.sv.check(fs) == "unsat" {
		f.dec[c] = 1
		return True
	}
	fs[len(fs)-1] = c
	if f.sv.check(fs) == "unsat" {
		f.dec[c] = 2
		return False
	}
	f.dec[c] = 0
	return nil
}

func (f *Facts) unfold(fn *Fun, t *Term) *Term {
	if t.Op == f.stop {
		return nil
	}
	if f.fuel > 3000 {
		return nil
	}
	f.fuel++
	defer func() { f.fuel-- }()
	m := &substEnv{map[*Term]*Term{}, map[*Term]*Term{}}
	for i, p := range fn.Params {
		m.m[p] = t.Args[i]
	}
	b := fn.Body
	for b.Op == "ite" {
		blk := f.block
		c := f.norm1(b.Args[0], m)
		d := f.decide(c)
		if d == nil {
			if fn.value() && !fn.counts() && !tests(b.Args[0]) {
				break // a choice the value depends on
			}
			if f.deep && blk == nil && !fn.value() {
				f.block = c
			}
			return nil
		}
		if d == True {
			b = b.Args[1]
		} else {
			b = b.Args[2]
		}
	}
	f.insts[t] = true
	return f.norm1(b, m)
}

// value tells a function that gives what an expression means: it is unfolded
// as far as the form of the expression is known.
func (fn *Fun) value() bool {
	return fn.Ret == BV64 || fn.Ret == "World" || fn.Ret == "L_bv64"
}

// counts tells a function that recurses on a number only: it is unfolded when
// the number decides.
func (fn *Fun) counts() bool {
	for _, p := range fn.Params {
		if len(sig.Ctors[p.S]) > 0 {
			return false
		}
	}
	return fn.Rec
}

// tests: a condition on the form of a parameter.
func tests(c *Term) bool {
	if strings.HasPrefix(c.Op, "is-") {
		return true
	}
	if c.Op == "or" || c.Op == "and" || c.Op == "not" {
		for _, a := range c.Args {
			if tests(a) {
				return true
			}
		}
	}
	return false
}

func (f *Facts) instances() []*Term {
	var out []*Term
	for t := range f.insts {
		fn := sig.Funs[t.Op]
		b := subst(fn.Body, fn.Params, t.Args)
		out = append(out, hc("=", Bool, 0, t, b))
	}
	return out
}

// assume adds a fact.
func (f *Facts) assume(t *Term) {
	if f.dead {
		return
	}
	n := f.norm(t)
	if n == True {
		return
	}
	if n == False {
		// keep the contradictory fact so that the solver sees it too
		f.facts = append(f.facts, t)
		f.dead = true
		return
	}
	f.facts = append(f.facts, t)
	f.add(n, 0)
	for k, v := range f.dec {
		if v == 0 {
			delete(f.dec, k)
		}
	}
}

func occurs(x, t *Term) bool {
	if x == t {
		return true
	}
	for _, a := range t.Args {
		if occurs(x, a) {
			return true
		}
	}
	return false
}

func isFreshSym(t *Term) bool {
	return len(t.Args) == 0 && t.Op != "#bv" && t != True && t != False && !isCtorApp(t) && sig.Funs[t.Op] == nil
}

func (f *Facts) add(n *Term, depth int) {
	if f.dead || n == True || depth > 100 {
		return
	}
	if n == False {
		f.dead = true
		return
	}
	switch n.Op {
	case "and":
		for _, a := range n.Args {
			f.add(f.norm(a), depth+1)
		}
		return
	case "not":
		a := n.Args[0]
		if a.Op == "or" {
			for _, x := range a.Args {
				f.add(f.norm(Not(x)), depth+1)
			}
			return
		}
		if strings.HasPrefix(a.Op, "is-") {
			if c, ok := sig.Ctor[a.Op[3:]]; ok {
				// all other constructors excluded?
				var left []*Ctor
				for _, k := range sig.Ctors[c.Sort] {
					if k == c {
						continue
					}
					if f.norm(mk("is-"+k.Name, a.Args[0])) != False {
						left = append(left, k)
					}
				}
				if len(left) == 1 {
					f.toCtor(a.Args[0], left[0], depth)
					return
				}
			}
		}
		f.set(a, False, depth)
		return
	case "=":
		a, b := n.Args[0], n.Args[1]
		if f.orient(a, b) {
			f.set(a, b, depth)
		} else {
			f.set(b, a, depth)
		}
		return
	}
	if strings.HasPrefix(n.Op, "is-") {
		if c, ok := sig.Ctor[n.Op[3:]]; ok {
			f.toCtor(n.Args[0], c, depth)
			return
		}
	}
	f.set(n, True, depth)
}

func (f *Facts) toCtor(x *Term, c *Ctor, depth int) {
	var fs []*Term
	for i, s := range c.Sels {
		fs = append(fs, fresh(strings.SplitN(s, "_", 2)[0], c.Sorts[i]))
	}
	k := mk(c.Name, fs...)
	f.facts = append(f.facts, hc("=", Bool, 0, x, k))
	f.set(x, k, depth)
}

// orient reports whether a should be rewritten to b.
func (f *Facts) orient(a, b *Term) bool {
	rank := func(t *Term) int {
		switch {
		case isLit(t):
			return 0
		case isCtorApp(t):
			return 1
		case isFreshSym(t):
			return 3
		}
		return 2
	}
	ra, rb := rank(a), rank(b)
	if ra == 3 && occurs(a, b) {
		return false
	}
	if rb == 3 && occurs(b, a) {
		return true
	}
	if ra == 3 && rb == 3 {
		return a.ID > b.ID
	}
	if ra == 2 && rb == 2 {
		return termSize(a) >= termSize(b)
	}
	return ra > rb
}

func termSize(t *Term) int {
	n := 1
	for _, a := range t.Args {
		n += termSize(a)
		if n > 5000 {
			return n
		}
	}
	return n
}

func (f *Facts) set(k, v *Term, depth int) {
	if k == v {
		return
	}
	if isLit(k) || isCtorApp(k) {
		e := Eq(k, v)
		if isLit(v) || isCtorApp(v) {
			f.add(e, depth+1)
			return
		}
		k, v = v, k
	}
	if occurs(k, v) && !isFreshSym(v) {
		// keep as an opaque boolean fact
		e := Eq(k, v)
		f.rw[e] = True
		f.keys = append(f.keys, e)
		f.memo = map[*Term]*Term{}
		return
	}
	f.rw[k] = v
	f.keys = append(f.keys, k)
	f.memo = map[*Term]*Term{}
	// renormalise keys that contain k
	for round := 0; round < 50 && !f.dead; round++ {
		changed := false
		keys := f.keys
		for i := 0; i < len(keys); i++ {
			K := keys[i]
			V, ok := f.rw[K]
			if !ok {
				continue
			}
			if len(K.Args) == 0 {
				continue
			}
			nk := f.normArgs(K)
			if nk == K {
				// an application that can now be unfolded?
				if fn, isf := sig.Funs[K.Op]; isf && fn.Rec {
					delete(f.rw, K)
					f.memo = map[*Term]*Term{}
					u := f.unfold(fn, K)
					f.rw[K] = V
					f.memo = map[*Term]*Term{}
					if u != nil && u != K && !occurs(K, u) {
						delete(f.rw, K)
						f.memo = map[*Term]*Term{}
						f.keys = removeKey(f.keys, K)
						f.addEq(u, V, depth+1)
						changed = true
						break
					}
				}
				continue
			}
			delete(f.rw, K)
			f.keys = removeKey(f.keys, K)
			f.memo = map[*Term]*Term{}
			f.addEq(f.norm(nk), V, depth+1)
			changed = true
			break
		}
		if !changed {
			return
		}
	}
}

func removeKey(ks []*Term, k *Term) []*Term {
	var out []*Term
	for _, x := range ks {
		if x != k {
			out = append(out, x)
		}
	}
	return out
}

func (f *Facts) addEq(a, b *Term, depth int) {
	b = f.norm(b)
	if a == b {
		return
	}
	if a.S == Bool {
		if b == True {
			f.add(a, depth)
			return
		}
		if b == False {
			f.add(Not(a), depth)
			return
		}
	}
	if a.S != b.S {
		return
	}
	e := Eq(a, b)
	f.add(e, depth)
}

func (f *Facts) normArgs(t *Term) *Term {
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = f.norm(a)
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	return mkSafe(t, args)
}

// entails decides facts |= goal, first by rewriting, then by the solvers; the
// answer of rewriting alone is never trusted.
func (f *Facts) feasible() bool {
	if f.dead {
		return f.sv.check(append(append([]*Term(nil), f.facts...), f.instances()...)) != "unsat"
	}
	return f.sv.check(f.facts) != "unsat"
}

type ProofResult struct {
	OK      bool
	Backend string
	Script  string
	Norm    string
}

func (f *Facts) prove(goal *Term) ProofResult {
	old := f.deep
	f.deep = true
	f.memo = map[*Term]*Term{}
	n := f.norm(goal)
	f.deep = old
	f.memo = map[*Term]*Term{}
	fs := append(append([]*Term(nil), f.facts...), f.instances()...)
	if n == True || f.dead {
		q := append(fs, Not(goal))
		if f.sv.check(q) == "unsat" {
			return ProofResult{OK: true, Backend: "z3"}
		}
		if oneShot("cvc5", q, 20) == "unsat" {
			return ProofResult{OK: true, Backend: "cvc5"}
		}
		dbg("rewriting proves %s but the solvers do not\n", goal)
		return ProofResult{Script: script(q), Norm: n.String()}
	}
	q := append(fs, Not(n))
	r := f.sv.check(q)
	if r == "unsat" {
		// the normal form follows; check the goal itself
		q2 := append(append([]*Term(nil), fs...), Not(goal))
		if f.sv.check(q2) == "unsat" {
			return ProofResult{OK: true, Backend: "z3"}
		}
		if oneShot("cvc5", q2, 20) == "unsat" {
			return ProofResult{OK: true, Backend: "cvc5"}
		}
	} else if r == "unknown" {
		if oneShot("cvc5", q, 20) == "unsat" {
			return ProofResult{OK: true, Backend: "cvc5"}
		}
	}
	return ProofResult{Script: script(append(fs, Not(goal))), Norm: n.String()}
}

package main

// Symbolic execution of the SSA form of /repo's functions, one function at a
// time against its contract.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn      *ssa.Function
	blk     *ssa.BasicBlock
	prev    *ssa.BasicBlock
	pc      int
	regs    map[ssa.Value]Val
	defers  []deferred
	call    ssa.Value // register of the caller that receives the result
	binds   []Val
	loops   map[*ssa.BasicBlock]*loopState
	ret     Val
	isDefer bool
}

type deferred struct {
	fn   Val
	args []Val
	com  *ssa.CallCommon
}

type loopState struct {
	li       *loopInfo
	outer    *Term // the text when an enclosing loop began its iteration, or the function
	head     *Term // the text when this iteration began
	strict   bool
	inv      *LoopInv
	count    int
	ghosts   map[string]*Term
	entryLen int
	measure  *Term
	flag     Val // variable that keeps the loop going, with its value
	flagVal  *Term
}

type State struct {
	frames []*Frame
	F      *Facts
	heap   map[int]Val
	heapT  map[int]types.Type
	next   int
	G      map[string]*Term
	R      *Region
	spec   *Term
	v      *Verif
	trace  []string
	steps  int
	splits int
	meta   map[string]Val
}

// Verif is the verification of one function against its contract.
type Verif struct {
	name     string
	c        *Contract
	fn       *ssa.Function
	env      env
	G0       map[string]*Term
	pr       *Prog
	mu       sync.Mutex
	obs      []*Obligation
	paths    int
	states   int
	aborted  bool
	inlined  map[string]bool
	called   map[string]bool
	loopsCut int
	concrete bool
	t0       time.Time
	deadline time.Time
	nbad     atomic.Int64
	extra    map[string]Val
	wall     float64
	joins    map[string]bool
}

type Obligation struct {
	Fn      string
	Kind    string
	Desc    string
	Pos     string
	Trace   []string
	OK      bool
	Backend string
	Script  string
	Norm    string
	Tags    []string
	Ms      float64
}

func (st *State) clone() *State {
	n := &State{F: st.F.clone(), heap: map[int]Val{}, heapT: st.heapT, next: st.next, G: map[string]*Term{}, spec: st.spec, v: st.v, steps: st.steps, meta: map[string]Val{}}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.heapT = map[int]types.Type{}
	for k, v := range st.heapT {
		n.heapT[k] = v
	}
	for k, v := range st.G {
		n.G[k] = v
	}
	for k, v := range st.meta {
		n.meta[k] = v
	}
	n.R = st.R.clone()
	n.trace = append([]string(nil), st.trace...)
	for _, f := range st.frames {
		g := *f
		g.regs = make(map[ssa.Value]Val, len(f.regs))
		for k, v := range f.regs {
			g.regs[k] = v
		}
		g.loops = map[*ssa.BasicBlock]*loopState{}
		for k, v := range f.loops {
			c := *v
			g.loops[k] = &c
		}
		g.defers = append([]deferred(nil), f.defers...)
		n.frames = append(n.frames, &g)
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) note(f string, a ...interface{}) {
	st.trace = append(st.trace, fmt.Sprintf(f, a...))
}

// unsupported aborts the path with a failed obligation.
type unsupported struct{ msg string }

func bail(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func (st *State) pos() string {
	if len(st.frames) == 0 {
		return ""
	}
	f := st.top()
	p := token.NoPos
	if f.pc < len(f.blk.Instrs) {
		p = f.blk.Instrs[f.pc].Pos()
	}
	for i := f.pc; i >= 0 && p == token.NoPos; i-- {
		if i < len(f.blk.Instrs) {
			p = f.blk.Instrs[i].Pos()
		}
	}
	if p == token.NoPos {
		p = f.fn.Pos()
	}
	q := st.v.pr.prog.Fset.Position(p)
	s := q.String()
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

// oblige proves a goal in the current state and records the obligation.
func (st *State) oblige(kind, desc string, goal *Term, tags ...string) bool {
	t0 := time.Now()
	r := st.F.prove(goal)
	o := &Obligation{Fn: st.v.name, Kind: kind, Desc: desc, Pos: st.pos(), OK: r.OK, Backend: r.Backend, Tags: append([]string(nil), tags...), Ms: float64(time.Since(t0).Microseconds()) / 1000}
	if !r.OK {
		o.Trace = append([]string(nil), st.trace...)
		o.Script = r.Script
		o.Norm = r.Norm
	}
	st.v.add(o)
	return r.OK
}

func (st *State) fail(kind, desc string, tags ...string) {
	// a failure is only real if the path is possible
	q := append(append([]*Term(nil), st.F.facts...), st.F.instances()...)
	t0 := time.Now()
	if st.F.sv.check(q) == "unsat" {
		st.v.add(&Obligation{Fn: st.v.name, Kind: kind, Desc: desc + " (unreachable)", Pos: st.pos(), OK: true, Backend: "z3", Tags: tags, Ms: float64(time.Since(t0).Microseconds()) / 1000})
		return
	}
	st.v.add(&Obligation{Fn: st.v.name, Kind: kind, Desc: desc, Pos: st.pos(), OK: false, Trace: append([]string(nil), st.trace...), Tags: tags, Norm: desc, Script: script(q)})
}

// stopAfter is the number of failed obligations after which a function is given up.
var stopAfter int64 = 10

func (v *Verif) add(o *Obligation) {
	v.mu.Lock()
	v.obs = append(v.obs, o)
	v.mu.Unlock()
	if !o.OK {
		v.nbad.Add(1)
		dbg("FAILED %s: %s: %s at %s\n   trace: %s\n   normal form: %s\n", o.Fn, o.Kind, o.Desc, o.Pos, strings.Join(o.Trace, " | "), o.Norm)
	}
}

// ---- values ----

func (st *State) alloc(typ types.Type, v Val) Ptr {
	st.next++
	st.heap[st.next] = v
	st.heapT[st.next] = typ
	return Ptr{Obj: st.next}
}

func (st *State) get(x ssa.Value) Val {
	f := st.top()
	switch x := x.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return FuncV{Fn: x}
	case *ssa.Builtin:
		return FuncV{Fn: x}
	case *ssa.Global:
		return GhostPtr{Kind: "global", Field: x.String()}
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == x {
				return f.binds[i]
			}
		}
	}
	v, ok := f.regs[x]
	if !ok {
		bail("register %s of %s has no value", x.Name(), f.fn)
	}
	return v
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	s, ok := sortOf(c.Type())
	if !ok {
		bail("constant of type %s", c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolT(constant.BoolVal(c.Value))
	case constant.String:
		return strLit(constant.StringVal(c.Value))
	case constant.Int:
		if i, ok := constant.Int64Val(c.Value); ok {
			return bv(bvWidth(s), uint64(i))
		}
		u, _ := constant.Uint64Val(c.Value)
		return bv(bvWidth(s), u)
	}
	bail("constant %s", c)
	return nil
}

func (st *State) term(v Val) *Term {
	if t, ok := v.(*Term); ok {
		return st.F.norm(t)
	}
	if i, ok := v.(IfaceV); ok {
		return st.term(i.V)
	}
	bail("no term for %s", show(v))
	return nil
}

func (st *State) load(p Val) Val {
	switch p := p.(type) {
	case Ptr:
		v := st.heap[p.Obj]
		for _, i := range pathOf(p.Path) {
			switch x := v.(type) {
			case *StructV:
				v = x.F[i]
			case *ArrV:
				if i >= len(x.E) {
					bail("index beyond array")
				}
				v = x.E[i]
			case *Term:
				cs := sig.Ctors[x.S]
				if len(cs) != 1 || i >= len(cs[0].Sels) {
					bail("load through %s", show(v))
				}
				v = st.F.norm(mk(cs[0].Sels[i], x))
			default:
				bail("load through %s", show(v))
			}
		}
		return v
	case GhostPtr:
		return st.ghostLoad(p)
	case NilV:
		st.fail("no panic", "nil pointer dereference", "panic")
		panic(pathEnd{})
	}
	bail("load through %s", show(p))
	return nil
}

type pathEnd struct{}

func pathOf(s string) []int {
	if s == "" {
		return nil
	}
	var out []int
	for _, x := range strings.Split(s[1:], ".") {
		n, _ := strconv.Atoi(x)
		out = append(out, n)
	}
	return out
}

func (st *State) store(p Val, v Val) {
	switch p := p.(type) {
	case Ptr:
		st.heap[p.Obj] = updPath(st.heap[p.Obj], pathOf(p.Path), v)
		return
	case GhostPtr:
		st.ghostStore(p, v)
		return
	case NilV:
		st.fail("no panic", "nil pointer dereference", "panic")
		panic(pathEnd{})
	}
	bail("store through %s", show(p))
}

func updPath(old Val, path []int, v Val) Val {
	if len(path) == 0 {
		return v
	}
	switch x := old.(type) {
	case *StructV:
		n := &StructV{F: append([]Val(nil), x.F...)}
		n.F[path[0]] = updPath(x.F[path[0]], path[1:], v)
		return n
	case *ArrV:
		n := &ArrV{E: append([]Val(nil), x.E...)}
		if path[0] >= len(n.E) {
			bail("index beyond array")
		}
		n.E[path[0]] = updPath(x.E[path[0]], path[1:], v)
		return n
	case *Term:
		if cs := sig.Ctors[x.S]; len(cs) == 1 && path[0] < len(cs[0].Sels) {
			n := &StructV{}
			for _, s := range cs[0].Sels {
				n.F = append(n.F, mk(s, x))
			}
			return updPath(n, path, v)
		}
	}
	bail("store into %s", show(old))
	return nil
}

// ---- exploration ----

type worker struct {
	sv *solver
}

// run executes one state until the path ends, returning the states forked off.
func (st *State) run() (more []*State) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathEnd:
				return
			case unsupported:
				st.fail("supported", "outside the supported subset: "+r.msg)
				return
			case string:
				st.fail("supported", "term: "+r)
				return
			}
			panic(r)
		}
	}()
	for {
		st.steps++
		if st.v.nbad.Load() >= stopAfter {
			st.v.aborted = true
			return
		}
		if st.steps > 200000 || time.Now().After(st.v.deadline) {
			st.v.aborted = true
			st.fail("complete", "exploration of the function did not finish")
			return
		}
		f := st.top()
		if f.pc >= len(f.blk.Instrs) {
			bail("fell off block")
		}
		ins := f.blk.Instrs[f.pc]
		forks, done := st.step(ins)
		if forks != nil {
			return forks
		}
		if done {
			return
		}
	}
}

// branch forks on a condition; the callbacks continue each alternative.
func (st *State) feasibleWith(c *Term) *State {
	n := st.clone()
	n.F.assume(c)
	if n.F.dead {
		if n.F.sv.check(append(append([]*Term(nil), n.F.facts...), n.F.instances()...)) == "unsat" {
			return nil
		}
		// rewriting claims a contradiction the solver does not confirm: keep the path
		dbg("unconfirmed contradiction in %s: %s\n", st.v.name, c)
		n.F.dead = false
		return n
	}
	if n.F.sv.check(n.F.facts) == "unsat" {
		return nil
	}
	return n
}

func (st *State) jump(to *ssa.BasicBlock) (done bool) {
	f := st.top()
	f.prev = f.blk
	f.blk = to
	f.pc = 0
	// evaluate phis
	var vals []Val
	var phis []*ssa.Phi
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range to.Preds {
			if p == f.prev {
				vals = append(vals, st.get(ph.Edges[i]))
				phis = append(phis, ph)
				break
			}
		}
	}
	for i, ph := range phis {
		f.regs[ph] = vals[i]
	}
	f.pc = len(phis)
	if li := loopAt(to); li != nil {
		return st.atLoop(li)
	}
	return false
}

func (st *State) step(ins ssa.Instruction) (forks []*State, done bool) {
	f := st.top()
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		f.regs[x] = st.allocFor(x, t)
	case *ssa.Store:
		st.store(st.get(x.Addr), st.get(x.Val))
	case *ssa.UnOp:
		v := st.get(x.X)
		switch x.Op {
		case token.MUL:
			f.regs[x] = st.load(v)
		case token.NOT:
			f.regs[x] = Not(st.term(v))
		case token.SUB:
			if u, ok := v.(UndefV); ok {
				f.regs[x] = u
				break
			}
			f.regs[x] = mk("bvneg", st.term(v))
		case token.XOR:
			f.regs[x] = mk("bvnot", st.term(v))
		default:
			bail("operator %s", x.Op)
		}
	case *ssa.BinOp:
		f.regs[x] = st.binop(x.Op, st.get(x.X), st.get(x.Y), x.X.Type())
	case *ssa.FieldAddr:
		f.regs[x] = st.fieldAddr(st.get(x.X), x.Field, x.X.Type())
	case *ssa.Field:
		v := st.get(x.X)
		if t, ok := v.(*Term); ok {
			if cs := sig.Ctors[t.S]; len(cs) == 1 && x.Field < len(cs[0].Sels) {
				f.regs[x] = st.F.norm(mk(cs[0].Sels[x.Field], t))
				break
			}
		}
		s, ok := v.(*StructV)
		if !ok {
			bail("field of %s", show(v))
		}
		f.regs[x] = s.F[x.Field]
	case *ssa.IndexAddr:
		f.regs[x] = st.indexAddr(st.get(x.X), st.term(st.get(x.Index)))
	case *ssa.Index:
		f.regs[x] = st.index(st.get(x.X), st.term(st.get(x.Index)), x.Type())
	case *ssa.Lookup:
		return st.lookup(x)
	case *ssa.MapUpdate:
		st.mapUpdate(x)
	case *ssa.MakeMap:
		f.regs[x] = st.makeMap(x.Type())
	case *ssa.MakeSlice:
		n := st.term(st.get(x.Len))
		s, ok := sortOf(x.Type())
		if !ok {
			bail("make %s", x.Type())
		}
		if n.Op != "#bv" || n.Val > 64 {
			bail("make of symbolic length")
		}
		l := mk("nil_" + s[2:])
		for i := uint64(0); i < n.Val; i++ {
			z, ok := termOf(zeroVal(x.Type().Underlying().(*types.Slice).Elem()), listElem[s])
			if !ok {
				bail("make %s", x.Type())
			}
			l = mk("snoc_"+s[2:], l, z)
		}
		p := st.alloc(x.Type(), SliceV{L: l})
		f.regs[x] = st.sliceOfObj(p, l)
	case *ssa.Slice:
		f.regs[x] = st.slice(x)
	case *ssa.Convert:
		f.regs[x] = st.convert(st.get(x.X), x.X.Type(), x.Type())
	case *ssa.ChangeType:
		f.regs[x] = st.get(x.X)
	case *ssa.ChangeInterface:
		f.regs[x] = st.get(x.X)
	case *ssa.MakeInterface:
		f.regs[x] = st.makeInterface(st.get(x.X), x.X.Type(), x.Type())
	case *ssa.MakeClosure:
		fv := FuncV{Fn: x.Fn}
		for _, b := range x.Bindings {
			fv.Binds = append(fv.Binds, st.get(b))
		}
		f.regs[x] = fv
	case *ssa.TypeAssert:
		return st.typeAssert(x)
	case *ssa.Extract:
		t, ok := st.get(x.Tuple).(TupleV)
		if !ok {
			bail("extract from %s", show(st.get(x.Tuple)))
		}
		f.regs[x] = t.V[x.Index]
	case *ssa.Phi:
		bail("phi in the middle of a block")
	case *ssa.Range:
		f.regs[x] = st.rangeOver(x)
	case *ssa.Next:
		return st.rangeNext(x)
	case *ssa.Panic:
		st.fail("no panic", "panic", "panic")
		return nil, true
	case *ssa.Defer:
		d := deferred{com: &x.Call}
		if !x.Call.IsInvoke() {
			d.fn = st.get(x.Call.Value)
		} else {
			d.fn = st.get(x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, st.get(a))
		}
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			// run and come back to this instruction
			return st.doCall(nil, d.com, d.fn, d.args, true)
		}
	case *ssa.Go:
		bail("go statement")
	case *ssa.If:
		c := st.term(st.get(x.Cond))
		if c.S != Bool {
			bail("condition %s", c)
		}
		c = st.F.norm(c)
		if c == True || c == False {
			to := f.blk.Succs[0]
			if c == False {
				to = f.blk.Succs[1]
			}
			return nil, st.jump(to)
		}
		var out []*State
		for i, cc := range []*Term{c, Not(c)} {
			n := st.feasibleWith(cc)
			if n == nil {
				continue
			}
			n.note("%s: %v", st.pos(), clip(cc.String(), 120))
			if n.protect(func() bool { return n.jump(n.top().blk.Succs[i]) }) {
				continue
			}
			out = append(out, n)
		}
		if out == nil {
			out = []*State{}
		}
		return out, true
	case *ssa.Jump:
		return nil, st.jump(f.blk.Succs[0])
	case *ssa.Return:
		var rv Val
		switch len(x.Results) {
		case 0:
		case 1:
			rv = st.get(x.Results[0])
		default:
			t := TupleV{}
			for _, r := range x.Results {
				t.V = append(t.V, st.get(r))
			}
			rv = t
		}
		return st.doReturn(rv)
	case *ssa.Call:
		var fnv Val
		if x.Call.IsInvoke() {
			fnv = st.get(x.Call.Value)
		} else {
			fnv = st.get(x.Call.Value)
		}
		var args []Val
		for _, a := range x.Call.Args {
			args = append(args, st.get(a))
		}
		return st.doCall(x, &x.Call, fnv, args, false)
	default:
		bail("instruction %T", ins)
	}
	f.pc++
	return nil, false
}

// protect runs g, turning the end of a path into true.
func (st *State) protect(g func() bool) (done bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathEnd:
				done = true
				return
			case unsupported:
				st.fail("supported", "outside the supported subset: "+r.msg)
				done = true
				return
			case string:
				st.fail("supported", "term: "+r)
				done = true
				return
			}
			panic(r)
		}
	}()
	return g()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (st *State) doReturn(rv Val) ([]*State, bool) {
	f := st.top()
	if len(st.frames) == 1 {
		st.checkReturn(rv)
		return nil, true
	}
	st.frames = st.frames[:len(st.frames)-1]
	c := st.top()
	if f.isDefer {
		return nil, false // RunDefers is executed again
	}
	if f.call != nil {
		c.regs[f.call] = rv
	}
	c.pc++
	return nil, false
}

func (st *State) pushFrame(fn *ssa.Function, args []Val, binds []Val, res ssa.Value, isDefer bool) {
	if len(st.frames) > 40 {
		bail("inlining depth")
	}
	for _, g := range st.frames {
		if g.fn == fn {
			bail("recursive function %s without a contract", fn.Name())
		}
	}
	if len(fn.Blocks) == 0 {
		bail("function %s has no body", fn)
	}
	nf := &Frame{fn: fn, blk: fn.Blocks[0], regs: map[ssa.Value]Val{}, call: res, binds: binds, loops: map[*ssa.BasicBlock]*loopState{}, isDefer: isDefer}
	for i, p := range fn.Params {
		nf.regs[p] = args[i]
	}
	st.frames = append(st.frames, nf)
	st.v.mu.Lock()
	if len(st.frames) > 1 {
		st.v.inlined[fn.Name()] = true
	}
	st.v.mu.Unlock()
}

// doCall performs a call; res receives the result (nil for a deferred call).
func (st *State) doCall(res ssa.Value, com *ssa.CallCommon, fnv Val, args []Val, isDefer bool) ([]*State, bool) {
	finish := func(s *State, rv Val) {
		f := s.top()
		if res != nil {
			f.regs[res] = rv
		}
		if !isDefer {
			f.pc++
		}
	}
	if com.IsInvoke() {
		return st.invoke(com, fnv, args, finish)
	}
	fv, ok := fnv.(FuncV)
	if !ok {
		bail("call of %s", show(fnv))
	}
	switch fn := fv.Fn.(type) {
	case *ssa.Builtin:
		if n := fn.Name(); (n == "min" || n == "max") && len(args) == 2 {
			r, ok := st.builtin(n, com, args).(*Term)
			if r = st.F.norm(r); ok && r.Op == "ite" {
				// by cases, as if written out
				out := []*State{}
				for i, c := range []*Term{r.Args[0], Not(r.Args[0])} {
					if x := st.feasibleWith(c); x != nil {
						finish(x, x.F.norm(r.Args[1+i]))
						out = append(out, x)
					}
				}
				return out, true
			}
		}
		finish(st, st.builtin(fn.Name(), com, args))
		return nil, false
	case *ssa.Function:
		if fn.Pkg == st.v.pr.pkg || fn.Parent() != nil && fn.Parent().Pkg == st.v.pr.pkg || fn.Parent() != nil {
			if fn.Parent() == nil {
				if st.driving() {
					if forks, done, ok := st.driverCall(fn, args, finish); ok {
						return forks, done
					}
				}
				if c, ok := contracts[cname(fn)]; ok && !(c.Opts["inline"]) && !st.v.inlineAll(cname(fn)) {
					return st.applyContract(c, fn, args, finish)
				}
			}
			st.pushFrame(fn, args, fv.Binds, res, isDefer)
			if li := loopAt(fn.Blocks[0]); li != nil {
				return nil, st.atLoop(li)
			}
			return nil, false
		}
		return st.extern(fn.String(), fn, com, args, finish)
	}
	bail("call of %T", fv.Fn)
	return nil, false
}

func (v *Verif) inlineAll(name string) bool {
	return v.c != nil && v.c.Opts["inline:"+name]
}

// ---- contracts at calls ----

func (st *State) callEnv(c *Contract, args []Val, fn *ssa.Function) env {
	e := env{}
	for k, v := range st.G {
		e[k] = v
	}
	st.ghostEnv(e)
	for i, p := range c.Params {
		if w := c.Opts2["wrap:"+p]; w != "" && i < len(args) {
			sv, ok := args[i].(SliceV)
			if !ok && !isNilVal(args[i]) {
				bail("argument %s", show(args[i]))
			}
			l, ok := st.unwrapAll(sv, w)
			if !ok {
				st.fail("precondition", "the elements of "+p+" are of one kind, "+w, "wf")
				panic(pathEnd{})
			}
			e[p] = st.F.norm(l)
			continue
		}
		if c.Opts["driver"] && i < len(args) && isModelPtr(fn.Params[i].Type()) == "options" {
			st.driverEnv(p, args[i], e)
			continue
		}
		if i < len(args) && p != "_" {
			if s, ok := sortOf(fn.Params[i].Type()); ok {
				if t, ok := termOf(args[i], s); ok {
					e[p] = st.F.norm(t)
				}
			} else if pt, ok := fn.Params[i].Type().Underlying().(*types.Pointer); ok {
				if s, ok := sortOf(pt.Elem()); ok && strings.HasPrefix(s, "L_") {
					_, isnil := args[i].(NilV)
					e[p+".nil"] = boolT(isnil)
					if isnil {
						e[p] = mk("nil_" + s[2:])
					}
				}
				if ptr, isp := args[i].(Ptr); isp {
					if s, ok := sortOf(pt.Elem()); ok {
						if t, ok := termOf(st.load(ptr), s); ok {
							e[p] = st.F.norm(t)
						}
					}
				}
			}
		}
	}
	return e
}

func (st *State) applyContract(c *Contract, fn *ssa.Function, args []Val, finish func(*State, Val)) ([]*State, bool) {
	st.v.mu.Lock()
	st.v.called[c.Fn] = true
	st.v.mu.Unlock()
	e := st.callEnv(c, args, fn)
	if c.Opts["newfn"] {
		f := st.lv(args[len(args)-1])
		b := st.startFn(f)
		st.R.Cur = b.Id
		st.meta["curfnv"] = f
	}
	if id, ok := e["switchID"]; ok && st.v.c.Opts["newswitch"] {
		st.newSwitch(id)
	}
	st.recursion(c, fn)
	for _, r := range c.Req {
		st.obligeSexp("precondition", "precondition of "+c.Fn, r, e, "pre")
	}
	if c.Match == nil {
		rv := st.applyCase(c, &c.Cases[0], e, fn, args)
		finish(st, rv)
		return nil, false
	}
	scr := elab(c.Match, e, "")
	n := st.F.norm(scr)
	cs := sig.Ctors[scr.S]
	var out []*State
	for _, k := range cs {
		cas := findCase(c, k.Name)
		if cas == nil {
			continue
		}
		var s *State
		var kt *Term
		if isCtorApp(n) {
			if n.Op != k.Name {
				continue
			}
			s, kt = st, n
			ne := bindCase(cas, e, kt, k)
			rv := s.applyCase(c, cas, ne, fn, args)
			finish(s, rv)
			return nil, false
		}
		var fs []*Term
		for i := range k.Sels {
			nm := k.Sels[i]
			if i < len(cas.Vars) {
				nm = cas.Vars[i]
			}
			fs = append(fs, fresh(nm, k.Sorts[i]))
		}
		kt = mk(k.Name, fs...)
		s = st.feasibleWith(hc("=", Bool, 0, scr, kt))
		if s == nil {
			continue
		}
		s.note("%s: %s -> %s", st.pos(), c.Fn, k.Name)
		ne := bindCase(cas, e, kt, k)
		if s.protect(func() bool { finish(s, s.applyCase(c, cas, ne, fn, args)); return false }) {
			continue
		}
		out = append(out, s)
	}
	if out == nil {
		out = []*State{}
	}
	return out, true
}

func findCase(c *Contract, ctor string) *Case {
	for i := range c.Cases {
		if c.Cases[i].Ctor == ctor || c.Cases[i].Ctor == "" {
			return &c.Cases[i]
		}
		if ct := c.Cases[i].Ctor; (ct == "some" || ct == "none" || ct == "tuple") && (strings.HasPrefix(ctor, ct+"_") || ct == "tuple") {
			return &c.Cases[i]
		}
	}
	return nil
}

func bindCase(cas *Case, e env, kt *Term, k *Ctor) env {
	ne := e
	for i, v := range cas.Vars {
		if v != "_" && i < len(kt.Args) {
			ne = ne.with(v, kt.Args[i])
		}
	}
	return ne
}

// applyCase gives the result and the new state at a call site.
func (st *State) applyCase(c *Contract, cas *Case, e env, fn *ssa.Function, args []Val) Val {
	var rv Val
	res := fn.Signature.Results()
	st.labelRange(fn)
	// all clauses are evaluated in the state before the call
	type upd struct {
		k string
		t *Term
	}
	var ups []upd
	for _, d := range cas.Do {
		switch d.head() {
		case "ret":
			var vs []Val
			for i, x := range d.L[1:] {
				vs = append(vs, st.retVal(x, e, res.At(i).Type()))
			}
			if len(vs) == 1 {
				rv = vs[0]
			} else {
				rv = TupleV{vs}
			}
		case "fail":
			var vs []Val
			for i := 0; i < res.Len(); i++ {
				if typeName(res.At(i).Type()) == "error" {
					er := fresh("err", "Err")
					st.F.assume(Not(Eq(er, mk("enil"))))
					if len(d.L) > 1 && d.L[1].A == "noeof" {
						st.F.assume(Not(Eq(er, mk("eeof"))))
					}
					vs = append(vs, er)
				} else if typeName(res.At(i).Type()) == tValue || typeName(res.At(i).Type()) == tConstant {
					vs = append(vs, NilV{})
				} else {
					vs = append(vs, UndefV{"result of failed " + c.Fn})
				}
			}
			if len(vs) == 1 {
				rv = vs[0]
			} else {
				rv = TupleV{vs}
			}
			for _, g := range []string{"S", "E", "N"} {
				if t, ok := st.G[g]; ok && (len(d.L) < 3) {
					ups = append(ups, upd{g, fresh(g, t.S)})
				}
			}
			if st.R != nil {
				st.R.havoc()
			}
		case "set":
			g := d.L[1].A
			if g == "W" {
				ups = append(ups, upd{"W", elab(d.L[2], e, "World")})
				continue
			}
			if old, ok := st.G[g]; ok {
				ups = append(ups, upd{g, elab(d.L[2], e, old.S)})
				continue
			}
			// a pointer parameter
			done := false
			for i, p := range c.Params {
				if p == g && i < len(args) {
					el := fn.Params[i].Type().Underlying().(*types.Pointer).Elem()
					s, _ := sortOf(el)
					if _, isnil := args[i].(NilV); isnil {
						done = true
						break
					}
					st.store(args[i], valOf(elab(d.L[2], e, s), el))
					done = true
				}
			}
			if !done && st.v.ghostUsed(g) {
				bail("contract of %s sets unknown %s", c.Fn, g)
			}
		case "assume":
			st.F.assume(elab(d.L[1], e, Bool))
		case "ensure":
			st.F.assume(elab(d.L[1], e, Bool))
		case "havoc":
			for _, g := range d.L[1:] {
				if strings.Contains(g.A, ".") {
					st.driverHavoc(c, g.A, args)
					continue
				}
				if t, ok := st.G[g.A]; ok {
					ups = append(ups, upd{g.A, fresh(g.A, t.S)})
				}
			}
		case "emit":
			rv2 := st.applyEmit(d, e, c)
			if rv2 != nil {
				rv = rv2
			}
		case "check", "term":
			// proved at the definition only; see termAfter
		case "body":
			if p := st.G["P"]; p != nil {
				t := mk("tfun", elab(d.L[1], e, listSort(BV8)), elab(d.L[2], e, listSort(listSort(BV8))), elab(d.L[3], e, "Stmt"))
				ups = append(ups, upd{"P", mk("snoc_"+sortKey("Top"), p, t)})
			}
		case "define":
			st.defineLabel(elab(d.L[1], e, listSort(BV8)))
		default:
			bail("contract clause %s", d)
		}
	}
	for _, u := range ups {
		if u.k == "W" {
			st.R.region(st, u.t)
			continue
		}
		st.G[u.k] = u.t
	}
	st.termAfter(c, cas, e)
	return rv
}

func (v *Verif) ghostUsed(g string) bool { return true }

func (st *State) retVal(x *Sexp, e env, typ types.Type) Val {
	if !x.List && x.A == "*" {
		return freshVal("any", typ)
	}
	if !x.List && x.A == "!enil" {
		er := fresh("err", "Err")
		st.F.assume(Not(Eq(er, mk("enil"))))
		return er
	}
	if !x.List && x.A == "nil" {
		return NilV{}
	}
	if x.head() == "words" {
		return SliceV{L: elab(x.L[1], e, listSort(BV64)), Wrap: "lword"}
	}
	s, ok := sortOf(typ)
	if !ok {
		if v := st.specialRet(x, e, typ); v != nil {
			return v
		}
		bail("result of type %s", typ)
	}
	return valOf(st.F.norm(elab(x, e, s)), typ)
}

func (st *State) obligeSexp(kind, desc string, x *Sexp, e env, tags ...string) {
	st.oblige(kind, desc+": "+x.String(), elab(x, e, Bool), tags...)
}

// ---- contract at the return of the verified function ----

func (st *State) checkReturn(rv Val) {
	v := st.v
	v.mu.Lock()
	v.paths++
	v.mu.Unlock()
	c := v.c
	if c == nil {
		return
	}
	if c.Opts["newcompiler"] {
		st.checkNewCompiler(rv)
		return
	}
	st.modFuncs()
	st.checkCurFn(rv)
	e := env{}
	for k, t := range v.env {
		e[k] = t
	}
	var cas *Case
	ne := e
	if c.Match == nil {
		cas = &c.Cases[0]
	} else {
		f := st.F
		f.deep = true
		f.memo = map[*Term]*Term{}
		f.block = nil
		n := f.norm(st.spec)
		blk := f.block
		f.deep = false
		f.memo = map[*Term]*Term{}
		scr := st.spec
		var k *Ctor
		if isCtorApp(n) {
			k = sig.Ctor[n.Op]
		} else {
			for _, kk := range sig.Ctors[scr.S] {
				if f.prove(mk("is-"+kk.Name, scr)).OK {
					k = kk
					break
				}
			}
		}
		if k == nil && blk != nil && st.splits < 14 {
			// by cases
			for _, cc := range []*Term{blk, Not(blk)} {
				x := st.feasibleWith(cc)
				if x == nil {
					continue
				}
				x.splits = st.splits + 1
				x.note("case %s", clip(cc.String(), 100))
				x.protect(func() bool { x.checkReturn(rv); return true })
			}
			return
		}
		if k == nil {
			st.oblige("postcondition", "the result the specification requires is determined here; normal form "+clip(n.String(), 400), hc("undetermined", Bool, 0), tagsOfHead(n.Op)...)
			return
		}
		st.oblige("postcondition", "specification yields "+k.Name, mk("is-"+k.Name, scr))
		cas = findCase(c, k.Name)
		if cas == nil {
			st.fail("postcondition", "the contract excludes this outcome: "+k.Name)
			return
		}
		for i, vn := range cas.Vars {
			if vn != "_" {
				var t *Term
				if isCtorApp(n) && n.Op == k.Name {
					t = n.Args[i]
				} else {
					t = mk(k.Sels[i], scr)
				}
				ne = ne.with(vn, t)
			}
		}
	}
	res := v.fn.Signature.Results()
	var rvs []Val
	if res.Len() == 1 {
		rvs = []Val{rv}
	} else if t, ok := rv.(TupleV); ok {
		rvs = t.V
	}
	set := map[string]bool{}
	failing := false
	for _, d := range cas.Do {
		if d.head() == "fail" {
			failing = true
		}
	}
	if !failing && st.R != nil {
		var ok bool
		rvs, ok = st.R.resolve(st, rvs)
		if !ok {
			return
		}
	}
	for _, d := range cas.Do {
		switch d.head() {
		case "ret":
			for i, x := range d.L[1:] {
				st.checkRet(x, ne, rvs[i], res.At(i).Type(), i)
			}
		case "fail":
			for i := 0; i < res.Len(); i++ {
				if typeName(res.At(i).Type()) == "error" {
					st.oblige("postcondition", "an error is returned", Not(Eq(st.errTerm(rvs[i]), mk("enil"))), "error")
					if len(d.L) > 1 && d.L[1].A == "noeof" {
						st.oblige("postcondition", "the error is not end of file", Not(Eq(st.errTerm(rvs[i]), mk("eeof"))), "error")
					}
				}
			}
			if len(d.L) >= 3 { // (fail x pure): state unchanged is not required here
			}
		case "set":
			g := d.L[1].A
			set[g] = true
			if g == "W" {
				t := elab(d.L[2], ne, "World")
				st.oblige("postcondition", "effects of the generated code", Eq(st.R.exitW, t), "effects")
				continue
			}
			if cur, ok := st.G[g]; ok {
				t := elab(d.L[2], ne, cur.S)
				if g == "T" {
					st.checkActs("postcondition", t, failing)
					continue
				}
				st.oblige("postcondition", "state "+g+" after the call", Eq(st.ghostNow(g), t), "state:"+g)
				continue
			}
			for i, p := range c.Params {
				if p == g {
					cell, ok := v.extra["param:"+strconv.Itoa(i)]
					if !ok || st.meta["nilparam"] != nil {
						continue
					}
					el := v.fn.Params[i].Type().Underlying().(*types.Pointer).Elem()
					s, _ := sortOf(el)
					now, ok := termOf(st.load(cell), s)
					if !ok {
						st.fail("postcondition", "value of *"+p)
						continue
					}
					st.oblige("postcondition", "*"+p+" after the call", Eq(now, elab(d.L[2], ne, s)), "state:"+p)
				}
			}
		case "havoc":
			for _, g := range d.L[1:] {
				set[g.A] = true
			}
		case "ensure":
			e2 := ne
			for _, g := range sortedKeys(st.G) {
				e2 = e2.with(g+"'", st.ghostNow(g))
			}
			st.obligeSexp("postcondition", "ensures", d.L[1], e2)
		case "check":
			e2 := ne
			for _, g := range sortedKeys(st.G) {
				e2 = e2.with(g+"'", st.ghostNow(g))
			}
			st.obligeSexp("postcondition", "invariant", d.L[1], e2, "check")
		case "emit":
			st.checkEmit(d, ne, c, rvs)
		case "body":
			nm := elab(d.L[1], ne, listSort(BV8))
			st.oblige("postcondition", "the function that is defined has the name given", Eq(mk("fr_n", mk("lf", st.R.Fn)), mk("gname", nm)), "flow")
			s := st.F.norm(mk("SFun", elab(d.L[2], ne, listSort(listSort(BV8))), elab(d.L[3], ne, "Stmt")))
			if st.flowIs(s, true) {
				st.oblige("flow", "the code is that of the function", True, "flow")
			}
		case "assume", "define", "term":
		default:
			bail("contract clause %s", d)
		}
	}
	st.termReturn(c, cas, ne)
	st.checkArgs(set)
	if !failing {
		for _, g := range sortedKeys(st.G) {
			if !set[g] && v.G0[g] != nil && !st.ghostVolatile(g) {
				st.oblige("frame", g+" is unchanged", Eq(st.ghostNow(g), v.G0[g]), "state:"+g)
			}
		}
		if st.R != nil && v.G0W() == nil {
			if !st.R.NoFn {
				st.fail("frame", "no function is left open", "effects")
			}
		} else if st.R != nil && !set["W"] && !st.R.emits(cas) {
			st.oblige("frame", "no code is generated", Eq(st.R.exitW, v.G0W()), "effects")
		}
	}
}

func (st *State) errTerm(v Val) *Term {
	t, ok := termOf(v, "Err")
	if !ok {
		bail("error value %s", show(v))
	}
	return t
}

func (st *State) checkRet(x *Sexp, e env, v Val, typ types.Type, i int) {
	if !x.List && x.A == "*" {
		return
	}
	desc := fmt.Sprintf("result %d is %s", i, x)
	if !x.List && x.A == "!enil" {
		st.oblige("postcondition", desc, Not(Eq(st.errTerm(v), mk("enil"))), "error")
		return
	}
	if !x.List && x.A == "nil" {
		if _, ok := v.(NilV); ok {
			st.oblige("postcondition", desc, True, "result")
			return
		}
		st.fail("postcondition", desc, "result")
		return
	}
	if x.head() == "words" {
		bail("words as result")
	}
	s, ok := sortOf(typ)
	if !ok {
		if st.specialCheck(x, e, v, typ, desc) {
			return
		}
		bail("result of type %s", typ)
	}
	t, ok := termOf(v, s)
	if !ok {
		st.fail("postcondition", desc+" but is "+show(v), "result")
		return
	}
	tag := "result"
	if s == "Err" {
		tag = "error"
	}
	if s == "LV" {
		tag = "value"
		t = st.canonPtr(t)
	}
	want := elab(x, e, s)
	if s == Bool && st.returnsLV() {
		st.oblige("postcondition", desc, Eq(t, want), tag, "wf") // tells how the value may be used
		return
	}
	if !st.oblige("postcondition", desc, Eq(t, want), tag) && s == "LV" {
		st.sameType("postcondition", desc, t, want)
	}
}

// returnsLV tells whether the function returns a value of the generated code.
func (st *State) returnsLV() bool {
	r := st.v.fn.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		if s, ok := sortOf(r.At(i).Type()); ok && s == "LV" {
			return true
		}
	}
	return false
}

// sameType: a value that is not the one expected has its type nevertheless.
func (st *State) sameType(kind, desc string, t, want *Term) {
	var or []*Term
	for _, k := range sig.Ctors["LV"] {
		or = append(or, And(mk("is-"+k.Name, t), mk("is-"+k.Name, want)))
	}
	st.oblige(kind, "the type of: "+desc, Or(or...), "wf")
}

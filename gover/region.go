package main

// The code a function under verification generates: a graph of blocks with
// edges, whose effects are resolved when the function returns or reaches a
// loop invariant.

import (
	"fmt"
	"sort"
)

type RTerm struct {
	Kind string // br cond ret switch stmt
	Cond *Term
	To   []*Term
	Val  *Term // returned value, switch value, or the statement of a stmt edge
	Cs   *Term // list of switch cases
	Pos  string
}

type Incoming struct {
	V, B *Term
}

type RPhi struct {
	Sym *Term
	In  []Incoming
}

type RBlk struct {
	Id    *Term
	Name  *Term // name given by the code under verification, nil for an inner block of a callee
	Own   bool
	Entry *Term // world on entry
	W     *Term // world now
	T     *RTerm
	Phis  []RPhi
	Used  bool // code has been put in it
	First bool // the first block of the function
	Label bool // a label block that this code defines
}

type Region struct {
	B         map[*Term]*RBlk
	Order     []*Term
	Cur       *Term // block code is added to
	Root      *Term
	W0        *Term // world on entry to the function
	exitW     *Term
	sub       map[*Term]*Term
	havocked  bool
	nblk      int
	names     []*Term
	slots     int
	mustFirst bool  // an iteration ends in the first block of the function too
	NoFn      bool  // no function has been started
	Fn        *Term // the function the code belongs to, when it is started here
}

func (r *Region) clone() *Region {
	if r == nil {
		return nil
	}
	n := *r
	n.B = map[*Term]*RBlk{}
	for k, b := range r.B {
		c := *b
		if b.T != nil {
			t := *b.T
			c.T = &t
		}
		c.Phis = append([]RPhi(nil), b.Phis...)
		n.B[k] = &c
	}
	n.Order = append([]*Term(nil), r.Order...)
	n.names = append([]*Term(nil), r.names...)
	return &n
}

var blkN int

func freshBlk() *Term {
	freshMu.Lock()
	blkN++
	n := blkN
	freshMu.Unlock()
	return bv(64, 0x100000+uint64(n))
}

func newRegion(w0 *Term) *Region {
	r := &Region{B: map[*Term]*RBlk{}, W0: w0}
	id := freshBlk()
	r.B[id] = &RBlk{Id: id, Entry: w0, W: w0, Used: true}
	r.Order = append(r.Order, id)
	r.Cur, r.Root = id, id
	return r
}

func (r *Region) havoc() { r.havocked = true }

// newBlock adds a block.
func (r *Region) newBlock(id *Term, own bool, name *Term) *RBlk {
	w := fresh("We", "World")
	b := &RBlk{Id: id, Own: own, Name: name, Entry: w, W: w}
	r.B[id] = b
	r.Order = append(r.Order, id)
	return b
}

// at returns the block code goes to, checking that it is open.
func (st *State) at(blk *Term) *RBlk {
	r := st.R
	if r == nil {
		bail("code is generated by a function without a contract for it")
	}
	if r.NoFn {
		st.fail("well-formed code", "code is generated outside a function", "wf")
		panic(pathEnd{})
	}
	blk = st.F.norm(blk)
	b := r.B[blk]
	if b == nil {
		bail("code is put in an unknown block %s", blk)
	}
	if b.T != nil {
		st.fail("well-formed code", "code is put after the terminator of a block", "wf")
		panic(pathEnd{})
	}
	b.Used = true
	return b
}

func (st *State) cur() *RBlk { return st.at(st.R.Cur) }

// region records that a callee generated code from the current block to a new one.
func (r *Region) region(st *State, w *Term) {
	if r == nil {
		bail("effects of generated code in a function without generated code")
	}
	b := st.cur()
	nb := r.newBlock(freshBlk(), false, nil)
	nb.Used = true
	b.W = w
	b.T = &RTerm{Kind: "br", To: []*Term{nb.Id}, Pos: st.pos()}
	r.Cur = nb.Id
}

// solve resolves the worlds of all blocks reached from the root; the graph
// must not contain a cycle.
func (r *Region) solve(st *State) bool {
	// depth first order
	state := map[*Term]int{}
	var post []*Term
	ok := true
	var visit func(x *Term)
	visit = func(x *Term) {
		b := r.B[x]
		if b == nil {
			ok = false
			return
		}
		state[x] = 1
		if b.T != nil {
			for _, y := range b.T.To {
				switch state[y] {
				case 0:
					visit(y)
				case 1:
					ok = false
				}
			}
		}
		state[x] = 2
		post = append(post, x)
	}
	visit(r.Root)
	if !ok {
		return false
	}
	sub := map[*Term]*Term{}
	reach := map[*Term]*Term{}
	type edge struct {
		from *Term
		c    *Term
	}
	in := map[*Term][]edge{}
	for i := len(post) - 1; i >= 0; i-- {
		b := r.B[post[i]]
		if b.Id == r.Root {
			reach[b.Id] = True
		} else {
			es := in[b.Id]
			c := False
			for _, e := range es {
				c = orMerge(c, e.c)
			}
			reach[b.Id] = c
			w := substM(r.B[es[len(es)-1].from].W, sub)
			for k := len(es) - 2; k >= 0; k-- {
				w = Ite(es[k].c, substM(r.B[es[k].from].W, sub), w)
			}
			sub[b.Entry] = w
			for _, ph := range b.Phis {
				var v *Term
				if len(ph.In) != len(es) {
					st.fail("well-formed code", "a phi instruction does not have one value per predecessor", "wf")
					return false
				}
				for k := len(es) - 1; k >= 0; k-- {
					var pv *Term
					for _, x := range ph.In {
						if st.F.norm(x.B) == es[k].from {
							pv = substM(x.V, sub)
						}
					}
					if pv == nil {
						st.fail("well-formed code", "a phi instruction names a block that is not a predecessor", "wf")
						return false
					}
					if v == nil {
						v = pv
					} else {
						v = Ite(es[k].c, pv, v)
					}
				}
				sub[ph.Sym] = v
			}
		}
		if b.T != nil {
			for k, to := range b.T.To {
				c := reach[b.Id]
				switch b.T.Kind {
				case "cond":
					cc := substM(b.T.Cond, sub)
					if k == 1 {
						cc = Not(cc)
					}
					c = And(c, cc)
				case "br":
				default:
					return false
				}
				in[to] = append(in[to], edge{b.Id, c})
			}
		}
	}
	if _, ok := reach[r.Cur]; !ok {
		return false
	}
	r.sub = sub
	r.exitW = st.F.norm(substM(r.B[r.Cur].W, sub))
	return true
}

// orMerge is the disjunction, joining x∧c and x∧¬c.
func orMerge(a, b *Term) *Term {
	if a == False {
		return b
	}
	if a.Op == "not" && a.Args[0] == b || b.Op == "not" && b.Args[0] == a {
		return True
	}
	if a.Op == "and" && b.Op == "and" && len(a.Args) == len(b.Args) {
		n := len(a.Args)
		same := true
		for i := 0; i < n-1; i++ {
			if a.Args[i] != b.Args[i] {
				same = false
			}
		}
		x, y := a.Args[n-1], b.Args[n-1]
		if same && (x == Not(y)) {
			return And(a.Args[:n-1]...)
		}
	}
	return Or(a, b)
}

// closed checks that every block this code made, except the current one, ends.
func (r *Region) closed(st *State) {
	for _, id := range r.Order {
		b := r.B[id]
		if b.T == nil && id != r.Cur && (b.Own || b.Used) && !b.Label {
			n := "block"
			if r.NoFn {
				continue
			}
			if b.Name != nil {
				n = "block " + b.Name.String()
			}
			st.fail("well-formed code", n+" has no terminator", "wf", "panic")
			return
		}
	}
	st.oblige("well-formed code", "every block made here ends in one terminator, except the one code continues in", True, "wf", "panic")
	if r.NoFn {
		return
	}
	if b := r.B[r.Cur]; b == nil || b.T != nil {
		st.fail("well-formed code", "code continues in a block that has ended", "wf", "panic")
	}
	st.blockNames()
}

// ended checks that the code of a whole function is complete.
func (r *Region) ended(st *State) {
	if r.NoFn || r.Fn == nil {
		st.fail("well-formed code", "a function is started", "wf", "panic")
		return
	}
	for _, id := range r.Order {
		if b := r.B[id]; b.T == nil && (b.Own || b.Used) && !b.Label {
			st.fail("well-formed code", "a block of the function has no terminator", "wf", "panic")
			return
		}
	}
	st.oblige("well-formed code", "every block of the function ends in one terminator", True, "wf", "panic")
	st.blockNames()
}

// startFn begins the code of function f.
func (st *State) startFn(f *Term) *RBlk {
	r := st.R
	if !r.NoFn {
		st.fail("well-formed code", "a function is started within another", "wf")
		panic(pathEnd{})
	}
	r.NoFn, r.Fn = false, f
	b := r.B[r.Root]
	b.Own, b.First = true, true
	return b
}

func (r *Region) substVal(st *State, v Val) Val {
	switch x := v.(type) {
	case *Term:
		return st.F.norm(substM(x, r.sub))
	case SliceV:
		if x.L != nil {
			x.L = st.F.norm(substM(x.L, r.sub))
		}
		return x
	case IfaceV:
		x.V = r.substVal(st, x.V)
		return x
	case TupleV:
		y := TupleV{}
		for _, e := range x.V {
			y.V = append(y.V, r.substVal(st, e))
		}
		return y
	case VecV:
		y := VecV{}
		for _, e := range x.E {
			y.E = append(y.E, r.substVal(st, e))
		}
		return y
	}
	return v
}

// substAll puts the worlds known now into all values.
func (st *State) substAll() {
	if st.R == nil || st.R.sub == nil {
		return
	}
	for _, f := range st.frames {
		for k, v := range f.regs {
			f.regs[k] = st.R.substVal(st, v)
		}
	}
	for k, v := range st.heap {
		st.heap[k] = st.R.substVal(st, v)
	}
	for g, t := range st.G {
		st.G[g] = st.F.norm(substM(t, st.R.sub))
	}
}

// resolve is called when the function returns successfully.
func (r *Region) resolve(st *State, rvs []Val) ([]Val, bool) {
	if r.havocked {
		bail("a failed call is taken as success")
	}
	if st.v.c.Opts["function"] {
		r.ended(st)
		r.exitW = nil
		r.sub = map[*Term]*Term{}
		return rvs, true
	}
	r.closed(st)
	if st.v.c.isFlow() {
		// compared with the template of the contract by checkEmit
		r.exitW = nil
		r.sub = map[*Term]*Term{}
		return rvs, true
	}
	if !r.solve(st) {
		st.fail("well-formed code", "the code continues where it is not reached in a straight way", "effects")
		return nil, false
	}
	out := make([]Val, len(rvs))
	for i, v := range rvs {
		out[i] = r.substVal(st, v)
	}
	return out, true
}

// atCut prepares the state for a loop invariant.
func (r *Region) atCut(st *State, must bool) bool {
	if r.havocked {
		return false
	}
	if must {
		r.closed(st)
		if b := r.B[r.Cur]; r.mustFirst && (b == nil || !b.First) {
			st.fail("loop invariant", "the code is still in the first block of the function", "stack")
			return false
		}
	} else {
		for _, id := range r.Order {
			b := r.B[id]
			if b.T == nil && id != r.Cur && b.Own {
				return false
			}
		}
	}
	if r.solve(st) {
		return true
	}
	if must {
		st.fail("loop invariant", "the code does not continue in one place", "effects")
	}
	return false
}

// restart begins a new region with the given world.
func (r *Region) restart(st *State, w *Term) {
	n := newRegion(w)
	n.names = r.names
	n.W0 = r.W0
	n.NoFn, n.Fn = r.NoFn, r.Fn
	n.mustFirst = r.mustFirst
	if b := r.B[r.Cur]; b != nil && b.First {
		n.B[n.Root].First = true
		n.mustFirst = true
	}
	*r = *n
}

func (st *State) valueNow(t *Term) *Term {
	if st.R != nil && st.R.sub != nil {
		return st.F.norm(substM(t, st.R.sub))
	}
	return t
}

func (r *Region) emits(cas *Case) bool {
	for _, d := range cas.Do {
		if d.head() == "emit" || d.head() == "body" {
			return true
		}
	}
	return false
}

func (v *Verif) G0W() *Term { return v.env["W"] }

func (r *Region) String() string {
	s := ""
	for _, id := range r.Order {
		b := r.B[id]
		s += fmt.Sprintf("  %s %v own=%v W=%s term=%+v\n", id, b.Name, b.Own, b.W, b.T)
	}
	return s
}

var _ = sort.Strings

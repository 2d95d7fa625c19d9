package main

// Statements: what the code generated for a statement does is given by its
// flow, a small control-flow graph over the flows of its parts. The code a
// function generates is compared with the flow its contract requires: both
// must take the same turns with the same values and the same memory, at every
// point where control may go two ways, leave the function, or enter a part.

import (
	"fmt"
	"strings"
)

// Flow is the control-flow graph of a statement.
type Flow struct {
	Ctor   string
	Vars   []string
	Blocks map[string][]*Sexp
	Defs   map[string]*Sexp // label blocks: the name control may come from elsewhere by
	Orph   []string         // blocks entered through labels of their parts only
}

var flows = map[string]*Flow{}

func loadFlow(x *Sexp) error {
	f := &Flow{Ctor: x.L[1].A, Blocks: map[string][]*Sexp{}, Defs: map[string]*Sexp{}}
	if sig.Ctor[f.Ctor] == nil {
		return fmt.Errorf("flow of unknown statement %s", f.Ctor)
	}
	for _, v := range x.L[2].L {
		f.Vars = append(f.Vars, v.A)
	}
	for _, b := range x.L[3:] {
		switch b.head() {
		case "define":
			f.Defs[b.L[1].A] = b.L[2]
		case "orphan":
			f.Orph = append(f.Orph, b.L[1].A)
		default:
			f.Blocks[b.head()] = b.L[1:]
		}
	}
	flows[f.Ctor] = f
	return nil
}

// Cont is what a flow still has to do.
type Cont struct {
	Stmt *Term // a statement to run, or
	Flow *Flow // operations of a flow
	Blk  string
	Pc   int
	Env  env
	Next *Cont
	key  string
}

func (c *Cont) Key() string {
	if c == nil {
		return "."
	}
	if c.key == "" {
		if c.Stmt != nil {
			c.key = fmt.Sprintf("s%d", c.Stmt.ID)
		} else {
			c.key = fmt.Sprintf("%s.%s.%d", c.Flow.Ctor, c.Blk, c.Pc)
			for _, v := range c.Flow.Vars {
				c.key += fmt.Sprintf(",%d", c.Env[v].ID)
			}
		}
		c.key += "/" + c.Next.Key()
	}
	return c.key
}

type flowPair struct {
	blk  *Term // region block
	from *Term // block it is entered from
	cont *Cont
}

type flowOrphan struct {
	cont *Cont
	done bool
}

type bisim struct {
	st       *State
	r        *Region
	must     bool
	seen     map[string]bool
	visited  map[*Term]bool // blocks of the region the comparison has passed
	work     []flowPair
	orphans  map[string]*flowOrphan
	orphKey  []string
	expanded map[string]bool
	bad      bool
}

func (x *bisim) check(desc string, g *Term, tag string) bool {
	if x.must {
		ok := x.st.oblige("flow", desc, g, "flow", tag)
		if !ok {
			x.bad = true
		}
		return ok
	}
	if !x.st.F.prove(g).OK {
		x.bad = true
		return false
	}
	return true
}

func (x *bisim) fail(desc string) {
	x.bad = true
	if x.must {
		x.st.fail("flow", desc, "flow")
	} else {
		dbg("flow: %s\n", desc)
	}
}

// flowIs compares the code generated with the flow of a statement.
func (st *State) flowIs(stmt *Term, must bool) bool {
	x := &bisim{st: st, r: st.R, must: must, seen: map[string]bool{}, visited: map[*Term]bool{}, orphans: map[string]*flowOrphan{}, expanded: map[string]bool{}}
	x.push(x.r.Root, nil, &Cont{Stmt: stmt})
	for !x.bad {
		if len(x.work) > 0 {
			p := x.work[len(x.work)-1]
			x.work = x.work[:len(x.work)-1]
			x.segment(p)
			continue
		}
		// code that is entered through labels inside it only
		progress := false
		for _, k := range x.orphKey {
			o := x.orphans[k]
			if o.done {
				continue
			}
			b := x.orphanBlock()
			if b == nil {
				x.fail("code that belongs to the statement is missing")
				break
			}
			o.done = true
			progress = true
			x.push(b.Id, nil, o.cont)
			break
		}
		if !progress {
			break
		}
	}
	if x.bad {
		return false
	}
	for _, id := range x.r.Order {
		b := x.r.B[id]
		if x.visited[id] {
			continue
		}
		if b.T != nil && b.T.Kind == "stmt" {
			x.fail("the code of a part is not reached: " + clip(b.T.Val.String(), 120))
			return false
		}
		if b.Label && b.Used {
			x.fail("a label is defined that the statement does not define")
			return false
		}
	}
	return true
}

// known gives a part whose kind is known in terms of its own parts.
func (x *bisim) known(s *Term) *Term {
	for _, k := range sig.Ctors[s.S] {
		if x.st.F.norm(hc("is-"+k.Name, Bool, 0, s)) != True {
			continue
		}
		var as []*Term
		for i, n := range k.Sels {
			as = append(as, hc(n, k.Sorts[i], 0, s))
		}
		t := mk(k.Name, as...)
		if x.st.F.prove(Eq(s, t)).OK {
			return t
		}
	}
	return s
}

// orphanBlock is a block with a part in it that nothing leads to.
func (x *bisim) orphanBlock() *RBlk {
	pred := map[*Term]bool{}
	for _, id := range x.r.Order {
		if b := x.r.B[id]; b.T != nil {
			for _, to := range b.T.To {
				pred[to] = true
			}
		}
	}
	for _, id := range x.r.Order {
		b := x.r.B[id]
		if x.visited[id] || pred[id] || !b.Used || b.Label {
			continue
		}
		// does it lead to a part?
		n := 0
		for c := b; c != nil && n < 100; n++ {
			if c.T == nil {
				break
			}
			if c.T.Kind == "stmt" {
				return b
			}
			if c.T.Kind != "br" {
				break
			}
			c = x.r.B[c.T.To[0]]
		}
	}
	return nil
}

func (x *bisim) push(blk, from *Term, c *Cont) {
	k := fmt.Sprintf("%d|%s", blk.ID, c.Key())
	if b := x.r.B[blk]; b != nil && len(b.Phis) > 0 && from != nil {
		k = fmt.Sprintf("%d|", from.ID) + k
	}
	if x.seen[k] {
		return
	}
	x.seen[k] = true
	x.work = append(x.work, flowPair{blk, from, c})
}

// segment follows both from a common point to the next one.
func (x *bisim) segment(p flowPair) {
	st := x.st
	b := x.r.B[p.blk]
	if b == nil {
		x.fail("control goes to a block that is not part of this code")
		return
	}
	if b.Label {
		// entered by its name
	}
	w0 := b.Entry
	sub := map[*Term]*Term{}
	phis := func(from *Term) bool {
		for _, ph := range b.Phis {
			var v *Term
			for _, in := range ph.In {
				if from != nil && st.F.norm(in.B) == from {
					v = substM(in.V, sub)
				}
			}
			if v == nil {
				x.fail("a phi instruction names a block that is not a predecessor")
				return false
			}
			sub[ph.Sym] = v
		}
		return true
	}
	if !phis(p.from) {
		return
	}
	x.visited[b.Id] = true
	from := b.Id
	for n := 0; b.T != nil && b.T.Kind == "br"; n++ {
		to := x.r.B[st.F.norm(b.T.To[0])]
		if to == nil || to.Label {
			break
		}
		if n > 2000 {
			x.fail("the code loops without doing anything")
			return
		}
		sub[to.Entry] = substM(b.W, sub)
		from = b.Id
		b = to
		x.visited[b.Id] = true
		if !phis(from) {
			return
		}
	}
	wr := st.F.norm(substM(b.W, sub))
	kind := "open"
	if b.T != nil {
		kind = b.T.Kind
	} else if b.Id == x.r.Cur {
		kind = "exit"
	}
	if kind == "br" {
		kind = "goto"
	}
	val := func(t *Term) *Term { return st.F.norm(substM(t, sub)) }

	// the flow, up to its next boundary
	c := p.cont
	tw := w0
	eq := func(what string, a, b *Term) bool {
		return x.check(what, Eq(a, b), "effects")
	}
	worlds := func() bool { return eq("memory at this point", wr, st.F.norm(tw)) }
	mism := func(want string) {
		x.fail("the statement requires " + want + " where the code has " + x.kindName(kind, b))
	}
	for n := 0; ; n++ {
		if n > 5000 {
			x.fail("the flow loops without doing anything")
			return
		}
		if c == nil {
			if kind != "exit" {
				mism("control to go on after the statement")
				return
			}
			worlds()
			return
		}
		if c.Stmt != nil {
			s := st.F.norm(c.Stmt)
			if kind == "stmt" {
				v := val(b.T.Val)
				if v == s || !isCtorApp(s) || isCtorApp(v) && v.Op == s.Op || !isCtorApp(v) && s.Op != "SSeq" {
					if v == s || st.F.prove(Eq(v, s)).OK {
						if !worlds() {
							return
						}
						x.check("the part is the one the statement has", Eq(v, s), "parse")
						x.push(b.T.To[0], nil, c.Next)
						return
					}
					if !isCtorApp(s) {
						x.check("the part "+clip(v.String(), 200)+" is the one the statement has: "+clip(s.String(), 200), Eq(v, s), "parse")
						return
					}
				}
			}
			if !isCtorApp(s) {
				s = x.known(s)
			}
			if !isCtorApp(s) {
				x.fail("the code of a part of the statement is missing: " + clip(s.String(), 200) + "; the code has " + x.kindName(kind, b))
				return
			}
			if s.Op == "SSeq" {
				l := st.F.norm(s.Args[0])
				switch {
				case isNilList(l):
					c = c.Next
				case isSnoc(l):
					c = &Cont{Stmt: mk("SSeq", l.Args[0]), Next: &Cont{Stmt: l.Args[1], Next: c.Next}}
				default:
					x.fail("the code of a part of the block is missing: " + clip(l.String(), 200))
					return
				}
				continue
			}
			f := flows[s.Op]
			if f == nil {
				bail("no flow for %s", s.Op)
			}
			e := env{}
			for k, v := range st.v.env {
				e[k] = v
			}
			for i, v := range f.Vars {
				e[v] = s.Args[i]
			}
			n := &Cont{Flow: f, Blk: "entry", Env: e, Next: c.Next}
			x.expand(n)
			if x.bad {
				return
			}
			c = n
			continue
		}
		ops := c.Flow.Blocks[c.Blk]
		if c.Pc >= len(ops) {
			bail("flow of %s ends without exit", c.Flow.Ctor)
		}
		op := ops[c.Pc]
		step := &Cont{Flow: c.Flow, Blk: c.Blk, Pc: c.Pc + 1, Env: c.Env, Next: c.Next}
		to := func(l string) *Cont {
			if _, ok := c.Flow.Blocks[l]; !ok {
				bail("flow of %s has no block %s", c.Flow.Ctor, l)
			}
			e := env{}
			for k, v := range c.Env {
				if !strings.HasPrefix(k, "#") {
					e[k] = v
				}
			}
			return &Cont{Flow: c.Flow, Blk: l, Env: e, Next: c.Next}
		}
		ev := func(s *Sexp, want string) *Term {
			e := c.Env.with("W", tw)
			for k, v := range c.Env {
				if strings.HasPrefix(k, "#") {
					e[k[1:]] = v
				}
			}
			return st.F.norm(elab(s, e, want))
		}
		name := op.head()
		if !op.List {
			name = op.A
		}
		gotoName := func(n *Term) {
			if kind != "goto" {
				mism("control to go to a label")
				return
			}
			if worlds() {
				eq("control goes to the label", val(b.T.To[0]), st.F.norm(mk("lblk", n)))
			}
		}
		switch name {
		case "exit":
			c = c.Next
		case "eff":
			tw = ev(op.L[1], "World")
			c = step
		case "eval":
			k := ev(op.L[2], "Expr")
			v := st.F.norm(mk("rv", k, tw))
			tw = st.F.norm(mk("rw", k, tw))
			step.Env = c.Env.with("#"+op.L[1].A, v)
			c = step
		case "stmt":
			c = &Cont{Stmt: ev(op.L[1], "Stmt"), Next: step}
		case "jump":
			l := op.L[1].A
			if d, ok := c.Flow.Defs[l]; ok {
				gotoName(ev(d, listSort(BV8)))
				return
			}
			c = to(l)
		case "goto":
			gotoName(ev(op.L[1], listSort(BV8)))
			return
		case "ret":
			if kind != "ret" {
				mism("the function to return")
				return
			}
			if worlds() {
				eq("value returned", val(b.T.Val), ev(op.L[1], BV64))
			}
			return
		case "if":
			if kind != "cond" {
				mism("a branch on the condition")
				return
			}
			cd := ev(op.L[1], Bool)
			got := val(b.T.Cond)
			if !worlds() {
				return
			}
			i, j := 0, 1
			if got != cd && !st.F.prove(Eq(got, cd)).OK && st.F.prove(Eq(got, Not(cd))).OK {
				i, j = 1, 0
				got = Not(got)
			}
			if !eq("condition of the branch", got, cd) {
				return
			}
			x.push(st.F.norm(b.T.To[i]), b.Id, to(op.L[2].A))
			x.push(st.F.norm(b.T.To[j]), b.Id, to(op.L[3].A))
			return
		case "switch":
			v := ev(op.L[1], BV64)
			cs := ev(op.L[3], listSort("Case"))
			if kind != "switch" {
				// no case: control just goes on
				if isNilList(cs) || st.F.prove(Eq(cs, mk("nil_Case"))).OK {
					x.check("no case to go to", Eq(cs, mk("nil_Case")), "effects")
					c = to(op.L[2].A)
					continue
				}
				mism("control to go to the case that matches")
				return
			}
			if !worlds() {
				return
			}
			eq("value compared with the cases", val(b.T.Val), v)
			eq("cases", val(b.T.Cs), cs)
			x.push(st.F.norm(b.T.To[0]), b.Id, to(op.L[2].A))
			return
		default:
			bail("flow operation %s", op)
		}
	}
}

func (x *bisim) kindName(kind string, b *RBlk) string {
	n := map[string]string{"exit": "nothing more", "open": "a block without terminator", "cond": "a branch on a condition", "ret": "a return", "goto": "a jump", "switch": "a switch"}[kind]
	if kind == "stmt" {
		n = "the part " + clip(b.T.Val.String(), 150)
	}
	if b.T != nil {
		n += " (" + b.T.Pos + ")"
	}
	return n
}

// expand starts the comparison at the blocks of a flow that are entered from elsewhere.
func (x *bisim) expand(c *Cont) {
	k := c.Key()
	if x.expanded[k] {
		return
	}
	x.expanded[k] = true
	for _, l := range sortedKeysS(c.Flow.Defs) {
		n := x.st.F.norm(elab(c.Flow.Defs[l], c.Env, listSort(BV8)))
		id := x.st.F.norm(mk("lblk", n))
		b := x.r.B[id]
		if b == nil || !b.Label || !b.Used {
			x.fail("the label is not defined here: " + clip(n.String(), 100))
			return
		}
		x.push(id, nil, &Cont{Flow: c.Flow, Blk: l, Env: c.Env, Next: c.Next})
	}
	for _, l := range c.Flow.Orph {
		n := &Cont{Flow: c.Flow, Blk: l, Env: c.Env, Next: c.Next}
		if x.orphans[n.Key()] == nil {
			x.orphans[n.Key()] = &flowOrphan{cont: n}
			x.orphKey = append(x.orphKey, n.Key())
		}
	}
}

func sortedKeysS(m map[string]*Sexp) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

func (c *Contract) isFlow() bool {
	for i := range c.Cases {
		for _, d := range c.Cases[i].Do {
			if d.head() == "emit" {
				return true
			}
		}
	}
	return false
}

// applyEmit: a callee has generated the code of a statement.
func (st *State) applyEmit(d *Sexp, e env, c *Contract) Val {
	x := d.L[1]
	s := st.F.norm(elab(x.L[1], e, "Stmt"))
	r := st.R
	if r == nil {
		bail("code of a statement in a function without generated code")
	}
	b := st.cur()
	nb := r.newBlock(freshBlk(), false, nil)
	nb.Used = true
	b.T = &RTerm{Kind: "stmt", Val: s, To: []*Term{nb.Id}, Pos: st.pos()}
	r.Cur = nb.Id
	return nil
}

// checkEmit: the code generated here is that of the statement.
func (st *State) checkEmit(d *Sexp, e env, c *Contract, rvs []Val) {
	s := st.F.norm(elab(d.L[1].L[1], e, "Stmt"))
	if st.flowIs(s, true) {
		st.oblige("flow", "the code is that of the statement", True, "flow")
	}
}

// defineLabel: a callee has given the block of a label that is defined now.
func (st *State) defineLabel(n *Term) {
	id := st.F.norm(mk("lblk", n))
	if b := st.R.B[id]; b != nil && b.Used {
		st.fail("well-formed code", "a label is defined twice", "wf")
		panic(pathEnd{})
	}
	w := fresh("We", "World")
	st.R.B[id] = &RBlk{Id: id, Own: true, Label: true, Entry: w, W: w}
	st.R.Order = append(st.R.Order, id)
	ds, _ := st.meta["defined"].([]*Term)
	st.meta["defined"] = append(append([]*Term(nil), ds...), id)
}

// codeCut: the code so far is that of a statement; go on as if it had been
// generated by a callee.
func (st *State) codeCut(s *Term) {
	w := fresh("W", "World")
	st.R.restart(st, w)
	b := st.cur()
	nb := st.R.newBlock(freshBlk(), false, nil)
	nb.Used = true
	b.T = &RTerm{Kind: "stmt", Val: s, To: []*Term{nb.Id}}
	st.R.Cur = nb.Id
}

// openSwitch is the one switch instruction in the code generated here.
func (st *State) openSwitch() *RTerm {
	var t *RTerm
	for _, id := range st.R.Order {
		if b := st.R.B[id]; b.T != nil && b.T.Kind == "switch" {
			if t != nil {
				return nil
			}
			t = b.T
		}
	}
	return t
}

// regionShape identifies the code generated so far, apart from the cases of a switch.
func (st *State) regionShape() string {
	s := fmt.Sprint(st.R.Cur.ID)
	for _, id := range st.R.Order {
		b := st.R.B[id]
		s += fmt.Sprintf("|%d,%d", id.ID, b.W.ID)
		if b.T != nil {
			s += b.T.Kind
			for _, t := range b.T.To {
				s += fmt.Sprintf(",%d", t.ID)
			}
		}
	}
	return s
}

// newSwitch: the number a switch statement takes is its own.
func (st *State) newSwitch(id *Term) {
	if st.meta["swid"] == Val(id) {
		return
	}
	if st.meta["swid"] != nil {
		st.fail("switch", "the parts of a switch have its number", "labels")
		panic(pathEnd{})
	}
	st.meta["swid"] = id
	rs, _ := st.meta["lids"].([][2]*Term)
	c := []*Term{mk("bvule", st.v.G0["LID"], id), mk("bvult", id, st.F.norm(st.G["LID"])), mk("bvsle", bv(64, 0), id)}
	for _, r := range rs {
		c = append(c, Or(mk("bvult", id, r[0]), mk("bvule", r[1], id)))
	}
	st.oblige("switch", "the number of a switch is its own", And(c...), "labels")
	st.F.assume(Eq(mk("swid", st.v.env["S"]), id))
}

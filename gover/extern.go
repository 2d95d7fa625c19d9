package main

// Functions outside the package under verification: the Go library and the
// LLVM builder library. What is written here is trusted.

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Opts2: options of a contract of the form name=value are kept in Contract.Opts2.

func (st *State) freshErr() *Term {
	er := fresh("err", "Err")
	st.F.assume(And(Not(Eq(er, mk("enil"))), Not(Eq(er, mk("eeof")))))
	return er
}

// byteOf gives the byte a character value stands for.
func (st *State) byteOf(v Val) *Term {
	t := st.term(v)
	if strings.HasPrefix(t.Op, "(_ zero_extend") && bvWidth(t.Args[0].S) == 8 {
		return t.Args[0]
	}
	if t.Op == "#bv" && t.Val < 256 {
		return bv(8, t.Val)
	}
	w := bvWidth(t.S)
	if w > 8 {
		return st.unwrap(t, "(_ zero_extend "+itoa(w-8)+")")
	}
	bail("character %s", t)
	return nil
}

func (st *State) extern(name string, fn *ssa.Function, com *ssa.CallCommon, args []Val, finish func(*State, Val)) ([]*State, bool) {
	if forks, done, ok := st.driverExtern(name, fn, com, args, finish); ok {
		return forks, done
	}
	one := func(v Val) ([]*State, bool) { finish(st, v); return nil, false }
	switch name {
	case "fmt.Errorf", "errors.New":
		return one(st.freshErr())
	case "fmt.Sprintf":
		return one(st.sprintf(args))
	case "errors.Is":
		if e := st.F.norm(st.term(args[1])); e.Op == "eeof" && !st.v.pr.wraps() {
			return one(st.F.norm(Eq(st.term(args[0]), e)))
		}
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte":
		st.store(args[0], mk("snoc_bv8", st.text(args[0]), st.term(args[1])))
		return one(mk("enil"))
	case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		if b := st.byteOf(args[1]); st.F.prove(mk("bvult", b, bv(8, 0x80))).OK {
			st.store(args[0], mk("snoc_bv8", st.text(args[0]), b))
			return one(TupleV{[]Val{bv(64, 1), mk("enil")}})
		}
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString":
		s := st.str(args[1])
		st.store(args[0], st.strcat(st.text(args[0]), s))
		return one(TupleV{[]Val{st.listLen(s), mk("enil")}})
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return one(st.F.norm(st.text(args[0])))
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return one(st.listLen(st.text(args[0])))
	case "strconv.Itoa":
		return one(st.F.norm(mk("fmtd", strLit("%d"), st.term(args[0]))))
	case "strconv.FormatInt":
		if b := st.F.norm(st.term(args[1])); b.Op == "#bv" && b.Val == 10 {
			return one(st.F.norm(mk("fmtd", strLit("%d"), st.term(args[0]))))
		}
	case "unicode.IsSpace":
		return one(st.F.norm(mk("isspace", st.byteOf(args[0]))))
	case "unicode.IsLetter":
		return one(st.F.norm(mk("isletter", st.byteOf(args[0]))))
	case "unicode.IsDigit":
		return one(st.F.norm(mk("isdigit", st.byteOf(args[0]))))
	case "io.ReadFull":
		return st.readFull(com, args, finish)
	}
	if strings.HasPrefix(name, "slices.Delete[") {
		// s[:i] followed by s[i+1:]
		if r := st.deleteOne(args); r != nil {
			return one(r)
		}
	}
	if strings.HasPrefix(name, "(*"+llir+".Block).") {
		return one(st.blockMethod(fn.Name(), args, com))
	}
	if forks, done, ok := st.llirCall(name, fn, com, args, finish); ok {
		return forks, done
	}
	bail("call of %s", name)
	return nil, false
}

// readFull models io.ReadFull on the source with a buffer of one byte.
func (st *State) readFull(com *ssa.CallCommon, args []Val, finish func(*State, Val)) ([]*State, bool) {
	if o, ok := args[0].(Opaque); !ok || o.Kind != "reader" {
		bail("ReadFull from %s", show(args[0]))
	}
	var set func(s *State, c *Term)
	switch a := com.Args[1].(type) {
	case *ssa.UnOp:
		if a.Op == token.MUL {
			p := st.get(a.X)
			sv, ok := st.load(p).(SliceV)
			if ok && sv.L != nil && st.listLen(sv.L) == bv(64, 1) {
				set = func(s *State, c *Term) { s.store(p, SliceV{L: mk("snoc_bv8", mk("nil_bv8"), c), Cap: true}) }
			}
		}
	case *ssa.Slice:
		p, ok := st.get(a.X).(Ptr)
		if ok && a.Low == nil && a.High == nil {
			if arr, ok := st.load(p).(*ArrV); ok && len(arr.E) == 1 {
				set = func(s *State, c *Term) { s.store(p, &ArrV{E: []Val{c}}) }
			}
		}
	}
	if set == nil {
		bail("buffer of ReadFull")
	}
	r := st.F.norm(st.G0("R"))
	out := []*State{}
	for _, c := range sig.Ctors["Stream"] {
		n := st.feasibleWith(mk("is-"+c.Name, r))
		if n == nil {
			continue
		}
		n.note("%s: source %s", st.pos(), c.Name)
		var rv Val
		switch c.Name {
		case "seof":
			rv = TupleV{[]Val{bv(64, 0), mk("eeof")}}
		case "sbad":
			rv = TupleV{[]Val{bv(64, 0), mk("eerr", n.F.norm(mk(c.Sels[0], r)))}}
		default:
			set(n, n.F.norm(mk(c.Sels[0], r)))
			n.G["R"] = n.F.norm(mk(c.Sels[1], r))
			rv = TupleV{[]Val{bv(64, 1), mk("enil")}}
		}
		finish(n, rv)
		out = append(out, n)
	}
	return out, true
}

// text is what a buffer holds.
func (st *State) text(p Val) *Term {
	t, ok := termOf(st.load(p), listSort(BV8))
	if !ok {
		bail("text of a buffer")
	}
	return t
}

// wraps: some error of the package may have io.EOF within.
func (pr *Prog) wraps() bool {
	for _, fn := range everyFunc(pr) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "errors" && f.Name() == "Join" {
						return true
					}
				}
				for _, op := range in.Operands(nil) {
					if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && strings.Contains(c.Value.String(), "%w") {
						return true
					}
				}
			}
		}
	}
	return false
}

func (st *State) deleteOne(args []Val) Val {
	s, ok := args[0].(SliceV)
	if !ok || s.L == nil || len(args) != 3 {
		return nil
	}
	i, j := st.F.norm(st.term(args[1])), st.F.norm(st.term(args[2]))
	k := s.L.S[2:]
	if sig.Funs["drop_"+k] == nil || sig.Funs["cat_"+k] == nil || st.F.norm(Eq(j, mk("bvadd", i, bv(64, 1)))) != True {
		return nil
	}
	st.oblige("no panic", "slice bounds in range", And(mk("bvsle", bv(64, 0), i), mk("bvslt", i, st.listLen(s.L))), "panic")
	return SliceV{L: mk("cat_"+k, mk("take_"+k, s.L, i), mk("drop_"+k, s.L, j)), Wrap: s.Wrap, Cap: true}
}

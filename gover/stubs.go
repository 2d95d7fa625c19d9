package main

import (
	"fmt"
	"strconv"

)

func itoa(n int) string { return strconv.Itoa(n) }

// checkCurFn: the current function is the one started, and only changed where
// a function is started or ended.
func (st *State) checkCurFn(rv Val) {
	cur, set := st.meta["curfnv"]
	o := st.v.c.Opts
	switch {
	case o["newfn"]:
		want, _ := st.meta["wantfn"].(*Term)
		if st.R.NoFn || !set {
			st.fail("well-formed code", "the function is started", "wf")
			return
		}
		t, ok := cur.(*Term)
		if !ok || want == nil {
			st.fail("well-formed code", "the function that is started becomes the current one", "wf")
			return
		}
		st.oblige("well-formed code", "the function that is started becomes the current one", Eq(t, want), "wf")
		st.oblige("well-formed code", "code goes into the function that is started", Eq(st.R.Fn, want), "wf")
	case o["function"]:
	case set:
		st.fail("well-formed code", "the current function stays the same", "wf")
	}
}

// allocaInst reserves storage for as long as the activation lasts.
func (st *State) allocaInst(ty Val) Val {
	t := st.typ(ty)
	a := fresh("stk", BV64)
	n := bv(64, 1)
	switch {
	case t.D == "i64":
	case t.D == "arr" && t.Elt.D == "i64":
		n = t.N
	case t.D == "arr" && t.Elt.D == "i8":
		st.meta["size8:"+fmt.Sprint(a.ID)] = t.N
		return mk("larr8", a, t.N)
	default:
		bail("alloca of %s", t.D)
	}
	as, _ := st.meta["allocas"].([]*Term)
	st.meta["allocas"] = append(append([]*Term(nil), as...), a)
	st.F.assume(Eq(mk("awords", a), n))
	if t.D == "i64" {
		return mk("lptr", a)
	}
	return mk("larr", a, n)
}

// newVariable: a name gets the storage of a local variable, the next one of
// the activation.
func (st *State) newVariable(name, a *Term) {
	as, _ := st.meta["allocas"].([]*Term)
	for i, x := range as {
		if x == a {
			st.meta["allocas"] = append(append([]*Term(nil), as[:i]...), as[i+1:]...)
			n := st.envField("e_nl")
			st.F.assume(Eq(mk("laddr", n), a))
			st.setEnvField("e_nl", mk("bvadd", n, bv(64, 1)))
			return
		}
	}
	st.fail("stack", "a variable has storage of its own", "stack")
	panic(pathEnd{})
}

// vaArg takes the next argument from the list.
func (st *State) vaArg(b *RBlk, args []Val) Val {
	st.vaList(args[1])
	st.wordType(args[2], "an argument")
	n := st.G["VA"]
	st.G["VA"] = st.F.norm(mk("bvadd", n, bv(64, 1)))
	return mk("lword", mk("arg", n))
}

// vaList checks that a list of arguments is the one that has been set up.
func (st *State) vaList(v Val) {
	p := st.want(v, "lptr8", "a list of arguments")
	l, ok := st.meta["valist"].(*Term)
	if !ok {
		st.fail("calling convention", "the list of arguments is set up before it is used", "abi")
		panic(pathEnd{})
	}
	st.oblige("calling convention", "arguments are taken from the list that was set up", Eq(p, l), "abi")
}

// intrinsic models a call of a function of the backend.
func (st *State) intrinsic(b *RBlk, name string, args []Val) Val {
	if len(args) != 1 || st.G["VA"] == nil {
		bail("call of %s", name)
	}
	switch name {
	case "llvm.va_start":
		p := st.want(args[0], "lptr8", "a list of arguments")
		if st.meta["valist"] != nil {
			st.fail("calling convention", "the list of arguments is set up once", "abi")
			panic(pathEnd{})
		}
		size, ok := st.meta["size8:"+fmt.Sprint(st.F.norm(p).ID)].(*Term)
		if !ok {
			bail("list of arguments %s", p)
		}
		st.oblige("calling convention", "the storage for the list of arguments is large enough", mk("bvule", bv(64, 24), size), "abi")
		f := mk("lf", st.R.Fn)
		st.oblige("calling convention", "a function that takes further arguments is variadic", mk("fr_va", f), "abi")
		st.meta["valist"] = p
		st.G["VA"] = st.F.norm(mk("fr_np", f))
	case "llvm.va_end":
		st.vaList(args[0])
		st.meta["vaended"] = True
		delete(st.meta, "valist")
		st.G["VA"] = bv(64, ^uint64(0))
	default:
		bail("call of %s", name)
	}
	return Opaque{Kind: "inst"}
}

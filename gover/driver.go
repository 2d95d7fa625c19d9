package main

// The driver (driver.go, main.go): files, commands and the command line. What
// is written here about the operating system and the Go library is trusted.

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (st *State) driving() bool { return st.v.c != nil && st.v.c.Opts["driver"] }

// driverConsts makes the kinds of output known to the specification.
func driverConsts(pr *Prog) {
	for i, n := range []string{"OutputExecutable", "OutputObject", "OutputAssembly", "OutputIR"} {
		consts[n] = bv(64, uint64(i))
		if c, ok := pr.pkg.Members[n].(*ssa.NamedConst); ok {
			if v, ok := constant.Int64Val(c.Value.Value); ok {
				consts[n] = bv(64, uint64(v))
			}
		}
	}
}

func (st *State) setupDriver() {
	st.G["T"] = sym("T", listSort("Act"))
	st.G["N"] = sym("N", BV64)
	if st.v.c.Opts["main"] {
		st.G["X"] = bv(64, 0)
	}
}

// driverArgs makes the options an object whose fields are arbitrary.
func (st *State) driverArgs(name string, p *ssa.Parameter, e env) Val {
	el := p.Type().Underlying().(*types.Pointer).Elem()
	u := el.Underlying().(*types.Struct)
	v := &StructV{}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		s, ok := sortOf(f.Type())
		if !ok {
			bail("option %s of type %s", f.Name(), f.Type())
		}
		v.F = append(v.F, valOf(sym(name+"."+fieldName("CompileOptions", f.Name()), s), f.Type()))
	}
	ptr := st.alloc(el, v)
	st.driverEnv(name, ptr, e)
	st.v.mu.Lock()
	st.v.extra["args"] = ptr
	st.v.extra["argsname"] = name
	st.v.mu.Unlock()
	return ptr
}

func (st *State) driverEnv(name string, a Val, e env) {
	p, ok := a.(Ptr)
	if !ok {
		bail("options %s", show(a))
	}
	sv, ok := st.load(p).(*StructV)
	u, ok2 := st.heapT[p.Obj].Underlying().(*types.Struct)
	if !ok || !ok2 {
		bail("options %s", show(st.load(p)))
	}
	for i := 0; i < u.NumFields(); i++ {
		if s, ok := sortOf(u.Field(i).Type()); ok {
			if t, ok := termOf(sv.F[i], s); ok {
				e[name+"."+fieldName("CompileOptions", u.Field(i).Name())] = st.F.norm(t)
			}
		}
	}
}

// driverHavoc: a callee may change a field of the options.
func (st *State) driverHavoc(c *Contract, name string, args []Val) {
	pn, f, _ := strings.Cut(name, ".")
	for i, p := range c.Params {
		if p != pn {
			continue
		}
		ptr, ok := args[i].(Ptr)
		if !ok {
			bail("options %s", show(args[i]))
		}
		u := st.heapT[ptr.Obj].Underlying().(*types.Struct)
		for k := 0; k < u.NumFields(); k++ {
			if fieldName("CompileOptions", u.Field(k).Name()) == f {
				st.store(st.fieldAddr(ptr, k, types.NewPointer(st.heapT[ptr.Obj])), freshVal(f, u.Field(k).Type()))
			}
		}
	}
}

// checkArgs: the options are left as they were.
func (st *State) checkArgs(set map[string]bool) {
	if !st.driving() || st.v.extra["args"] == nil {
		return
	}
	name := st.v.extra["argsname"].(string)
	e := env{}
	st.driverEnv(name, st.v.extra["args"], e)
	for _, k := range sortedKeys(e) {
		if old, ok := st.v.env[k]; ok && !set[k] {
			st.oblige("frame", k+" is unchanged", Eq(e[k], old), "frame")
		}
	}
}

// ---- what has been done ----

// act adds to the list of what has been done.
func (st *State) act(ctor string, args ...*Term) {
	st.G["T"] = st.F.norm(mk("snoc_Act", st.G["T"], mk(ctor, args...)))
}

func (st *State) tick() *Term {
	n := st.G["N"]
	st.G["N"] = st.F.norm(mk("bvadd", n, bv(64, 1)))
	return n
}

func actsOf(t *Term) (base *Term, acts []*Term) {
	for isSnoc(t) {
		acts = append(acts, t.Args[1])
		t = t.Args[0]
	}
	for i, j := 0, len(acts)-1; i < j; i, j = i+1, j-1 {
		acts[i], acts[j] = acts[j], acts[i]
	}
	return t, acts
}

func (st *State) checkActs(kind string, want *Term, failing bool) {
	st.checkActsEq(kind, hc("=", Bool, 0, st.G["T"], want), failing)
}

// checkActsEq compares what has been done with what is specified, telling
// removals, commands and files made apart when they differ.
func (st *State) checkActsEq(kind string, g *Term, failing bool) {
	if g == True || g.Op != "=" {
		st.oblige(kind, "what is done is what is specified", g, "state:rm", "state:run", "state:made")
		return
	}
	now, want := st.F.norm(g.Args[0]), st.F.norm(g.Args[1])
	if st.F.prove(Eq(now, want)).OK {
		st.oblige(kind, "what is done is what is specified", Eq(now, want), "state:rm", "state:run", "state:made")
		return
	}
	b1, a1 := actsOf(now)
	b2, a2 := actsOf(want)
	if b1 != b2 {
		st.oblige(kind, "what is done is what is specified", Eq(now, want), "state:rm", "state:run", "state:made", "error")
		return
	}
	sub := func(as []*Term, ops ...string) *Term {
		l := mk("nil_Act")
		for _, a := range as {
			for _, o := range ops {
				if a.Op == o {
					l = mk("snoc_Act", l, a)
				}
			}
		}
		return l
	}
	all := true
	for _, k := range []struct {
		desc, tag string
		ops       []string
	}{{"the files removed are the ones specified", "state:rm", []string{"arm"}},
		{"the commands run are the ones specified", "state:run", []string{"arun"}},
		{"the files written are the ones specified", "state:made", []string{"acreate", "amade"}}} {
		tags := []string{k.tag}
		if failing && k.tag != "state:rm" {
			tags = append(tags, "error")
		}
		all = st.oblige(kind, k.desc, Eq(sub(a1, k.ops...), sub(a2, k.ops...)), tags...) && all
	}
	if all {
		st.oblige(kind, "what is done is done in the order specified", Eq(now, want), "state:rm", "state:run", "state:made")
	}
}

func tagsOfHead(h string) []string {
	switch h {
	case "RML":
		return []string{"state:rm"}
	case "LDIR", "LLIB":
		return []string{"state:run"}
	}
	return nil
}

// cellTag tells what a variable of a loop matters for.
func cellTag(x *Sexp) string {
	switch x.A {
	case "?tm":
		return "state:rm"
	case "?ci", "?a":
		return "state:run"
	}
	return "value"
}

// ---- closures ----

// closureWrites tells whether a closure may store to the k-th variable it captures.
func (st *State) closureWrites(c FuncV, k int) bool {
	fn, ok := c.Fn.(*ssa.Function)
	if !ok || k >= len(fn.FreeVars) {
		return true
	}
	return writesFree(fn, fn.FreeVars[k])
}

func writesFree(fn *ssa.Function, fv ssa.Value) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			uses := false
			for _, op := range ins.Operands(nil) {
				if *op == fv {
					uses = true
				}
			}
			if !uses {
				continue
			}
			switch x := ins.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				g := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == fv && writesFree(g, g.FreeVars[i]) {
						return true
					}
				}
			default:
				return true
			}
		}
	}
	return false
}

// storesType tells whether a function, or one it may call, stores to a struct of the
// named type that is not a variable of its own.
func storesType(fn *ssa.Function, name string) bool {
	seen := map[*ssa.Function]bool{}
	isT := func(t types.Type) bool {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := types.Unalias(t).(*types.Named)
		return ok && n.Obj().Name() == name
	}
	var walk func(fn *ssa.Function) bool
	walk = func(fn *ssa.Function) bool {
		if seen[fn] {
			return false
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if x, ok := ins.(*ssa.Store); ok {
					v := x.Addr
					for hit := false; ; {
						if isT(v.Type()) {
							hit = true
						}
						if a, ok := v.(*ssa.FieldAddr); ok {
							v = a.X
							continue
						}
						if a, ok := v.(*ssa.IndexAddr); ok {
							v = a.X
							if ld, ok := v.(*ssa.UnOp); ok {
								v = ld.X
							}
							continue
						}
						if _, own := v.(*ssa.Alloc); hit && !own {
							return true
						}
						break
					}
				}
				if c, ok := ins.(ssa.CallInstruction); ok {
					for _, a := range c.Common().Args {
						// the address of a field leaves the function
						if f, ok := a.(*ssa.FieldAddr); ok && isT(f.X.Type()) {
							return true
						}
					}
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g.Pkg != nil && g.Pkg == fn.Pkg && walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(fn)
}

// ---- strings ----

// pieces is the text Sprintf makes.
func (st *State) pieces(f string, vs []Val) *Term {
	t := strLit("")
	lit := ""
	flush := func() {
		t = mk("strcat", t, strLit(lit))
		lit = ""
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if len(vs) == 0 {
			return nil
		}
		v, ok := unIface(vs[0]).(*Term)
		vs = vs[1:]
		if !ok {
			return nil
		}
		v = st.F.norm(v)
		switch {
		case (f[i] == 's' || f[i] == 'v') && v.S == listSort(BV8):
			flush()
			t = mk("strcat", t, v)
		case (f[i] == 'd' || f[i] == 'v') && v.S == BV64:
			flush()
			t = mk("strcat", t, mk("fmtd", strLit("%d"), v))
		default:
			return nil
		}
	}
	if len(vs) != 0 {
		return nil
	}
	flush()
	return st.F.norm(t)
}

func (st *State) str(v Val) *Term {
	t, ok := termOf(unIface(v), listSort(BV8))
	if !ok {
		bail("string %s", show(v))
	}
	return st.F.norm(t)
}

func (st *State) strs(v Val) *Term {
	if isNilVal(v) {
		return mk("nil_L_bv8")
	}
	t, ok := termOf(v, listSort(listSort(BV8)))
	if !ok {
		bail("list of strings %s", show(v))
	}
	return st.F.norm(t)
}

// ext is the extension of a file name.
func (st *State) ext(f *Term) *Term {
	t := mk("fext", f)
	if f.Op == "fbase" {
		in := mk("fext", f.Args[0])
		st.F.assume(Or(Eq(in, strLit("")), Eq(t, in)))
	}
	return st.F.norm(t)
}

// ---- calls ----

// outcome continues with both outcomes of an operation.
func (st *State) outcome(what string, ok *Term, yes, no func(s *State)) ([]*State, bool, bool) {
	out := []*State{}
	for i, c := range []*Term{ok, Not(ok)} {
		n := st.feasibleWith(c)
		if n == nil {
			continue
		}
		n.note("%s: %s %s", st.pos(), what, []string{"succeeds", "fails"}[i])
		g := yes
		if i == 1 {
			g = no
		}
		if n.protect(func() bool { g(n); return false }) {
			continue
		}
		out = append(out, n)
	}
	return out, true, true
}

type outFile struct{ f *Term }
type compUnit struct{ id int }

// driverCall: functions of the compiler the driver calls.
func (st *State) driverCall(fn *ssa.Function, args []Val, finish func(*State, Val)) ([]*State, bool, bool) {
	opts := func(v Val) {
		e := env{}
		st.driverEnv("a", v, e)
		st.oblige("precondition", "words have 8 bytes", Eq(e["a.WordSize"], bv(64, 8)), "pre")
		st.oblige("precondition", "the prefix of global names is set", Eq(e["a.GlobalPrefix"], strLit("b.")), "pre")
	}
	name := cname(fn)
	if name == "" {
		name = fn.Name()
	}
	switch name {
	case "NewCompiler", "NewLexer", "ParseDeclarations":
		if storesType(fn, "CompileOptions") {
			st.fail("frame", name+" leaves the options as they are", "frame")
		}
	}
	switch name {
	case "NewCompiler":
		opts(args[0])
		st.next++
		finish(st, Opaque{Kind: "compiler", Arg: st.next})
		return nil, false, true
	case "NewLexer":
		opts(args[0])
		o, ok := unIface(args[1]).(Opaque)
		if !ok || o.Kind != "infile" {
			bail("source %s", show(args[1]))
		}
		finish(st, Opaque{Kind: "lexer", Arg: o.Arg})
		return nil, false, true
	case "ParseDeclarations":
		l, ok := args[0].(Opaque)
		c, ok2 := args[1].(Opaque)
		if !ok || !ok2 || l.Kind != "lexer" || c.Kind != "compiler" {
			bail("call of ParseDeclarations")
		}
		k := "src:" + itoa(c.Arg.(int))
		if st.meta[k] != nil {
			st.fail("precondition", "each source has a compiler of its own", "pre")
			return nil, true, true
		}
		st.meta[k] = True // not again, whatever the outcome
		return st.outcome("parsing", mk("okparse", st.tick()),
			func(s *State) { s.meta[k] = l.Arg; finish(s, mk("enil")) },
			func(s *State) { finish(s, s.freshErr()) })
	case "GetModule":
		if c, ok := args[0].(Opaque); ok && c.Kind == "compiler" {
			finish(st, Opaque{Kind: "module", Arg: c.Arg})
			return nil, false, true
		}
	}
	return nil, false, false
}

// module is the source of which a module is the translation.
func (st *State) module(v Val, kind string) *Term {
	o, ok := unIface(v).(Opaque)
	if !ok || o.Kind != kind {
		bail("text %s", show(v))
	}
	t, ok := st.meta["src:"+itoa(o.Arg.(int))].(*Term)
	if !ok || t == True {
		st.fail("postcondition", "output is written of a source that has been compiled", "state:made", "error")
		panic(pathEnd{})
	}
	return t
}

func (st *State) printed(format string, vs []Val) {
	st.meta["printed"] = True
	if !strings.Contains(format, "generated") {
		return
	}
	// an output is reported as made: it is, and the command that makes it succeeded
	st.oblige("postcondition", "an output reported as made has been made", boolT(len(vs) == 1 && st.made(vs[0])), "error")
}

func (st *State) made(v Val) bool {
	t, ok := termOf(unIface(v), listSort(BV8))
	if !ok {
		return false
	}
	ms, _ := st.meta["made"].([]*Term)
	for _, m := range ms {
		if st.F.prove(Eq(m, t)).OK {
			return true
		}
	}
	return false
}

// nowMade: a file has been written and closed, or the command that makes it succeeded.
func (st *State) nowMade(f *Term) {
	ms, _ := st.meta["made"].([]*Term)
	st.meta["made"] = append(append([]*Term(nil), ms...), f)
}

func (st *State) ranWith(l *Term) {
	for isSnoc(l) && isSnoc(l.Args[0]) {
		if o, ok := litStr(l.Args[0].Args[1]); ok && o == "-o" {
			st.nowMade(l.Args[1])
		}
		l = l.Args[0]
	}
}

func (st *State) driverExtern(name string, fn *ssa.Function, com *ssa.CallCommon, args []Val, finish func(*State, Val)) ([]*State, bool, bool) {
	if !st.driving() {
		return nil, false, false
	}
	one := func(v Val) ([]*State, bool, bool) { finish(st, v); return nil, false, true }
	errOnly := func(what string, ok *Term, then func(s *State)) ([]*State, bool, bool) {
		return st.outcome(what, ok, func(s *State) { then(s); finish(s, mk("enil")) },
			func(s *State) { finish(s, s.freshErr()) })
	}
	switch name {
	case "os.Open":
		f := st.str(args[0])
		return st.outcome("opening", mk("okopen", st.tick(), f),
			func(s *State) { finish(s, TupleV{[]Val{Opaque{Kind: "infile", Arg: f}, mk("enil")}}) },
			func(s *State) { finish(s, TupleV{[]Val{NilV{}, s.freshErr()}}) })
	case "os.Create":
		f := st.str(args[0])
		return st.outcome("creating", mk("okcreate", st.tick()),
			func(s *State) {
				s.act("acreate", f)
				finish(s, TupleV{[]Val{Opaque{Kind: "outfile", Arg: f}, mk("enil")}})
			},
			func(s *State) { finish(s, TupleV{[]Val{NilV{}, s.freshErr()}}) })
	case "(*os.File).Close":
		switch o := args[0].(type) {
		case Opaque:
			if o.Kind == "infile" {
				return st.outcome("closing", fresh("closed", Bool), func(s *State) { finish(s, mk("enil")) }, func(s *State) { finish(s, s.freshErr()) })
			}
			if o.Kind == "outfile" {
				return errOnly("closing", mk("okclose", st.tick()), func(s *State) { s.nowMade(o.Arg.(*Term)) })
			}
		case NilV:
			return one(st.freshErr())
		}
	case "(*os.File).WriteString", "io.WriteString", "(*os.File).Write":
		if o, ok := unIface(args[0]).(Opaque); ok && o.Kind == "outfile" {
			src := st.module(args[1], "moduletext")
			return st.write(src, o.Arg.(*Term), finish)
		}
		if st.isStd(args[0]) {
			st.printed("", nil)
			return one(TupleV{[]Val{fresh("n", BV64), fresh("err", "Err")}})
		}
	case "os.WriteFile":
		f, src := st.str(args[0]), st.module(args[1], "moduletext")
		fail := func(s *State) { finish(s, s.freshErr()) }
		var out []*State
		then := func(s *State, what, ok string, yes func(*State)) {
			o, _, _ := s.outcome(what, mk(ok, s.tick()), yes, fail)
			out = append(out, o...)
		}
		then(st, "creating", "okcreate", func(s *State) {
			s.act("acreate", f)
			then(s, "writing", "okwrite", func(s *State) {
				s.act("amade", src, f)
				then(s, "closing", "okclose", func(s *State) { s.nowMade(f); finish(s, mk("enil")) })
				panic(pathEnd{})
			})
			panic(pathEnd{})
		})
		return out, true, true
	case "(*" + llir + ".Module).String":
		if o, ok := args[0].(Opaque); ok && o.Kind == "module" {
			return one(Opaque{Kind: "moduletext", Arg: o.Arg})
		}
	case "(*" + llir + ".Module).WriteTo":
		if o, ok := unIface(args[1]).(Opaque); ok && o.Kind == "outfile" {
			return st.write(st.module(args[0], "module"), o.Arg.(*Term), finish)
		}
	case "os.Remove":
		st.act("arm", st.str(args[0]))
		return one(fresh("err", "Err"))
	case "os.Stat":
		f := st.str(args[0])
		return st.outcome("examining", mk("okstat", f),
			func(s *State) { finish(s, TupleV{[]Val{Opaque{Kind: "fileinfo", Arg: f}, mk("enil")}}) },
			func(s *State) { finish(s, TupleV{[]Val{NilV{}, s.freshErr()}}) })
	case "os.Getenv":
		return one(st.F.norm(mk("getenv", st.str(args[0]))))
	case "os.Exit":
		if st.G["X"] == nil {
			st.fail("postcondition", "only the main function ends the program", "error")
			return nil, true, true
		}
		c := st.F.norm(st.term(args[0]))
		st.G["X"] = c
		if c != bv(64, 0) && st.meta["printed"] == nil {
			st.oblige("postcondition", "an error is printed before the program ends", Eq(c, bv(64, 0)), "error")
		}
		st.checkReturn(nil)
		return nil, true, true
	case "os/exec.Command":
		p := st.str(args[0])
		st.oblige("postcondition", "the backend is clang", Eq(p, strLit("clang")), "state:run")
		return one(Opaque{Kind: "cmd", Arg: st.strs(args[1])})
	case "(*os/exec.Cmd).String":
		return one(fresh("cmdtext", listSort(BV8)))
	case "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput":
		o, ok := args[0].(Opaque)
		if !ok || o.Kind != "cmd" {
			break
		}
		ok2 := mk("okrun", st.tick())
		st.act("arun", o.Arg.(*Term))
		if fn.Name() == "Run" {
			return errOnly("running", ok2, func(s *State) { s.ranWith(o.Arg.(*Term)) })
		}
		return st.outcome("running", ok2,
			func(s *State) {
				s.ranWith(o.Arg.(*Term))
				finish(s, TupleV{[]Val{SliceV{L: fresh("out", listSort(BV8))}, mk("enil")}})
			},
			func(s *State) {
				finish(s, TupleV{[]Val{SliceV{L: fresh("out", listSort(BV8))}, s.freshErr()}})
			})
	case "path/filepath.Ext", "path.Ext":
		return one(st.ext(st.str(args[0])))
	case "path/filepath.Base", "path.Base":
		return one(st.F.norm(mk("fbase", st.str(args[0]))))
	case "path/filepath.Join":
		l := st.strs(args[0])
		if isSnoc(l) && isSnoc(l.Args[0]) && isNilList(l.Args[0].Args[0]) {
			return one(st.F.norm(mk("fjoin", l.Args[0].Args[1], l.Args[1])))
		}
	case "strings.HasSuffix":
		s, x := st.str(args[0]), st.str(args[1])
		if l, ok := litStr(x); ok && len(l) > 1 && l[0] == '.' && !strings.ContainsAny(l[1:], "./") {
			return one(st.F.norm(Eq(st.ext(s), x)))
		}
		return one(fresh("hassuffix", Bool))
	case "strings.TrimSuffix":
		return one(st.F.norm(mk("ftrim", st.str(args[0]), st.str(args[1]))))
	case "strconv.Itoa":
		return one(st.F.norm(mk("fmtd", strLit("%d"), st.term(args[0]))))
	case "fmt.Printf":
		f, _ := litStr(st.F.norm(st.str(args[0])))
		st.printed(f, st.vecOr(args[1]))
		return one(TupleV{[]Val{fresh("n", BV64), fresh("err", "Err")}})
	case "fmt.Fprintf":
		f, _ := litStr(st.F.norm(st.str(args[1])))
		if o, ok := unIface(args[0]).(Opaque); ok && o.Kind == "outfile" {
			vs := st.vecOr(args[2])
			if f == "%s" && len(vs) == 1 {
				return st.write(st.module(vs[0], "moduletext"), o.Arg.(*Term), finish)
			}
			bail("text written to a file")
		}
		st.printed(f, st.vecOr(args[2]))
		return one(TupleV{[]Val{fresh("n", BV64), fresh("err", "Err")}})
	case "fmt.Println", "fmt.Print":
		st.printed("", nil)
		return one(TupleV{[]Val{fresh("n", BV64), fresh("err", "Err")}})
	case "fmt.Fprintln", "fmt.Fprint":
		if !st.isStd(args[0]) {
			bail("text written to a file")
		}
		st.printed("", nil)
		return one(TupleV{[]Val{fresh("n", BV64), fresh("err", "Err")}})
	}
	const pf = "github.com/spf13/pflag."
	if strings.HasPrefix(name, pf) {
		return st.pflag(name[len(pf):], args, finish)
	}
	if strings.Contains(name, "github.com/fatih/color") {
		switch n := fn.Name(); {
		case n == "New" || n == "Add":
			return one(Opaque{Kind: "color"})
		case strings.HasPrefix(n, "Fprint"), strings.HasPrefix(n, "Print"):
			st.printed("", nil)
			return one(TupleV{[]Val{fresh("n", BV64), fresh("err", "Err")}})
		case strings.HasPrefix(n, "Sprint"):
			return one(fresh("text", listSort(BV8)))
		}
	}
	return nil, false, false
}

func (st *State) isStd(v Val) bool {
	o, ok := unIface(v).(Opaque)
	return ok && o.Kind == "std"
}

func (st *State) write(src, f *Term, finish func(*State, Val)) ([]*State, bool, bool) {
	return st.outcome("writing", mk("okwrite", st.tick()),
		func(s *State) {
			s.act("amade", src, f)
			finish(s, TupleV{[]Val{fresh("n", BV64), mk("enil")}})
		},
		func(s *State) {
			finish(s, TupleV{[]Val{fresh("n", BV64), s.freshErr()}})
		})
}

// ---- the command line ----

type flagVar struct {
	p Val
	v Val
}

func (st *State) pflag(name string, args []Val, finish func(*State, Val)) ([]*State, bool, bool) {
	one := func(v Val) ([]*State, bool, bool) { finish(st, v); return nil, false, true }
	reg := func(p, def, val Val) ([]*State, bool, bool) {
		st.store(p, def)
		fs, _ := st.meta["flags"].([]flagVar)
		st.meta["flags"] = append(append([]flagVar(nil), fs...), flagVar{p, val})
		return one(nil)
	}
	none := strLit("")
	switch name {
	case "StringVarP":
		d := st.str(args[3])
		return reg(args[0], d, st.F.norm(mk("fstr", st.str(args[1]), st.str(args[2]), d)))
	case "StringVar":
		d := st.str(args[2])
		return reg(args[0], d, st.F.norm(mk("fstr", st.str(args[1]), none, d)))
	case "BoolVarP":
		d := st.term(args[3])
		return reg(args[0], d, st.F.norm(mk("fbool", st.str(args[1]), st.str(args[2]), d)))
	case "BoolVar":
		d := st.term(args[2])
		return reg(args[0], d, st.F.norm(mk("fbool", st.str(args[1]), none, d)))
	case "StringSliceVarP":
		if d := st.strs(args[3]); !isNilList(d) {
			bail("default %s", d)
		}
		return reg(args[0], SliceV{L: mk("nil_L_bv8")}, SliceV{L: mk("flist", st.str(args[1]), st.str(args[2]))})
	case "Parse":
		fs, _ := st.meta["flags"].([]flagVar)
		for _, f := range fs {
			st.store(f.p, f.v)
		}
		st.meta["parsed"] = True
		return one(nil)
	case "Args":
		if st.meta["parsed"] == nil {
			bail("arguments before the command line is parsed")
		}
		return one(SliceV{L: mk("pargs", bv(64, 0))})
	case "NArg":
		return one(st.listLen(mk("pargs", bv(64, 0))))
	case "PrintDefaults":
		st.meta["printed"] = True
		return one(nil)
	}
	return nil, false, false
}

func (st *State) driverParam(name string, p *ssa.Parameter) Val { return nil }
func (st *State) driverOption(f string) Val                     { return nil }
func (st *State) driverLoad(p GhostPtr) Val                     { return nil }

// driverStore: where a command writes what it prints does not matter.
func (st *State) driverStore(p GhostPtr, v Val) bool {
	if !st.driving() {
		return false
	}
	switch {
	case p.Kind == "global" && strings.HasPrefix(p.Field, "github.com/spf13/pflag."):
		return true
	case p.Kind == "Cmd" && (p.Field == "Stdout" || p.Field == "Stderr" || p.Field == "Stdin"):
		return true
	}
	return false
}

func (st *State) driverGlobal(name string) Val {
	if !st.driving() {
		return nil
	}
	switch name {
	case "os.Stderr", "os.Stdout", "os.Stdin":
		return Opaque{Kind: "std"}
	case "os.Args":
		return SliceV{L: mk("osargs", bv(64, 0))}
	}
	return nil
}

func (st *State) driverLookup(x *ssa.Lookup, m, key Val) (Val, bool)   { return nil, false }
func (st *State) driverMapUpdate(x *ssa.MapUpdate, m, key, v Val) bool { return false }

func (st *State) driverInvoke(com *ssa.CallCommon, fnv Val, args []Val, finish func(*State, Val)) ([]*State, bool, bool) {
	if !st.driving() {
		return nil, false, false
	}
	if o, ok := unIface(fnv).(Opaque); ok && o.Kind == "fileinfo" && com.Method.Name() == "IsDir" {
		finish(st, st.F.norm(mk("isdir", o.Arg.(*Term))))
		return nil, false, true
	}
	return nil, false, false
}

package main

// The specification language: datatypes, functions, contracts and loop
// invariants, read from gover/spec/*.spec.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

type Case struct {
	Ctor string // "" = default
	Vars []string
	Do   []*Sexp // (ret ...), (set x t), (assume t), (requires t) ...
}

type Contract struct {
	Fn     string
	Params []string
	Guide  *Sexp // what the loops are matched with when there is no scrutinee
	Match  *Sexp // scrutinee, nil = unconditional
	Cases  []Case
	Req    []*Sexp
	Props  []string
	Trust  bool
	Lemmas []*Sexp
	Opts   map[string]bool
	Opts2  map[string]string
	Src    *Sexp
}

type LoopInv struct {
	Fn      string
	Name    string
	Pat     *Sexp
	Cells   []*Sexp
	Side    []*Sexp
	Keep    []string
	Term    []*Sexp // facts about lengths, for termination
	Measure *Sexp
	Flag    *Sexp // what a variable that is true at first says, if there is one
	Join    bool // paths that come to the loop go on as one
}

type Lemma struct {
	Name string
	Vars []*Term
	Body *Term
	On   string // structural induction variable
	Use  []*Sexp
}

var (
	contracts = map[string]*Contract{}
	loopInvs  = map[string][]*LoopInv{}
	lemmas    []*Lemma
	consts    = map[string]*Term{}
	specText  []string
	propSpecs []*Sexp
)

type env map[string]*Term

func (e env) with(k string, v *Term) env {
	n := env{}
	for a, b := range e {
		n[a] = b
	}
	n[k] = v
	return n
}

func loadSpecs(dir string) error {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	initBuiltinSpec()
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		xs, err := parseSexps(string(b))
		if err != nil {
			return fmt.Errorf("%s: %v", f, err)
		}
		// declare signatures first so that functions can be mutually recursive
		for _, x := range xs {
			if x.head() == "datatypes" || x.head() == "datatype" || x.head() == "sort" {
				if err := loadItem(x); err != nil {
					return fmt.Errorf("%s:%d: %v", f, x.Line, err)
				}
			}
		}
		for _, x := range xs {
			if x.head() == "defrec" {
				declSig(x, true)
			}
			if x.head() == "fun" {
				if err := loadItem(x); err != nil {
					return fmt.Errorf("%s:%d: %v", f, x.Line, err)
				}
			}
		}
		for _, x := range xs {
			switch x.head() {
			case "datatypes", "datatype", "sort", "fun":
				continue
			}
			if err := loadItem(x); err != nil {
				return fmt.Errorf("%s:%d: %v", f, x.Line, err)
			}
		}
	}
	return nil
}

func paramList(x *Sexp) (names []string, sorts []string) {
	for _, p := range x.L {
		names = append(names, p.L[0].A)
		sorts = append(sorts, sexpSort(p.L[1]))
	}
	return
}

func declSig(x *Sexp, rec bool) *Fun {
	name := x.L[1].A
	names, sorts := paramList(x.L[2])
	f := &Fun{Name: name, Sorts: sorts, Ret: sexpSort(x.L[3]), Rec: rec}
	for i := range names {
		f.Params = append(f.Params, hc("%"+name+"."+names[i], sorts[i], 0))
	}
	if _, dup := sig.Funs[name]; dup {
		panic("duplicate function " + name)
	}
	sig.Funs[name] = f
	if rec {
		sig.FunOrder = append(sig.FunOrder, name)
	}
	return f
}

func loadItem(x *Sexp) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok {
				err = fmt.Errorf("%s", s)
				return
			}
			panic(r)
		}
	}()
	switch x.head() {
	case "sort":
		sig.USorts = append(sig.USorts, x.L[1].A)
	case "datatype":
		loadDT([]*Sexp{{List: true, L: x.L[1:]}})
	case "datatypes":
		loadDT(x.L[1:])
	case "fun":
		_, sorts := paramList(x.L[2])
		sig.declFun(x.L[1].A, sorts, sexpSort(x.L[3]))
	case "def":
		f := declSig(x, false)
		e := env{}
		for i, p := range f.Params {
			e[x.L[2].L[i].L[0].A] = p
		}
		b := elab(x.L[4], e, f.Ret)
		if b.S != f.Ret {
			return fmt.Errorf("%s: body has sort %s, want %s", f.Name, b.S, f.Ret)
		}
		f.Body = b
	case "defrec":
		f := sig.Funs[x.L[1].A]
		e := env{}
		for i, p := range f.Params {
			e[x.L[2].L[i].L[0].A] = p
		}
		b := elab(x.L[4], e, f.Ret)
		if b.S != f.Ret {
			return fmt.Errorf("%s: body has sort %s, want %s", f.Name, b.S, f.Ret)
		}
		f.Body = b
	case "const":
		consts[x.L[1].A] = sym(x.L[1].A, sexpSort(x.L[2]))
	case "contract":
		loadContract(x)
	case "loop":
		l := &LoopInv{Fn: x.L[1].A}
		for _, y := range x.L[2:] {
			switch y.head() {
			case "inv":
				l.Pat = y.L[1]
			case "cell", "world", "freshworld", "ghost", "code", "swcases", "param":
				l.Cells = append(l.Cells, y)
			case "name":
				l.Name = y.L[1].A
			case "keep":
				for _, v := range y.L[1:] {
					l.Keep = append(l.Keep, v.A)
				}
			case "term":
				l.Term = append(l.Term, y.L[1])
			case "flag":
				l.Flag = y.L[1]
			case "join":
				l.Join = true
			case "measure":
				l.Measure = y.L[1]
			case "side":
				l.Side = append(l.Side, y.L[1])
			default:
				return fmt.Errorf("loop: unknown clause %s", y)
			}
		}
		loopInvs[l.Fn] = append(loopInvs[l.Fn], l)
	case "flow":
		return loadFlow(x)
	case "lemma":
		l := &Lemma{Name: x.L[1].A}
		names, sorts := paramList(x.L[2])
		e := env{}
		for i := range names {
			v := sym("!"+l.Name+"."+names[i], sorts[i])
			l.Vars = append(l.Vars, v)
			e[names[i]] = v
		}
		l.Body = elab(x.L[3], e, Bool)
		for _, y := range x.L[4:] {
			if y.head() == "induction" {
				l.On = y.L[1].A
			} else {
				l.Use = append(l.Use, y)
			}
		}
		lemmas = append(lemmas, l)
	case "property":
		propSpecs = append(propSpecs, x)
	default:
		return fmt.Errorf("unknown item %s", x.head())
	}
	return nil
}

func loadDT(xs []*Sexp) {
	// two passes so that the sorts may be mutually recursive
	for _, x := range xs {
		n := x.L[0].A
		sig.DT = append(sig.DT, n)
		sig.Order = append(sig.Order, n)
		sig.Ctors[n] = nil
	}
	for _, x := range xs {
		n := x.L[0].A
		for _, c := range x.L[1:] {
			k := &Ctor{Sort: n}
			if !c.List {
				k.Name = c.A
			} else {
				k.Name = c.L[0].A
				for _, f := range c.L[1:] {
					k.Sels = append(k.Sels, f.L[0].A)
					k.Sorts = append(k.Sorts, sexpSort(f.L[1]))
				}
			}
			if sig.Ctor[k.Name] != nil {
				panic("duplicate constructor " + k.Name)
			}
			sig.Ctors[n] = append(sig.Ctors[n], k)
			sig.Ctor[k.Name] = k
			for i, s := range k.Sels {
				if sig.Sel[s] != nil {
					panic("duplicate selector " + s)
				}
				sig.Sel[s] = &SelInfo{k, i}
			}
		}
	}
}

func loadContract(x *Sexp) {
	c := &Contract{Fn: x.L[1].A, Src: x, Opts: map[string]bool{}, Opts2: map[string]string{}}
	for _, p := range x.L[2].L {
		c.Params = append(c.Params, p.A)
	}
	for _, y := range x.L[3:] {
		switch y.head() {
		case "match":
			c.Match = y.L[1]
			for _, z := range y.L[2:] {
				k := Case{Do: z.L[1:]}
				h := z.L[0]
				if h.List {
					k.Ctor = h.L[0].A
					for _, v := range h.L[1:] {
						k.Vars = append(k.Vars, v.A)
					}
				} else if h.A != "_" {
					k.Ctor = h.A
				}
				c.Cases = append(c.Cases, k)
			}
		case "do":
			c.Cases = append(c.Cases, Case{Do: y.L[1:]})
		case "guide":
			c.Guide = y.L[1]
		case "requires":
			c.Req = append(c.Req, y.L[1])
		case "trusted":
			c.Trust = true
		case "opt":
			for _, o := range y.L[1:] {
				if k, v, ok := strings.Cut(o.A, "="); ok {
					c.Opts2[k] = v
					continue
				}
				c.Opts[o.A] = true
			}
		default:
			panic("contract: unknown clause " + y.String())
		}
	}
	contracts[c.Fn] = c
}

// ---- elaboration of terms ----

var smtAbbrev = map[string]string{
	"+": "bvadd", "-": "bvsub", "*": "bvmul", "<": "bvslt", "<=": "bvsle", ">": "bvsgt", ">=": "bvsge",
	"u<": "bvult", "u<=": "bvule", "&": "bvand", "|": "bvor",
}

func elab(x *Sexp, e env, want string) *Term {
	if !x.List {
		if x.Quoted {
			return strLit(x.A)
		}
		a := x.A
		if t, ok := e[a]; ok {
			return t
		}
		if t, ok := consts[a]; ok {
			return t
		}
		if a == "true" {
			return True
		}
		if a == "false" {
			return False
		}
		if a[0] == '\'' && len(a) >= 3 {
			r := []rune(a[1 : len(a)-1])
			ch := uint64(r[0])
			if a[1] == '\\' {
				switch r[1] {
				case 'n':
					ch = 10
				case 't':
					ch = 9
				case 'r':
					ch = 13
				case '0':
					ch = 0
				default:
					ch = uint64(r[1])
				}
			}
			w := 8
			if bvWidth(want) != 0 {
				w = bvWidth(want)
			}
			return bv(w, ch)
		}
		if a[0] >= '0' && a[0] <= '9' || a[0] == '-' && len(a) > 1 {
			n, err := strconv.ParseInt(a, 0, 64)
			if err != nil {
				panic("bad number " + a)
			}
			w := 64
			if bvWidth(want) != 0 {
				w = bvWidth(want)
			}
			if want == "Int" {
				return hc(fmt.Sprint(n), "Int", 0)
			}
			return bv(w, uint64(n))
		}
		if strings.HasPrefix(a, "nil:") {
			s, _ := parseSexps(a[4:])
			return mk("nil_" + sortKey(sexpSort(s[0])))
		}
		if _, ok := sig.Ctor[a]; ok {
			return mk(a)
		}
		if f, ok := sig.Funs[a]; ok && len(f.Sorts) == 0 {
			return mk(a)
		}
		panic(fmt.Sprintf("line %d: unknown name %s", x.Line, a))
	}
	if len(x.L) == 0 {
		panic("empty expression")
	}
	h := x.head()
	args := x.L[1:]
	switch h {
	case "let":
		ne := e
		for _, b := range args[0].L {
			ne = ne.with(b.L[0].A, elab(b.L[1], ne, ""))
		}
		return elab(args[1], ne, want)
	case "match":
		return elabMatch(x, e, want)
	case "cond":
		var build func(i int) *Term
		build = func(i int) *Term {
			c := args[i]
			if c.L[0].A == "else" {
				return elab(c.L[1], e, want)
			}
			r := elab(c.L[1], e, want)
			return Ite(elab(c.L[0], e, Bool), r, build(i+1))
		}
		return build(0)
	case "ite":
		a := elab(args[1], e, want)
		return Ite(elab(args[0], e, Bool), a, elab(args[2], e, a.S))
	case "in": // (in c 'a' 'b' ...)
		c := elab(args[0], e, "")
		var os []*Term
		for _, y := range args[1:] {
			os = append(os, Eq(c, elab(y, e, c.S)))
		}
		return Or(os...)
	case "list": // (list SORT a b ...)
		s := sexpSort(args[0])
		listSort(s)
		t := mk("nil_" + sortKey(s))
		for _, y := range args[1:] {
			t = mk("snoc_"+sortKey(s), t, elab(y, e, s))
		}
		return t
	case "none":
		s := sexpSort(args[0])
		optSort(s)
		return mk("none_" + sortKey(s))
	case "some":
		a := elab(args[0], e, "")
		optSort(a.S)
		return mk("some_"+sortKey(a.S), a)
	case "is-some", "is-none", "the":
		a := elab(args[0], e, "")
		k := optKey(a.S)
		if h == "the" {
			return mk("val_"+k, a)
		}
		return mk("is-"+h[3:]+"_"+k, a)
	case "snoc", "nth", "take", "len", "init", "last", "is-snoc", "is-nil":
		a := elab(args[0], e, "")
		el, ok := listElem[a.S]
		if !ok {
			panic(fmt.Sprintf("line %d: %s of %s : %s", x.Line, h, a, a.S))
		}
		k := sortKey(el)
		if h == "is-snoc" || h == "is-nil" {
			return mk("is-"+h[3:]+"_"+k, a)
		}
		as := []*Term{a}
		for _, y := range args[1:] {
			w := BV64
			if h == "snoc" {
				w = el
			}
			as = append(as, elab(y, e, w))
		}
		return mk(h+"_"+k, as...)
	case "tuple":
		var ts []*Term
		var ss []string
		for _, y := range args {
			t := elab(y, e, "")
			ts = append(ts, t)
			ss = append(ss, t.S)
		}
		s := tupleSort(ss)
		return mk(sig.Ctors[s][0].Name, ts...)
	case "proj":
		i, _ := strconv.Atoi(args[0].A)
		t := elab(args[1], e, "")
		return mk(sig.Ctors[t.S][0].Sels[i], t)
	case "emptymap": // (emptymap K V)
		k, v := sexpSort(args[0]), sexpSort(args[1])
		var d *Term
		if v == Bool {
			d = False
		} else {
			d = mk(sig.Ctors[v][0].Name)
		}
		return mk("(as const "+arraySort(k, v)+")", d)
	case "zext", "sext", "trunc":
		n, _ := strconv.Atoi(args[0].A)
		a := elab(args[1], e, "")
		w := bvWidth(a.S)
		switch h {
		case "zext":
			return mk(fmt.Sprintf("(_ zero_extend %d)", n-w), a)
		case "sext":
			return mk(fmt.Sprintf("(_ sign_extend %d)", n-w), a)
		}
		return mk(fmt.Sprintf("(_ extract %d 0)", n-1), a)
	case "bv":
		n, _ := strconv.Atoi(args[0].A)
		v, _ := strconv.ParseInt(args[1].A, 0, 64)
		return bv(n, uint64(v))
	case "upd": // (upd rec sel value ...): record update
		r := elab(args[0], e, "")
		cs := sig.Ctors[r.S]
		if len(cs) != 1 {
			panic("upd of " + r.S)
		}
		fs := make([]*Term, len(cs[0].Sels))
		for i, s := range cs[0].Sels {
			fs[i] = mk(s, r)
		}
		for i := 1; i+1 < len(args); i += 2 {
			si, ok := sig.Sel[args[i].A]
			if !ok || si.C != cs[0] {
				panic("upd: no field " + args[i].A)
			}
			fs[si.Idx] = elab(args[i+1], e, cs[0].Sorts[si.Idx])
		}
		return mk(cs[0].Name, fs...)
	}
	if a, ok := smtAbbrev[h]; ok {
		h = a
	}
	var sorts []string
	if c, ok := sig.Ctor[h]; ok {
		sorts = c.Sorts
	} else if f, ok := sig.Funs[h]; ok {
		sorts = f.Sorts
	} else if si, ok := sig.Sel[h]; ok {
		sorts = []string{si.C.Sort}
	}
	var ts []*Term
	binop := strings.HasPrefix(h, "bv") || h == "=" || h == "distinct"
	for i, y := range args {
		w := ""
		if sorts != nil {
			if i >= len(sorts) {
				panic(fmt.Sprintf("line %d: too many arguments of %s", x.Line, h))
			}
			w = sorts[i]
		}
		if binop && i > 0 {
			w = ts[0].S
		}
		if binop && i == 0 && !y.List && len(args) > 1 && (y.A[0] == '\'' || y.A[0] >= '0' && y.A[0] <= '9') {
			w = elab(args[1], e, "").S
		}
		if h == "select" && i == 1 || h == "store" && i >= 1 {
			k, v := arrayParts(ts[0].S)
			w = k
			if i == 2 {
				w = v
			}
		}
		ts = append(ts, elab(y, e, w))
	}
	if sorts != nil && len(ts) != len(sorts) {
		panic(fmt.Sprintf("line %d: arity of %s", x.Line, h))
	}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok && !strings.HasPrefix(s, "line") {
				panic(fmt.Sprintf("line %d: %s", x.Line, s))
			}
			panic(r)
		}
	}()
	return mk(h, ts...)
}

func optKey(s string) string {
	for _, c := range sig.Ctors[s] {
		if strings.HasPrefix(c.Name, "some_") {
			return c.Name[5:]
		}
	}
	panic("not an option sort: " + s)
}

// resolveCtor maps the generic names some/none/snoc/nil/tuple to those of a sort.
func resolveCtor(n, s string) *Ctor {
	for _, c := range sig.Ctors[s] {
		if c.Name == n || strings.HasPrefix(c.Name, n+"_") && (n == "some" || n == "none" || n == "snoc" || n == "nil") || n == "tuple" {
			return c
		}
	}
	panic("no constructor " + n + " in sort " + s)
}

func elabMatch(x *Sexp, e env, want string) *Term {
	t := elab(x.L[1], e, "")
	if _, ok := sig.Ctors[t.S]; !ok {
		panic(fmt.Sprintf("line %d: match on %s", x.Line, t.S))
	}
	cases := x.L[2:]
	used := map[string]bool{}
	var build func(i int) *Term
	build = func(i int) *Term {
		if i >= len(cases) {
			panic(fmt.Sprintf("line %d: match is not exhaustive", x.Line))
		}
		c := cases[i]
		h := c.L[0]
		if !h.List && h.A == "_" {
			return elab(c.L[1], e, want)
		}
		name := h.A
		var vars []*Sexp
		if h.List {
			name = h.L[0].A
			vars = h.L[1:]
		}
		k := resolveCtor(name, t.S)
		if len(vars) != len(k.Sels) {
			panic(fmt.Sprintf("line %d: arity of pattern %s", h.Line, name))
		}
		used[k.Name] = true
		ne := e
		for j, v := range vars {
			if v.A == "_" {
				continue
			}
			ne = ne.with(v.A, mk2(k.Sels[j], t))
		}
		b := elab(c.L[1], ne, want)
		if len(used) == len(sig.Ctors[t.S]) {
			return b
		}
		return Ite(mk("is-"+k.Name, t), b, build(i+1))
	}
	return build(0)
}

// mk2 applies a selector, also to a term of another constructor (dead branch).
func mk2(sel string, t *Term) *Term {
	si := sig.Sel[sel]
	if isCtorApp(t) && t.Op != si.C.Name {
		return hc(sel, si.C.Sorts[si.Idx], 0, t)
	}
	return mk(sel, t)
}

// initBuiltinSpec: character classes taken from the Go library itself.
func initBuiltinSpec() {
	listSort(BV8)
	class := func(name string, in func(r rune) bool) {
		p := hc("%"+name+".c", BV8, 0)
		var os []*Term
		for lo := 0; lo < 256; {
			if !in(rune(lo)) {
				lo++
				continue
			}
			hi := lo
			for hi+1 < 256 && in(rune(hi+1)) {
				hi++
			}
			if hi-lo < 2 {
				for k := lo; k <= hi; k++ {
					os = append(os, Eq(p, bv(8, uint64(k))))
				}
			} else {
				os = append(os, And(mk("bvule", bv(8, uint64(lo)), p), mk("bvule", p, bv(8, uint64(hi)))))
			}
			lo = hi + 1
		}
		sig.Funs[name] = &Fun{Name: name, Params: []*Term{p}, Sorts: []string{BV8}, Ret: Bool, Body: Or(os...)}
	}
	class("isspace", unicode.IsSpace)
	class("isletter", unicode.IsLetter)
	class("isdigit", unicode.IsDigit)
	class("isidch", func(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' })
}

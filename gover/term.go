package main

// Hash-consed terms of the specification logic (printed as SMT-LIB), with a
// smart constructor that evaluates literals, constructors and selectors.

import (
	"fmt"
	"os"
	rdebug "runtime/debug"
	"strconv"
	"strings"
	"sync"
)

type Term struct {
	Op   string // symbol, or "#bv" for a literal
	Args []*Term
	S    string // sort (SMT text)
	Val  uint64 // value of a bit-vector literal
	ID   int
}

var (
	hcMu  sync.Mutex
	hcTab = map[string]*Term{}
	hcN   int
)

func hc(op string, s string, val uint64, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s)
	if op == "#bv" {
		b.WriteByte('|')
		b.WriteString(strconv.FormatUint(val, 16))
	}
	for _, a := range args {
		b.WriteByte(' ')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	hcMu.Lock()
	defer hcMu.Unlock()
	if t, ok := hcTab[k]; ok {
		return t
	}
	hcN++
	t := &Term{Op: op, Args: append([]*Term(nil), args...), S: s, Val: val, ID: hcN}
	hcTab[k] = t
	return t
}

const Bool = "Bool"

func bvSort(n int) string { return fmt.Sprintf("(_ BitVec %d)", n) }

var (
	BV64 = bvSort(64)
	BV32 = bvSort(32)
	BV8  = bvSort(8)
)

func bvWidth(s string) int {
	if strings.HasPrefix(s, "(_ BitVec ") {
		n, _ := strconv.Atoi(strings.TrimSuffix(s[len("(_ BitVec "):], ")"))
		return n
	}
	return 0
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func bv(w int, v uint64) *Term { return hc("#bv", bvSort(w), v&mask(w)) }

var (
	True  = hc("true", Bool, 0)
	False = hc("false", Bool, 0)
)

func boolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

// ---- signature tables ----

type Ctor struct {
	Name  string
	Sort  string
	Sels  []string
	Sorts []string
}

type Fun struct {
	Name   string
	Params []*Term // formal parameters (constants)
	Sorts  []string
	Ret    string
	Body   *Term // nil: uninterpreted
	Rec    bool  // recursive: unfolded on demand; else macro
}

type Sig struct {
	DT       []string // datatype sorts in order
	Ctors    map[string][]*Ctor
	Ctor     map[string]*Ctor
	Sel      map[string]*SelInfo
	Funs     map[string]*Fun
	FunOrder []string
	USorts   []string
	Order    []string // declaration order of sorts
}

type SelInfo struct {
	C   *Ctor
	Idx int
}

var sig = &Sig{Ctors: map[string][]*Ctor{}, Ctor: map[string]*Ctor{}, Sel: map[string]*SelInfo{}, Funs: map[string]*Fun{}}

func (s *Sig) isDT(sort string) bool { _, ok := s.Ctors[sort]; return ok }

func (s *Sig) addDT(sort string, cs ...*Ctor) {
	if _, ok := s.Ctors[sort]; ok {
		return
	}
	if sealed {
		if os.Getenv("GOVER_DEBUG") != "" {
			rdebug.PrintStack()
		}
		panic("sort " + sort + " is not declared")
	}
	s.DT = append(s.DT, sort)
	s.Order = append(s.Order, sort)
	s.Ctors[sort] = cs
	for _, c := range cs {
		c.Sort = sort
		if s.Ctor[c.Name] != nil {
			panic("duplicate constructor " + c.Name)
		}
		s.Ctor[c.Name] = c
		for i, n := range c.Sels {
			s.Sel[n] = &SelInfo{c, i}
		}
	}
}

// list sorts: snoc lists of any element sort
func sortKey(s string) string {
	s = strings.ReplaceAll(s, "(_ BitVec ", "(bv")
	return strings.NewReplacer("(", "", ")", "", " ", "_").Replace(s)
}

func listSort(elem string) string {
	k := sortKey(elem)
	n := "L_" + k
	if !sig.isDT(n) {
		sig.addDT(n,
			&Ctor{Name: "nil_" + k},
			&Ctor{Name: "snoc_" + k, Sels: []string{"init_" + k, "last_" + k}, Sorts: []string{n, elem}})
		e := elem
		sig.declFun("len_"+k, []string{n}, BV64)
		sig.declFun("int_len_"+k, []string{n}, "Int")
		sig.declFun("nth_"+k, []string{n, BV64}, e)
		sig.declFun("take_"+k, []string{n, BV64}, n)
		listElem[n] = elem
	}
	return n
}

// sealed: no sorts are added any more
var sealed bool

var listElem = map[string]string{}

func optSort(elem string) string {
	k := sortKey(elem)
	n := "O_" + k
	if !sig.isDT(n) {
		sig.addDT(n, &Ctor{Name: "none_" + k}, &Ctor{Name: "some_" + k, Sels: []string{"val_" + k}, Sorts: []string{elem}})
	}
	return n
}

func (s *Sig) declFun(name string, sorts []string, ret string) *Fun {
	if f, ok := s.Funs[name]; ok {
		return f
	}
	f := &Fun{Name: name, Sorts: sorts, Ret: ret}
	s.Funs[name] = f
	s.FunOrder = append(s.FunOrder, name)
	return f
}

func arraySort(k, v string) string { return "(Array " + k + " " + v + ")" }

func arrayParts(s string) (string, string) {
	// "(Array K V)"
	x, _ := parseSexps(s)
	return sexpSort(x[0].L[1]), sexpSort(x[0].L[2])
}

// ---- construction ----

func sym(name, sort string) *Term { return hc(name, sort, 0) }

var freshN int
var freshMu sync.Mutex

func fresh(prefix, sort string) *Term {
	freshMu.Lock()
	freshN++
	n := freshN
	freshMu.Unlock()
	t := hc(fmt.Sprintf("%s!%d", prefix, n), sort, 0)
	return t
}

func isLit(t *Term) bool { return t.Op == "#bv" || t == True || t == False }

func isCtorApp(t *Term) bool { _, ok := sig.Ctor[t.Op]; return ok }

func Not(a *Term) *Term    { return mk("not", a) }
func And(a ...*Term) *Term { return mk("and", a...) }
func Or(a ...*Term) *Term  { return mk("or", a...) }
func Imp(a, b *Term) *Term { return mk("=>", a, b) }
func Eq(a, b *Term) *Term  { return mk("=", a, b) }
func Ite(c, a, b *Term) *Term {
	return mk("ite", c, a, b)
}

func signed(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	if v&(1<<uint(w-1)) != 0 {
		return int64(v | ^mask(w))
	}
	return int64(v)
}

// distinctTerms reports whether two terms can never be equal.
func distinctTerms(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.Op == "#bv" && b.Op == "#bv" {
		return a.Val != b.Val
	}
	if (a == True && b == False) || (a == False && b == True) {
		return true
	}
	ca, oka := sig.Ctor[a.Op]
	cb, okb := sig.Ctor[b.Op]
	if oka && okb {
		if ca != cb {
			return true
		}
		for i := range a.Args {
			if distinctTerms(a.Args[i], b.Args[i]) {
				return true
			}
		}
	}
	return false
}

// Names: gname(x) is never one of the internal names (see spec prelude).
var disjointHeads = map[string]bool{"gname": true, "strname": true, "dataname": true}

func mk(op string, args ...*Term) *Term {
	switch op {
	case "true":
		return True
	case "false":
		return False
	case "not":
		a := args[0]
		if a == True {
			return False
		}
		if a == False {
			return True
		}
		if a.Op == "not" {
			return a.Args[0]
		}
		return hc("not", Bool, 0, a)
	case "and", "or":
		unit, zero := True, False
		if op == "or" {
			unit, zero = False, True
		}
		var out []*Term
		seen := map[*Term]bool{}
		var add func(t *Term) bool
		add = func(t *Term) bool {
			if t == zero {
				return false
			}
			if t == unit || seen[t] {
				return true
			}
			if t.Op == "not" && seen[t.Args[0]] {
				return false
			}
			if seen[hc("not", Bool, 0, t)] {
				return false
			}
			seen[t] = true
			out = append(out, t)
			return true
		}
		for _, a := range args {
			if !add(a) {
				return zero
			}
		}
		if len(out) == 0 {
			return unit
		}
		if len(out) == 1 {
			return out[0]
		}
		return hc(op, Bool, 0, out...)
	case "snoc_bv8":
		if c := args[1]; c.Op == "#bv" && c.Val != '%' {
			if t := args[0]; t.Op == "fmtd" || t.Op == "fmtdd" {
				if f, ok := litStr(t.Args[0]); ok {
					return mk(t.Op, append([]*Term{strLit(f + string([]byte{byte(c.Val)}))}, t.Args[1:]...)...)
				}
			}
		}
	case "strcat":
		// the text of a number within other text is one format
		if g, ok := fmtOf(args[1]); ok {
			if l, ok := litStr(args[0]); ok && l != "" && !strings.Contains(l, "%") {
				return mk(args[1].Op, append([]*Term{strLit(l + g)}, args[1].Args[1:]...)...)
			}
			if f, ok := fmtOf(args[0]); ok && args[0].Op == "fmtd" && args[1].Op == "fmtd" {
				return mk("fmtdd", strLit(f+g), args[0].Args[1], args[1].Args[1])
			}
		}
		if l, ok := litStr(args[1]); ok && args[0].Op == "gname" {
			t := args[0]
			for i := 0; i < len(l); i++ {
				t = mk("snoc_bv8", t, bv(8, uint64(l[i])))
			}
			return t
		}
		if isNilCtor(args[1]) {
			return args[0]
		}
		if isNilCtor(args[0]) {
			return args[1]
		}
		if isSnoc(args[1]) {
			return mk("snoc_bv8", mk("strcat", args[0], args[1].Args[0]), args[1].Args[1])
		}
	case "cat_L_bv8":
		if isNilCtor(args[1]) {
			return args[0]
		}
		if isNilCtor(args[0]) {
			return args[1]
		}
		if isSnoc(args[1]) {
			return mk("snoc_L_bv8", mk(op, args[0], args[1].Args[0]), args[1].Args[1])
		}
		if args[1].Op == op {
			return mk(op, mk(op, args[0], args[1].Args[0]), args[1].Args[1])
		}
	case "isintr":
		if l, ok := litStr(args[0]); ok {
			return boolT(strings.HasPrefix(l, "llvm."))
		}
	case "bname":
		if args[0].Op == "gname" {
			return args[0].Args[0]
		}
	case "set0":
		if a := args[0]; a.Op == "snoc_bv64" {
			switch p := a.Args[0]; p.Op {
			case "nil_bv64":
				return mk("snoc_bv64", p, args[1])
			case "snoc_bv64":
				return mk("snoc_bv64", mk("set0", p, args[1]), a.Args[1])
			}
		}
	case "len_bv64":
		if args[0].Op == "set0" {
			return mk("len_bv64", args[0].Args[0])
		}
	case "islabel":
		a := args[0]
		if a.Op == "strcat" || a.Op == "fmtdd" {
			if l, ok := litStr(a.Args[0]); ok {
				for _, p := range labelPrefixes {
					if strings.HasPrefix(l, p) {
						return True
					}
				}
			}
		}
	case "=>":
		return Or(Not(args[0]), args[1])
	case "distinct":
		return Not(Eq(args[0], args[1]))
	case "=":
		a, b := args[0], args[1]
		if a.S != b.S {
			panic(fmt.Sprintf("sort mismatch in =: %s : %s  vs  %s : %s", a, a.S, b, b.S))
		}
		if a == b {
			return True
		}
		if distinctTerms(a, b) {
			return False
		}
		if a.S == Bool {
			if a == True {
				return b
			}
			if b == True {
				return a
			}
			if a == False {
				return Not(b)
			}
			if b == False {
				return Not(a)
			}
		}
		if (a.Op == "fmtdd" || a.Op == "strcat" && isSnoc(a.Args[0])) && isNilCtor(b) || (b.Op == "fmtdd" || b.Op == "strcat" && isSnoc(b.Args[0])) && isNilCtor(a) {
			return False
		}
		if a.Op == "strcat" && b.Op == "strcat" && a.Args[0] == b.Args[0] {
			return Eq(a.Args[1], b.Args[1])
		}
		// a format is never empty (its text is a literal with other bytes, see noteFormat)
		if a.Op == "fmtd" && isNilCtor(b) || b.Op == "fmtd" && isNilCtor(a) {
			return False
		}
		if disjointHeads[a.Op] && a.Op == b.Op && len(a.Args) == 1 {
			return Eq(a.Args[0], b.Args[0])
		}
		if disjointHeads[a.Op] && (disjointHeads[b.Op] || isCtorApp(b)) || disjointHeads[b.Op] && isCtorApp(a) {
			if a.Op != b.Op {
				if a.Op == "gname" || b.Op == "gname" {
					// gname("main") = "main"; literals with a dot are never global names
					if a.Op != "gname" {
						a, b = b, a
					}
					if isCtorApp(b) {
						if l, ok := litStr(b); ok && !strings.HasPrefix(l, "b.") && l != "main" {
							return False
						}
					} else {
						return False
					}
				} else {
					return False
				}
			}
		}
		if ca, ok := sig.Ctor[a.Op]; ok {
			if cb, ok2 := sig.Ctor[b.Op]; ok2 && ca == cb {
				var cs []*Term
				for i := range a.Args {
					cs = append(cs, Eq(a.Args[i], b.Args[i]))
				}
				return And(cs...)
			}
		}
		// zero-extended byte against a literal
		if strings.HasPrefix(a.Op, "(_ zero_extend") && b.Op == "#bv" {
			iw := bvWidth(a.Args[0].S)
			if b.Val&^mask(iw) != 0 {
				return False
			}
			return Eq(a.Args[0], bv(iw, b.Val))
		}
		if strings.HasPrefix(b.Op, "(_ zero_extend") && a.Op == "#bv" {
			return Eq(b, a)
		}
		if strings.HasPrefix(a.Op, "(_ zero_extend") && a.Op == b.Op && a.Args[0].S == b.Args[0].S {
			return Eq(a.Args[0], b.Args[0])
		}
		// x + c = d
		if a.Op == "bvadd" && a.Args[1].Op == "#bv" && b.Op == "#bv" {
			return Eq(a.Args[0], bv(bvWidth(a.S), b.Val-a.Args[1].Val))
		}
		if b.Op == "bvadd" && b.Args[1].Op == "#bv" && a.Op == "#bv" {
			return Eq(b, a)
		}
		// (= (ite c x y) lit) with literal branches
		if a.Op == "ite" && (isLit(b) || isCtorApp(b) && len(b.Args) == 0) {
			x, y := Eq(a.Args[1], b), Eq(a.Args[2], b)
			if (x == True || x == False) && (y == True || y == False) {
				return Ite(a.Args[0], x, y)
			}
		}
		if b.Op == "ite" && (isLit(a) || isCtorApp(a) && len(a.Args) == 0) {
			return Eq(b, a)
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return hc("=", Bool, 0, a, b)
	case "ite":
		c, a, b := args[0], args[1], args[2]
		if c == True {
			return a
		}
		if c == False {
			return b
		}
		if a == b {
			return a
		}
		if a.S != b.S {
			panic(fmt.Sprintf("sort mismatch in ite: %s : %s  vs  %s : %s", a, a.S, b, b.S))
		}
		if c.Op == "not" {
			return Ite(c.Args[0], b, a)
		}
		if a.S == Bool {
			if a == True && b == False {
				return c
			}
			if a == False && b == True {
				return Not(c)
			}
			if a == True {
				return Or(c, b)
			}
			if a == False {
				return And(Not(c), b)
			}
			if b == True {
				return Or(Not(c), a)
			}
			if b == False {
				return And(c, a)
			}
		}
		return hc("ite", a.S, 0, c, a, b)
	}
	if strings.HasPrefix(op, "bv") || strings.HasPrefix(op, "(_ ") || op == "concat" {
		return mkBV(op, args...)
	}
	if op == "select" {
		a, i := args[0], args[1]
		for a.Op == "store" {
			if a.Args[1] == i {
				return a.Args[2]
			}
			if distinctTerms(a.Args[1], i) || Eq(a.Args[1], i) == False {
				a = a.Args[0]
				continue
			}
			break
		}
		if strings.HasPrefix(a.Op, "(as const") {
			return a.Args[0]
		}
		_, v := arrayParts(a.S)
		return hc("select", v, 0, a, i)
	}
	if op == "store" {
		return hc("store", args[0].S, 0, args...)
	}
	if strings.HasPrefix(op, "(as const ") {
		return hc(op, op[len("(as const "):len(op)-1], 0, args...)
	}
	if c, ok := sig.Ctor[op]; ok {
		if len(args) != len(c.Sels) {
			panic("arity of constructor " + op)
		}
		for i, a := range args {
			if a.S != c.Sorts[i] {
				panic(fmt.Sprintf("constructor %s argument %d: %s has sort %s, want %s", op, i, a, a.S, c.Sorts[i]))
			}
		}
		// eta: C(sel0 t, sel1 t) stays as it is
		return hc(op, c.Sort, 0, args...)
	}
	if si, ok := sig.Sel[op]; ok {
		a := args[0]
		if a.Op == si.C.Name {
			return a.Args[si.Idx]
		}
		if a.S != si.C.Sort {
			panic(fmt.Sprintf("selector %s applied to %s : %s", op, a, a.S))
		}
		if a.Op == "ite" {
			x, y := a.Args[1], a.Args[2]
			if isCtorApp(x) && isCtorApp(y) && x.Op == si.C.Name && y.Op == si.C.Name {
				return Ite(a.Args[0], mk(op, x), mk(op, y))
			}
		}
		return hc(op, si.C.Sorts[si.Idx], 0, a)
	}
	if strings.HasPrefix(op, "is-") {
		c, ok := sig.Ctor[op[3:]]
		if ok {
			a := args[0]
			if a.S != c.Sort {
				panic(fmt.Sprintf("tester %s applied to %s : %s", op, a, a.S))
			}
			if isCtorApp(a) {
				return boolT(a.Op == c.Name)
			}
			if a.Op == "ite" && isCtorApp(a.Args[1]) && isCtorApp(a.Args[2]) {
				return Ite(a.Args[0], boolT(a.Args[1].Op == c.Name), boolT(a.Args[2].Op == c.Name))
			}
			if len(sig.Ctors[c.Sort]) == 1 {
				return True
			}
			return hc(op, Bool, 0, a)
		}
	}
	// a list without its first elements, of which there are enough
	if strings.HasPrefix(op, "len_") && strings.HasPrefix(args[0].Op, "drop_") {
		return mk("bvsub", mk(op, args[0].Args[0]), args[0].Args[1])
	}
	if strings.HasPrefix(op, "nth_") && strings.HasPrefix(args[0].Op, "drop_") {
		return mk(op, args[0].Args[0], mk("bvadd", args[1], args[0].Args[1]))
	}
	if strings.HasPrefix(op, "len_") && isCtorApp(args[0]) {
		if len(args[0].Args) == 0 {
			return bv(64, 0)
		}
		return mkBV("bvadd", mk(op, args[0].Args[0]), bv(64, 1))
	}
	if op == "slen" && isCtorApp(args[0]) {
		if args[0].Op != "scons" {
			return bv(64, 0)
		}
		return mkBV("bvadd", mk(op, args[0].Args[1]), bv(64, 1))
	}
	if strings.HasPrefix(op, "take_") {
		k := op[5:]
		if args[1].Op == "#bv" && args[1].Val == 0 {
			return mk("nil_" + k)
		}
		if args[1] == mk("len_"+k, args[0]) {
			return args[0]
		}
	}
	if strings.HasPrefix(op, "nth_") && args[1].Op == "#bv" {
		// concrete list
		var els []*Term
		l := args[0]
		for isCtorApp(l) && len(l.Args) == 2 {
			els = append(els, l.Args[1])
			l = l.Args[0]
		}
		if isCtorApp(l) {
			n := uint64(len(els))
			if args[1].Val < n {
				return els[n-1-args[1].Val]
			}
		}
	}
	f, ok := sig.Funs[op]
	if !ok {
		panic("unknown function symbol " + op)
	}
	if len(args) != len(f.Sorts) {
		panic("arity of function " + op)
	}
	for i, a := range args {
		if a.S != f.Sorts[i] {
			panic(fmt.Sprintf("function %s argument %d: %s has sort %s, want %s", op, i, a, a.S, f.Sorts[i]))
		}
	}
	if f.Body != nil && !f.Rec {
		return subst(f.Body, f.Params, args)
	}
	return hc(op, f.Ret, 0, args...)
}

func litStr(t *Term) (string, bool) {
	var bs []byte
	for t.Op == "snoc_bv8" {
		if t.Args[1].Op != "#bv" {
			return "", false
		}
		bs = append(bs, byte(t.Args[1].Val))
		t = t.Args[0]
	}
	if t.Op != "nil_bv8" {
		return "", false
	}
	for i, j := 0, len(bs)-1; i < j; i, j = i+1, j-1 {
		bs[i], bs[j] = bs[j], bs[i]
	}
	return string(bs), true
}

func strLit(s string) *Term {
	listSort(BV8)
	t := mk("nil_bv8")
	for i := 0; i < len(s); i++ {
		t = mk("snoc_bv8", t, bv(8, uint64(s[i])))
	}
	return t
}

func mkBV(op string, args ...*Term) *Term {
	w := bvWidth(args[0].S)
	if w == 0 {
		panic(fmt.Sprintf("bit-vector operator %s on %s : %s", op, args[0], args[0].S))
	}
	if strings.HasPrefix(op, "(_ ") {
		var k string
		var n, m int
		f := strings.Fields(strings.Trim(op, "()"))
		k = f[1]
		n, _ = strconv.Atoi(f[2])
		if k == "extract" {
			m, _ = strconv.Atoi(f[3])
		}
		a := args[0]
		switch k {
		case "sign_extend":
			if n == 0 {
				return a
			}
			if a.Op == "#bv" {
				return bv(w+n, uint64(signed(a.Val, w)))
			}
			return hc(op, bvSort(w+n), 0, a)
		case "zero_extend":
			if n == 0 {
				return a
			}
			if a.Op == "#bv" {
				return bv(w+n, a.Val)
			}
			return hc(op, bvSort(w+n), 0, a)
		case "extract":
			if m == 0 && n == w-1 {
				return a
			}
			if a.Op == "#bv" {
				return bv(n-m+1, a.Val>>uint(m))
			}
			// extract of an extension that undoes it
			if m == 0 && strings.HasPrefix(a.Op, "(_ zero_extend") || m == 0 && strings.HasPrefix(a.Op, "(_ sign_extend") {
				iw := bvWidth(a.Args[0].S)
				if n == iw-1 {
					return a.Args[0]
				}
				if n < iw-1 {
					return mkBV(op, a.Args[0])
				}
			}
			return hc(op, bvSort(n-m+1), 0, a)
		}
		panic("bv op " + op)
	}
	if len(args) == 1 {
		a := args[0]
		if a.Op == "#bv" {
			switch op {
			case "bvneg":
				return bv(w, -a.Val)
			case "bvnot":
				return bv(w, ^a.Val)
			}
		}
		return hc(op, a.S, 0, a)
	}
	a, b := args[0], args[1]
	if len(args) > 2 {
		return mkBV(op, append([]*Term{mkBV(op, a, b)}, args[2:]...)...)
	}
	if op != "concat" && a.S != b.S {
		panic(fmt.Sprintf("sort mismatch in %s: %s : %s , %s : %s", op, a, a.S, b, b.S))
	}
	if a.Op == "#bv" && b.Op == "#bv" {
		x, y := a.Val, b.Val
		sx, sy := signed(x, w), signed(y, w)
		switch op {
		case "bvadd":
			return bv(w, x+y)
		case "bvsub":
			return bv(w, x-y)
		case "bvmul":
			return bv(w, x*y)
		case "bvand":
			return bv(w, x&y)
		case "bvor":
			return bv(w, x|y)
		case "bvxor":
			return bv(w, x^y)
		case "bvshl":
			if y >= uint64(w) {
				return bv(w, 0)
			}
			return bv(w, x<<y)
		case "bvlshr":
			if y >= uint64(w) {
				return bv(w, 0)
			}
			return bv(w, x>>y)
		case "bvashr":
			if y >= uint64(w) {
				y = uint64(w - 1)
			}
			return bv(w, uint64(sx>>y))
		case "bvslt":
			return boolT(sx < sy)
		case "bvsle":
			return boolT(sx <= sy)
		case "bvsgt":
			return boolT(sx > sy)
		case "bvsge":
			return boolT(sx >= sy)
		case "bvult":
			return boolT(x < y)
		case "bvule":
			return boolT(x <= y)
		case "bvugt":
			return boolT(x > y)
		case "bvuge":
			return boolT(x >= y)
		case "concat":
			w2 := bvWidth(b.S)
			if w+w2 <= 64 {
				return bv(w+w2, x<<uint(w2)|y)
			}
		case "bvsdiv":
			if sy != 0 && !(sy == -1) {
				return bv(w, uint64(sx/sy))
			}
		case "bvsrem":
			if sy != 0 && !(sy == -1) {
				return bv(w, uint64(sx%sy))
			}
		}
	}
	switch op {
	case "bvsgt":
		return mkBV("bvslt", b, a)
	case "bvsge":
		return mkBV("bvsle", b, a)
	case "bvugt":
		return mkBV("bvult", b, a)
	case "bvuge":
		return mkBV("bvule", b, a)
	case "bvslt", "bvult":
		if a == b {
			return False
		}
		return hc(op, Bool, 0, a, b)
	case "bvsle", "bvule":
		if a == b {
			return True
		}
		return hc(op, Bool, 0, a, b)
	case "concat":
		return hc(op, bvSort(w+bvWidth(b.S)), 0, a, b)
	case "bvsub":
		if b.Op == "#bv" {
			return mkBV("bvadd", a, bv(w, -b.Val))
		}
		if a == b {
			return bv(w, 0)
		}
	case "bvadd":
		if a.Op == "#bv" {
			a, b = b, a
		}
		if b.Op == "#bv" {
			if b.Val == 0 {
				return a
			}
			if a.Op == "bvadd" && a.Args[1].Op == "#bv" {
				return mkBV("bvadd", a.Args[0], bv(w, a.Args[1].Val+b.Val))
			}
		}
	case "bvmul", "bvand", "bvor", "bvxor":
		if a.Op == "#bv" {
			a, b = b, a
		}
	}
	return hc(op, a.S, 0, a, b)
}

// subst replaces constants (formal parameters) by terms.
func subst(t *Term, from, to []*Term) *Term {
	m := map[*Term]*Term{}
	for i := range from {
		m[from[i]] = to[i]
	}
	return substM(t, m)
}

func substM(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		// lazy ite
		if t.Op == "ite" {
			c := rec(t.Args[0])
			var r *Term
			if c == True {
				r = rec(t.Args[1])
			} else if c == False {
				r = rec(t.Args[2])
			} else {
				r = Ite(c, rec(t.Args[1]), rec(t.Args[2]))
			}
			memo[t] = r
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = mk(t.Op, args...)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t.Op == "#bv" {
		w := bvWidth(t.S)
		if w%4 == 0 {
			return fmt.Sprintf("#x%0*x", w/4, t.Val)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.Val, w)
	}
	if l, ok := litStr(t); ok && l != "" {
		return fmt.Sprintf("%q", l)
	}
	if len(t.Args) == 0 {
		return t.Op
	}
	if d > 40 {
		return "..."
	}
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(t.Op)
	for _, a := range t.Args {
		b.WriteByte(' ')
		b.WriteString(a.str(d + 1))
	}
	b.WriteByte(')')
	return b.String()
}

func isNilCtor(t *Term) bool { return strings.HasPrefix(t.Op, "nil_") && len(t.Args) == 0 }

func fmtOf(t *Term) (string, bool) {
	if t.Op != "fmtd" && t.Op != "fmtdd" {
		return "", false
	}
	return litStr(t.Args[0])
}

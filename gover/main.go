package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Report struct {
	Function string
	Paths    int
	Cuts     int
	Inlined  []string
	Called   []string
	Obs      []*Obligation
	Wall     float64
	Trusted  bool
}

func main() {
	repo := flag.String("repo", "/repo", "source directory")
	spec := flag.String("spec", "spec", "specification directory")
	fns := flag.String("fn", "", "functions to verify (comma separated)")
	sigs := flag.Bool("signatures", false, "write functions.json")
	out := flag.String("json", "", "report file")
	limit := flag.Duration("limit", 10*time.Minute, "time limit per function")
	verbose := flag.Bool("v", false, "list obligations")
	clipN := flag.Int("clip", 600, "length of messages")
	flag.BoolVar(&withTerm, "term", false, "prove termination as well")
	flag.Int64Var(&stopAfter, "stop", 10, "failed obligations after which a function is given up")
	flag.Parse()
	pr, err := loadProg(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	driverConsts(pr)
	if err := loadSpecs(*spec); err != nil {
		fmt.Fprintln(os.Stderr, "spec:", err)
		os.Exit(2)
	}
	bothForms()
	if *sigs {
		if err := writeSigs(pr, *spec); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	if err := bindContracts(pr, *spec); err != nil {
		fmt.Fprintln(os.Stderr, "functions.json:", err)
		os.Exit(2)
	}
	for _, e := range []string{BV64, BV32, BV8, bvSort(16), Bool, listSort(BV8), "LV", "Expr", "Err"} {
		listSort(e)
		optSort(e)
	}
	sealed = true
	var names []string
	if *fns != "" {
		names = strings.Split(*fns, ",")
	} else {
		for n, c := range contracts {
			if !c.Trust {
				names = append(names, n)
			}
		}
		sort.Strings(names)
	}
	// the callers of a function that is not there any more stand in for it
	var todo []string
	for i := 0; i < len(names); i++ {
		if cs, ok := absent[names[i]]; ok {
			for _, c := range cs {
				if (contracts[c] != nil || absent[c] != nil) && !has(names, c) {
					names = append(names, c)
				}
			}
			continue
		}
		todo = append(todo, names[i])
	}
	names = todo
	reps := verifyAll(pr, names, *limit)
	bad := 0
	total := 0
	for _, r := range reps {
		nb := 0
		for _, o := range r.Obs {
			total++
			if !o.OK {
				nb++
				bad++
			}
		}
		fmt.Printf("%-36s obligations %4d failed %3d paths %4d cuts %2d %.1fs\n", r.Function, len(r.Obs), nb, r.Paths, r.Cuts, r.Wall)
		seen := map[string]int{}
		for _, o := range r.Obs {
			if !o.OK || *verbose {
				k := o.Kind + o.Desc + o.Pos
				seen[k]++
				if seen[k] > 2 && !*verbose {
					continue
				}
				fmt.Printf("   [%v] %s: %s at %s %v\n", o.OK, o.Kind, o.Desc, o.Pos, o.Tags)
				if !o.OK {
					fmt.Printf("       path: %s\n       normal form: %s\n", clip(strings.Join(o.Trace, " ; "), *clipN), clip(o.Norm, *clipN))
				}
			}
		}
	}
	solverErrors.Range(func(k, _ interface{}) bool { fmt.Println("solver:", k); return true })
	fmt.Printf("total %d failed %d solver calls %d solver time %.1fs\n", total, bad, solverCalls, float64(solverNS)/1e9)
	if *out != "" {
		b, _ := json.MarshalIndent(map[string]interface{}{"reports": reps, "absent": absent, "solver_calls": solverCalls, "solver_s": float64(solverNS) / 1e9}, "", " ")
		os.WriteFile(*out, b, 0644)
	}
	if bad > 0 {
		os.Exit(1)
	}
}

type job struct {
	v  *Verif
	st *State
}

// verifyAll verifies functions, sharing a pool of workers with one solver each.
func verifyAll(pr *Prog, names []string, limit time.Duration) []*Report {
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	var queue []job
	active := 0
	left := map[*Verif]int{}
	var vs []*Verif
	for _, n := range names {
		v := newVerif(pr, n, limit)
		vs = append(vs, v)
		if v.fn == nil {
			continue
		}
		left[v]++
		queue = append(queue, job{v, nil})
	}
	var wg sync.WaitGroup
	nw := runtime.NumCPU()
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sv := newSolver()
			defer sv.stop()
			for {
				mu.Lock()
				for len(queue) == 0 && active > 0 {
					cond.Wait()
				}
				if len(queue) == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				j := queue[len(queue)-1]
				queue = queue[:len(queue)-1]
				active++
				mu.Unlock()
				var more []*State
				if j.st == nil {
					more = j.v.start(sv)
				} else {
					j.st.F.sv = sv
					more = j.st.run()
				}
				mu.Lock()
				active--
				left[j.v]--
				for _, s := range more {
					queue = append(queue, job{j.v, s})
					left[j.v]++
				}
				if left[j.v] == 0 {
					j.v.wall = time.Since(j.v.t0).Seconds()
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	var out []*Report
	for _, v := range vs {
		r := &Report{Function: v.name, Paths: v.paths, Cuts: v.loopsCut, Obs: v.obs, Wall: v.wall}
		for k := range v.inlined {
			r.Inlined = append(r.Inlined, k)
		}
		for k := range v.called {
			r.Called = append(r.Called, k)
		}
		sort.Strings(r.Inlined)
		sort.Strings(r.Called)
		out = append(out, r)
	}
	out = append(out, blockNamesReport())
	if withTerm {
		out = append(out, recursionReport())
	}
	return out
}

func newVerif(pr *Prog, name string, limit time.Duration) *Verif {
	v := &Verif{name: name, pr: pr, inlined: map[string]bool{}, called: map[string]bool{}, extra: map[string]Val{}}
	v.t0 = time.Now()
	v.deadline = v.t0.Add(limit)
	v.c = contracts[name]
	v.fn = pr.fns[name]
	if v.fn == nil {
		v.add(&Obligation{Fn: name, Kind: "contract", Desc: "function " + name + " does not exist in the source", OK: false})
	} else if v.c == nil {
		v.add(&Obligation{Fn: name, Kind: "contract", Desc: "no contract for " + name, OK: false})
		v.fn = nil
	} else if len(v.c.Params) != len(v.fn.Params) {
		v.add(&Obligation{Fn: name, Kind: "contract", Desc: fmt.Sprintf("%s takes %d parameters, the contract has %d", name, len(v.fn.Params), len(v.c.Params)), OK: false})
		v.fn = nil
	}
	return v
}

// start sets up the entry state and returns it.
func (v *Verif) start(sv *solver) (out []*State) {
	out = v.start1(sv, false)
	for _, p := range v.fn.Params {
		if nilable(p.Type()) {
			return append(out, v.start1(sv, true)...)
		}
	}
	return out
}

// nilable: a pointer to a list the caller wants filled in, or nil.
func nilable(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	if _, ok := p.Elem().Underlying().(*types.Slice); !ok {
		return false
	}
	_, ok = sortOf(p.Elem())
	return ok
}

func (v *Verif) start1(sv *solver, asNil bool) (out []*State) {
	v.t0 = time.Now()
	st := &State{F: newFacts(sv), heap: map[int]Val{}, heapT: map[int]typesType{}, G: map[string]*Term{}, v: v, meta: map[string]Val{}}
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				v.add(&Obligation{Fn: v.name, Kind: "supported", Desc: r.msg})
				return
			case string:
				v.add(&Obligation{Fn: v.name, Kind: "supported", Desc: r})
				return
			}
			panic(r)
		}
	}()
	c, fn := v.c, v.fn
	v.concrete = c.Opts["concrete"]
	e := env{}
	var args []Val
	st.setupGhosts(fn)
	for i, p := range fn.Params {
		name := c.Params[i]
		var a Val
		switch {
		case v.concrete && isLexerPtr(p.Type()):
			a = st.concreteLexer(p.Type())
		case isModelPtr(p.Type()) == "options" && c.Opts["driver"]:
			a = st.driverArgs(name, p, e)
		case isModelPtr(p.Type()) != "":
			a = Opaque{Kind: isModelPtr(p.Type())}
		case asNil && nilable(p.Type()):
			a = NilV{}
			st.meta["nilparam"] = True
			s, _ := sortOf(p.Type().Underlying().(*types.Pointer).Elem())
			st.F.assume(Eq(sym(name, s), mk("nil_"+s[2:])))
			e[name] = sym(name, s)
		default:
			a = st.freshParam(name, p, i)
		}
		if nilable(p.Type()) {
			e[name+".nil"] = sym(name+".nil", Bool)
			st.F.assume(Eq(e[name+".nil"], boolT(asNil)))
		}
		args = append(args, a)
		if w := c.Opts2["wrap:"+name]; w != "" {
			if sv, ok := a.(SliceV); ok {
				e[name] = sv.L
				continue
			}
		}
		if c.Opts["newfn"] && i == len(fn.Params)-1 {
			if t, ok := a.(*Term); ok {
				st.meta["wantfn"] = t
				st.meta["wantkey"] = mk("bname", mk("fr_n", mk("lf", t)))
			}
		}
		if t, ok := a.(*Term); ok && name != "_" {
			e[name] = t
		} else if s, ok := sortOf(p.Type()); ok && name != "_" {
			if t, ok := termOf(a, s); ok {
				e[name] = t
			}
		} else if ptr, ok := a.(Ptr); ok && name != "_" {
			if t, ok := st.load(ptr).(*Term); ok {
				e[name] = t
			} else if sl, ok := st.load(ptr).(SliceV); ok && sl.L != nil {
				e[name] = sl.L
			}
		}
	}
	for k, t := range st.G {
		e[k] = t
	}
	st.ghostEnv(e)
	v.env = e
	v.G0 = map[string]*Term{}
	for k, t := range st.G {
		v.G0[k] = t
	}
	for _, r := range c.Req {
		st.F.assume(elab(r, e, Bool))
	}
	if c.Match != nil {
		st.spec = elab(c.Match, e, "")
	} else if c.Guide != nil {
		st.spec = elab(c.Guide, e, "")
	}
	st.pushFrame(fn, args, nil, nil, false)
	if loopAt(fn.Blocks[0]) != nil {
		if st.protect(func() bool { return st.atLoop(loopAt(fn.Blocks[0])) }) {
			return nil
		}
	}
	return []*State{st}
}

var _ ssa.Value

package main

// Back ends: a persistent z3 process per worker, and one-shot queries to z3
// and cvc5 for what it does not settle.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	known map[int]bool
	nDT   int
	nFun  int
	nSrt  int
}

var (
	solverNS    int64
	solverCalls int64
	byBackend   = map[string]*int64{"z3": new(int64), "cvc5": new(int64), "rewriting": new(int64)}
)

func newSolver() *solver {
	return &solver{}
}

func (s *solver) start() {
	c := exec.Command("z3-new", "-in", "-smt2", "-memory:3000")
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	if err := c.Start(); err != nil {
		panic(err)
	}
	s.cmd, s.in, s.out = c, in, bufio.NewReader(out)
	s.known = map[int]bool{}
	s.nDT, s.nFun, s.nSrt = 0, 0, 0
	io.WriteString(in, "(set-option :print-success false)\n(set-option :timeout 4000)\n")
}

func (s *solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

var sigMu sync.Mutex

// decls returns the declarations not yet sent.
func decls(b *strings.Builder, nS, nD, nF *int) {
	for ; *nS < len(sig.USorts); *nS++ {
		fmt.Fprintf(b, "(declare-sort %s 0)\n", sig.USorts[*nS])
	}
	for _, grp := range sortGroups(sig.DT[*nD:]) {
		var names, bodies []string
		for _, n := range grp {
			names = append(names, "("+n+" 0)")
			var cs []string
			for _, c := range sig.Ctors[n] {
				t := "(" + c.Name
				for i := range c.Sels {
					t += " (" + c.Sels[i] + " " + c.Sorts[i] + ")"
				}
				cs = append(cs, t+")")
			}
			bodies = append(bodies, "("+strings.Join(cs, " ")+")")
		}
		fmt.Fprintf(b, "(declare-datatypes (%s) (%s))\n", strings.Join(names, " "), strings.Join(bodies, " "))
	}
	*nD = len(sig.DT)
	for ; *nF < len(sig.FunOrder); *nF++ {
		f := sig.Funs[sig.FunOrder[*nF]]
		fmt.Fprintf(b, "(declare-fun %s (%s) %s)\n", f.Name, strings.Join(f.Sorts, " "), f.Ret)
	}
}

// smtName is the name of a constant; constants of the same name may differ in
// sort.
func smtName(t *Term) string {
	return fmt.Sprintf("|%s@%d|", t.Op, t.ID)
}

// define emits definitions of all shared nodes of t and returns its name.
func define(b *strings.Builder, known map[int]bool, t *Term) string {
	if t.Op == "#bv" {
		return fmt.Sprintf("(_ bv%d %d)", t.Val, bvWidth(t.S))
	}
	if len(t.Args) == 0 {
		if t == True || t == False || isCtorApp(t) || sig.Funs[t.Op] != nil {
			return t.Op
		}
		if t.S == "Int" && (t.Op[0] >= '0' && t.Op[0] <= '9') {
			return t.Op
		}
		if !known[t.ID] {
			known[t.ID] = true
			fmt.Fprintf(b, "(declare-const %s %s)\n", smtName(t), t.S)
		}
		return smtName(t)
	}
	nm := fmt.Sprintf("n%d", t.ID)
	if known[t.ID] {
		return nm
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, define(b, known, a))
	}
	op := t.Op
	if strings.HasPrefix(op, "is-") {
		if _, ok := sig.Ctor[op[3:]]; ok {
			op = "(_ is " + op[3:] + ")"
		}
	}
	known[t.ID] = true
	if strings.HasPrefix(op, "(as const") {
		fmt.Fprintf(b, "(define-fun %s () %s (%s %s))\n", nm, t.S, op, strings.Join(as, " "))
	} else {
		fmt.Fprintf(b, "(define-fun %s () %s (%s %s))\n", nm, t.S, op, strings.Join(as, " "))
	}
	return nm
}

// check asks whether the conjunction is satisfiable: "sat", "unsat", "unknown".
func (s *solver) check(fs []*Term) string {
	t0 := time.Now()
	defer func() {
		atomic.AddInt64(&solverNS, int64(time.Since(t0)))
		atomic.AddInt64(&solverCalls, 1)
	}()
	if s.cmd != nil && len(s.known) > 40000 {
		s.stop()
	}
	if s.cmd == nil {
		s.start()
	}
	var b strings.Builder
	sigMu.Lock()
	decls(&b, &s.nSrt, &s.nDT, &s.nFun)
	sigMu.Unlock()
	var as []string
	for _, f := range fs {
		as = append(as, define(&b, s.known, f))
	}
	b.WriteString("(push)\n")
	for _, a := range as {
		fmt.Fprintf(&b, "(assert %s)\n", a)
	}
	b.WriteString("(check-sat)\n(pop)\n")
	if _, err := io.WriteString(s.in, b.String()); err != nil {
		s.stop()
		return "unknown"
	}
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.stop()
			return "unknown"
		}
		line = strings.TrimSpace(line)
		switch line {
		case "sat", "unsat", "unknown", "timeout":
			if line == "timeout" {
				line = "unknown"
			}
			return line
		case "":
			continue
		}
		if strings.HasPrefix(line, "(error") {
			dbg("z3: %s\n", line)
			if strings.Contains(line, "out of memory") || strings.Contains(line, "canceled") {
				s.stop()
				return "unknown"
			}
			solverErrors.Store(line, true)
			continue
		}
	}
}

var solverErrors sync.Map

// script renders a self-contained SMT-LIB query.
func script(fs []*Term) string {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	var x, y, z int
	sigMu.Lock()
	decls(&b, &x, &y, &z)
	sigMu.Unlock()
	known := map[int]bool{}
	var as []string
	for _, f := range fs {
		as = append(as, define(&b, known, f))
	}
	for _, a := range as {
		fmt.Fprintf(&b, "(assert %s)\n", a)
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

func oneShot(backend string, fs []*Term, timeout int) string {
	t0 := time.Now()
	defer func() {
		atomic.AddInt64(&solverNS, int64(time.Since(t0)))
		atomic.AddInt64(&solverCalls, 1)
	}()
	var c *exec.Cmd
	if backend == "z3" {
		c = exec.Command("z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", timeout), "-memory:3000")
	} else {
		c = exec.Command("cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", timeout*1000), "-")
	}
	c.Stdin = strings.NewReader(script(fs))
	out, _ := c.Output()
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" {
			return l
		}
	}
	return "unknown"
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// sortGroups orders sorts so that each group of mutually recursive ones comes
// after those it depends on.
func sortGroups(names []string) [][]string {
	in := map[string]bool{}
	for _, n := range names {
		in[n] = true
	}
	deps := func(n string) []string {
		var out []string
		for _, c := range sig.Ctors[n] {
			for _, s := range c.Sorts {
				for _, w := range strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' }) {
					if in[w] {
						out = append(out, w)
					}
				}
			}
		}
		return out
	}
	idx := map[string]int{}
	low := map[string]int{}
	on := map[string]bool{}
	var stack []string
	var out [][]string
	n := 0
	var visit func(x string)
	visit = func(x string) {
		n++
		idx[x], low[x] = n, n
		stack = append(stack, x)
		on[x] = true
		for _, y := range deps(x) {
			if idx[y] == 0 {
				visit(y)
				if low[y] < low[x] {
					low[x] = low[y]
				}
			} else if on[y] && idx[y] < low[x] {
				low[x] = idx[y]
			}
		}
		if low[x] == idx[x] {
			var g []string
			for {
				y := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[y] = false
				g = append(g, y)
				if y == x {
					break
				}
			}
			out = append(out, g)
		}
	}
	for _, x := range names {
		if idx[x] == 0 {
			visit(x)
		}
	}
	return out
}

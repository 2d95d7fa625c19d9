package main

// Which function of the source a contract belongs to. A contract names the function as
// the source did when the contract was written (spec/functions.json says what it was like).
// A function of that name is taken; otherwise one with the same parameters and results that
// has no contract of its own and calls the same functions; otherwise the contract is not
// used and the callers are verified with what they call in its place.

import (
	"encoding/json"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fnSig struct {
	Sig     string
	Recv    string
	Calls   []string
	Callers []string
}

// boundTo is the name under which the contracts know a function.
var boundTo = map[*ssa.Function]string{}

// absent: functions under contract that the source does not have any more, with their callers.
var absent = map[string][]string{}

func cname(fn *ssa.Function) string {
	return boundTo[fn]
}

func resultTypes(fn *ssa.Function) string {
	var rs []string
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		rs = append(rs, fn.Signature.Results().At(i).Type().String())
	}
	return strings.Join(rs, ",")
}

func describe(pr *Prog) map[string]*fnSig {
	out := map[string]*fnSig{}
	for n, fn := range pr.all {
		var ps []string
		for _, p := range fn.Params {
			ps = append(ps, p.Type().String())
		}
		s := &fnSig{Sig: strings.Join(ps, ",") + " -> " + resultTypes(fn)}
		if r := fn.Signature.Recv(); r != nil {
			s.Recv = r.Type().String()
		}
		out[n] = s
	}
	for n, fn := range pr.all {
		set := map[string]bool{}
		calls(fn, set, pr)
		for c := range set {
			out[n].Calls = append(out[n].Calls, c)
			if d := out[c]; d != nil {
				d.Callers = append(d.Callers, n)
			}
		}
	}
	for _, s := range out {
		sort.Strings(s.Calls)
		sort.Strings(s.Callers)
	}
	return out
}

func calls(fn *ssa.Function, set map[string]bool, pr *Prog) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && g.Parent() == nil {
					if k, ok := pr.key[g]; ok {
						set[k] = true
					} else {
						set[g.String()] = true
					}
				}
			}
		}
	}
	for _, g := range fn.AnonFuncs {
		calls(g, set, pr)
	}
}

// shortName is the name of a function without its receiver.
func shortName(k string) string { return k[strings.LastIndex(k, ".")+1:] }

type sigFile struct {
	Functions map[string]*fnSig
	Fields    map[string][][2]string // of the structs: name and type
}

func structs(pr *Prog) map[string][][2]string {
	out := map[string][][2]string{}
	for n, m := range pr.pkg.Members {
		if t, ok := m.(*ssa.Type); ok {
			if u, ok := t.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < u.NumFields(); i++ {
					out[n] = append(out[n], [2]string{u.Field(i).Name(), u.Field(i).Type().String()})
				}
			}
		}
	}
	return out
}

// fieldWas is the name the contracts use for a field that has been given another one.
var fieldWas = map[string]string{}

func fieldName(kind, name string) string {
	if w, ok := fieldWas[kind+"."+name]; ok {
		return w
	}
	return name
}

// bindFields finds the fields that have another name: each is the only new one of its
// type, or stands in the place of the one that is missing.
func bindFields(was, now map[string][][2]string) {
	for k, a := range was {
		b := now[k]
		in := func(l [][2]string, x [2]string) bool {
			for _, y := range l {
				if x == y {
					return true
				}
			}
			return false
		}
		for i, x := range a {
			if in(b, x) {
				continue
			}
			cand := ""
			n := 0
			for _, y := range b {
				if y[1] == x[1] && !in(a, y) {
					cand = y[0]
					n++
				}
			}
			if n > 1 && i < len(b) && len(a) == len(b) && b[i][1] == x[1] && !in(a, b[i]) {
				cand, n = b[i][0], 1
			}
			if n == 1 {
				fieldWas[k+"."+cand] = x[0]
			}
		}
	}
}

func writeSigs(pr *Prog, dir string) error {
	b, _ := json.MarshalIndent(sigFile{describe(pr), structs(pr)}, "", " ")
	return os.WriteFile(filepath.Join(dir, "functions.json"), append(b, '\n'), 0644)
}

func bindContracts(pr *Prog, dir string) error {
	b, err := os.ReadFile(filepath.Join(dir, "functions.json"))
	if err != nil {
		return err
	}
	var file sigFile
	if err := json.Unmarshal(b, &file); err != nil {
		return err
	}
	was := file.Functions
	bindFields(file.Fields, structs(pr))
	now := describe(pr)
	// the names a function had
	byName := map[string][]string{}
	for k := range was {
		byName[shortName(k)] = append(byName[shortName(k)], k)
	}
	used := map[string]bool{}
	var missing []string
	names := map[string]bool{}
	for n := range contracts {
		names[n] = true
	}
	for n := range names {
		key := ""
		for _, k := range sorted(byName[n]) {
			if key == "" || was[k].Recv != "" {
				key = k
			}
		}
		if key == "" {
			key = n
		}
		if fn := pr.all[key]; fn != nil && (was[key] == nil || now[key].Sig == was[key].Sig) {
			boundTo[fn], used[key], pr.fns[n] = n, true, fn
			continue
		}
		// moved to another type, or made a function or a method
		var same []string
		for k := range pr.all {
			if shortName(k) == n && was[k] == nil && was[key] != nil && now[k].Sig == was[key].Sig {
				same = append(same, k)
			}
		}
		if len(same) == 1 {
			boundTo[pr.all[same[0]]], used[same[0]], pr.fns[n] = n, true, pr.all[same[0]]
			continue
		}
		delete(pr.fns, n)
		missing = append(missing, n+" "+key)
	}
	sort.Strings(missing)
	for _, m := range missing {
		n, key, _ := strings.Cut(m, " ")
		w := was[key]
		best, bestN, tie := "", -1, false
		if w != nil {
			for k := range pr.all {
				if used[k] || was[k] != nil || now[k].Sig != w.Sig {
					continue
				}
				score := 0
				for _, c := range now[k].Calls {
					if has(w.Calls, c) {
						score++
					}
				}
				for _, c := range now[k].Callers {
					if has(w.Callers, c) {
						score++
					}
				}
				if score > bestN {
					best, bestN, tie = k, score, false
				} else if score == bestN {
					tie = true
				}
			}
		}
		if best != "" && !tie {
			boundTo[pr.all[best]], used[best], pr.fns[n] = n, true, pr.all[best]
			continue
		}
		// callers under contract, perhaps through others that have none
		cs := []string{}
		seen := map[string]bool{}
		var up func(k string)
		up = func(k string) {
			if was[k] == nil || seen[k] {
				return
			}
			seen[k] = true
			for _, c := range was[k].Callers {
				if names[shortName(c)] {
					if !has(cs, shortName(c)) && shortName(c) != n {
						cs = append(cs, shortName(c))
					}
				} else {
					up(c)
				}
			}
		}
		up(key)
		if len(cs) > 0 {
			absent[n] = cs
		}
	}
	for n := range absent {
		for v := range loopInvs {
			if v != n && absent[v] == nil {
				loopInvs[v] = append(loopInvs[v], loopInvs[n]...)
			}
		}
		delete(contracts, n)
	}
	return nil
}

func has(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func sorted(l []string) []string {
	l = append([]string(nil), l...)
	sort.Strings(l)
	return l
}

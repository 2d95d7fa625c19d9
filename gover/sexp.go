package main

import (
	"fmt"
	"strings"
)

// Sexp is an atom (A != "") or a list.
type Sexp struct {
	A      string
	L      []*Sexp
	List   bool
	Line   int
	Quoted bool
}

func (s *Sexp) String() string {
	if !s.List {
		if s.Quoted {
			return fmt.Sprintf("%q", s.A)
		}
		return s.A
	}
	var p []string
	for _, x := range s.L {
		p = append(p, x.String())
	}
	return "(" + strings.Join(p, " ") + ")"
}

func (s *Sexp) head() string {
	if s.List && len(s.L) > 0 && !s.L[0].List {
		return s.L[0].A
	}
	return ""
}

func parseSexps(src string) ([]*Sexp, error) {
	i, line := 0, 1
	var stack [][]*Sexp
	var lines []int
	cur := []*Sexp{}
	for i < len(src) {
		ch := src[i]
		switch {
		case ch == '\n':
			line++
			i++
		case ch == ' ' || ch == '\t' || ch == '\r':
			i++
		case ch == ';':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case ch == '(':
			stack = append(stack, cur)
			lines = append(lines, line)
			cur = []*Sexp{}
			i++
		case ch == ')':
			if len(stack) == 0 {
				return nil, fmt.Errorf("line %d: unbalanced )", line)
			}
			l := &Sexp{L: cur, List: true, Line: lines[len(lines)-1]}
			cur = append(stack[len(stack)-1], l)
			stack = stack[:len(stack)-1]
			lines = lines[:len(lines)-1]
			i++
		case ch == '"':
			j := i + 1
			var b strings.Builder
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' && j+1 < len(src) {
					j++
					switch src[j] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					default:
						b.WriteByte(src[j])
					}
				} else {
					b.WriteByte(src[j])
				}
				j++
			}
			cur = append(cur, &Sexp{A: b.String(), Line: line, Quoted: true})
			i = j + 1
		default:
			j := i
			if ch == '\'' { // character literal 'x' or '\n'
				j = i + 1
				if src[j] == '\\' {
					j++
				}
				j += 2
			} else {
				for j < len(src) && !strings.ContainsRune(" \t\r\n();\"", rune(src[j])) {
					j++
				}
			}
			cur = append(cur, &Sexp{A: src[i:j], Line: line})
			i = j
		}
	}
	if len(stack) > 0 {
		return nil, fmt.Errorf("line %d: missing )", lines[len(lines)-1])
	}
	return cur, nil
}

// sexpSort turns a sort expression into SMT text; abbreviations: W (word), R (rune), B8 (byte), Int...
func sexpSort(s *Sexp) string {
	if !s.List {
		switch s.A {
		case "W":
			return BV64
		case "R":
			return BV32
		case "B8":
			return BV8
		case "Str":
			return listSort(BV8)
		case "VDecl":
			return tupleSort([]string{listSort(BV8), BV64})
		}
		return s.A
	}
	switch s.head() {
	case "_":
		return s.String()
	case "Array":
		return arraySort(sexpSort(s.L[1]), sexpSort(s.L[2]))
	case "List":
		return listSort(sexpSort(s.L[1]))
	case "Opt":
		return optSort(sexpSort(s.L[1]))
	case "Tuple":
		var ss []string
		for _, x := range s.L[1:] {
			ss = append(ss, sexpSort(x))
		}
		return tupleSort(ss)
	}
	panic("bad sort " + s.String())
}

func tupleName(ss []string) string {
	var ks []string
	for _, x := range ss {
		ks = append(ks, sortKey(x))
	}
	return "T_" + strings.Join(ks, "__")
}

func tupleSort(ss []string) string {
	var ks []string
	for _, x := range ss {
		ks = append(ks, sortKey(x))
	}
	k := strings.Join(ks, "__")
	n := "T_" + k
	if !sig.isDT(n) {
		c := &Ctor{Name: "tup_" + k}
		for i, x := range ss {
			c.Sels = append(c.Sels, fmt.Sprintf("t%d_%s", i, k))
			c.Sorts = append(c.Sorts, x)
		}
		sig.addDT(n, c)
	}
	return n
}

package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	pkg  *ssa.Package
	fns  map[string]*ssa.Function
	prog *ssa.Program
	all  map[string]*ssa.Function // by receiver and name
	key  map[*ssa.Function]string
}

func loadProg(dir string) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
		packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes, Dir: dir}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("%d packages", len(pkgs))
	}
	for _, e := range pkgs[0].Errors {
		return nil, fmt.Errorf("%v", e)
	}
	if over := countedLoops(pkgs[0]); over != nil {
		cfg.Overlay = over
		if pkgs, err = packages.Load(cfg, "."); err != nil {
			return nil, err
		}
		for _, e := range pkgs[0].Errors {
			return nil, fmt.Errorf("%v", e)
		}
	}
	prog, sp := ssautil.Packages(pkgs, ssa.NaiveForm)
	sp[0].Build()
	p := &Prog{pkg: sp[0], prog: prog, fns: map[string]*ssa.Function{}, all: map[string]*ssa.Function{}, key: map[*ssa.Function]string{}}
	for _, m := range sp[0].Members {
		switch m := m.(type) {
		case *ssa.Function:
			p.fns[m.Name()] = m
			p.all[m.Name()] = m
			p.key[m] = m.Name()
		case *ssa.Type:
			for _, T := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := prog.MethodSets.MethodSet(T)
				for i := 0; i < ms.Len(); i++ {
					f := prog.MethodValue(ms.At(i))
					if f != nil && f.Pkg == sp[0] && f.Synthetic == "" {
						p.fns[f.Name()] = f
						k := types.TypeString(f.Signature.Recv().Type(), func(*types.Package) string { return "" }) + "." + f.Name()
						p.all[k] = f
						p.key[f] = k
					}
				}
			}
		}
	}
	return p, nil
}

// countedLoops writes the range clauses over integers out as loops with a
// condition, "for i, n := 0, x; i < n; i++", which is what they mean as long
// as the body does not assign i.
func countedLoops(pkg *packages.Package) map[string][]byte {
	type edit struct {
		from, to int
		text     string
	}
	over := map[string][]byte{}
	for _, file := range pkg.Syntax {
		name := pkg.Fset.Position(file.Pos()).Filename
		src, err := os.ReadFile(name)
		if err != nil {
			continue
		}
		off := func(p token.Pos) int { return pkg.Fset.Position(p).Offset }
		var edits []edit
		ast.Inspect(file, func(n ast.Node) bool {
			r, ok := n.(*ast.RangeStmt)
			if !ok || r.Value != nil || r.Key != nil && r.Tok != token.DEFINE {
				return true
			}
			b, ok := pkg.TypesInfo.TypeOf(r.X).(*types.Basic)
			if !ok || b.Info()&types.IsInteger == 0 {
				return true
			}
			key, typ := fmt.Sprintf("rangeInt%d", r.Pos()), b.Name()
			if b.Info()&types.IsUntyped != 0 {
				typ = "int"
			}
			if id, ok := r.Key.(*ast.Ident); ok && id.Name != "_" {
				key = id.Name
				obj, assigned := pkg.TypesInfo.Defs[id], false
				uses := func(e ast.Expr) bool {
					id, ok := e.(*ast.Ident)
					return ok && pkg.TypesInfo.Uses[id] == obj
				}
				ast.Inspect(r.Body, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.AssignStmt:
						for _, l := range n.Lhs {
							assigned = assigned || uses(l)
						}
					case *ast.IncDecStmt:
						assigned = assigned || uses(n.X)
					case *ast.UnaryExpr:
						assigned = assigned || n.Op == token.AND && uses(n.X)
					}
					return true
				})
				if assigned {
					return true
				}
			}
			end := fmt.Sprintf("rangeEnd%d", r.Pos())
			edits = append(edits, edit{off(r.For), off(r.X.Pos()), fmt.Sprintf("for %s, %s := %s(0), %s(", key, end, typ, typ)})
			edits = append(edits, edit{off(r.X.End()), off(r.X.End()), fmt.Sprintf("); %s < %s; %s++", key, end, key)})
			return true
		})
		if edits == nil {
			continue
		}
		sort.Slice(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
		out, at := "", 0
		for _, e := range edits {
			out += string(src[at:e.from]) + e.text
			at = e.to
		}
		over[name] = []byte(out + string(src[at:]))
	}
	if len(over) == 0 {
		return nil
	}
	return over
}

package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mstate follows the contents of a few memory cells along a path as linear
// forms over the values they had when the path (or the last unknown call)
// began, together with the comparisons the path has decided.
type mstate struct {
	marks
	cells map[string]lin // cell name -> contents
	regs  map[string]lin // load registers -> what they saw
	f     facts
	aux   map[string]lin // rule's own registers
}

func (s mstate) Key() string {
	var b strings.Builder
	b.WriteString(s.marks.Key())
	for _, m := range []map[string]lin{s.cells, s.regs, s.aux} {
		ks := make([]string, 0, len(m))
		for k, v := range m {
			ks = append(ks, k+"="+v.String())
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ";"))
		b.WriteByte('|')
	}
	return b.String() + s.f.key()
}

func putLin(m map[string]lin, k string, v lin) map[string]lin {
	n := make(map[string]lin, len(m)+1)
	for a, b := range m {
		n[a] = b
	}
	n[k] = v
	return n
}

func (s mstate) cell(k string) lin {
	if v, ok := s.cells[k]; ok {
		return v
	}
	return lv(k + "@0")
}

func (s mstate) setCell(k string, v lin) mstate { s.cells = putLin(s.cells, k, v); return s }
func (s mstate) setAux(k string, v lin) mstate  { s.aux = putLin(s.aux, k, v); return s }

// havoc gives a cell an unknown value with the given name, forgetting what was
// known about that name.
func (s mstate) havoc(k, name string) mstate {
	var nf facts
	uses := func(l lin) bool { _, ok := l[name]; return ok }
	for _, l := range s.f.ge {
		if !uses(l) {
			nf.ge = append(nf.ge, l)
		}
	}
	for _, l := range s.f.eq {
		if !uses(l) {
			nf.eq = append(nf.eq, l)
		}
	}
	s.f = nf
	nr := map[string]lin{}
	for a, b := range s.regs {
		if !uses(b) {
			nr[a] = b
		}
	}
	s.regs = nr
	return s.setCell(k, lv(name))
}

// tidy forgets unknowns no cell holds any more.
func (s mstate) tidy() mstate {
	live := map[string]bool{}
	for _, m := range []map[string]lin{s.cells, s.aux} {
		for _, l := range m {
			for k := range l {
				live[k] = true
			}
		}
	}
	dead := func(l lin) bool {
		for k := range l {
			if strings.Contains(k, "@") && !strings.Contains(k, "P") && !live[k] {
				return true
			}
		}
		return false
	}
	var nf facts
	for _, l := range s.f.ge {
		if !dead(l) {
			nf.ge = append(nf.ge, l)
		}
	}
	for _, l := range s.f.eq {
		if !dead(l) {
			nf.eq = append(nf.eq, l)
		}
	}
	s.f = nf
	nr := map[string]lin{}
	for a, b := range s.regs {
		if !dead(b) {
			nr[a] = b
		}
	}
	s.regs = nr
	return s
}

func (g *Graph) memLeaf(s mstate, e env) func(VC) (lin, bool) {
	return func(v VC) (lin, bool) {
		if l, ok := s.regs[vkey(v)]; ok {
			return l, true
		}
		if w, ok := g.resolve1(v, e); ok && w != v {
			if l, ok := s.regs[vkey(w)]; ok {
				return l, true
			}
		}
		if k, ok := v.v.(*ssa.Const); ok && isBool(k.Type()) && k.Value != nil {
			if k.Value.ExactString() == "true" {
				return lc(1), true
			}
			return lc(0), true
		}
		return nil, false
	}
}

// memStep updates the cells named by watch ("" = not watched).
func (g *Graph) memStep(n *Node, s mstate, e env, watch func(addr VC) string) mstate {
	if n.kind != KInstr || n.instr == nil {
		return s
	}
	switch x := n.instr.(type) {
	case *ssa.Store:
		if k := watch(VC{x.Addr, n.ctx}); k != "" {
			v := VC{x.Val, n.ctx}
			if !isNumeric(x.Val.Type()) && !isBool(x.Val.Type()) {
				return s.setCell(k, lv("v:"+g.symAt(v, e)))
			}
			return s.setCell(k, g.linEval(v, g.memLeaf(s, e)))
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if k := watch(VC{x.X, n.ctx}); k != "" {
				s.regs = putLin(s.regs, vkey(VC{x, n.ctx}), s.cell(k))
				return s
			}
		}
	case *ssa.Call:
		// atomic operations on a watched cell
		f := x.Call.StaticCallee()
		if f == nil || f.Pkg == nil && f.Origin() == nil || len(x.Call.Args) == 0 || !strings.Contains(f.String(), "sync/atomic") {
			return s
		}
		k := watch(VC{x.Call.Args[0], n.ctx})
		if k == "" {
			return s
		}
		switch {
		case strings.HasPrefix(f.Name(), "Load"):
			s.regs = putLin(s.regs, vkey(VC{x, n.ctx}), s.cell(k))
		case strings.HasPrefix(f.Name(), "Store"):
			return s.setCell(k, g.linEval(VC{x.Call.Args[1], n.ctx}, g.memLeaf(s, e)))
		case strings.HasPrefix(f.Name(), "Add"):
			v := s.cell(k).plus(g.linEval(VC{x.Call.Args[1], n.ctx}, g.memLeaf(s, e)))
			s = s.setCell(k, v)
			s.regs = putLin(s.regs, vkey(VC{x, n.ctx}), v)
		}
	}
	return s
}

// memEdge records decided comparisons.
func (g *Graph) memEdge(s mstate, at []Atom) mstate {
	leaf := g.memLeaf(s, nil)
	for _, a := range at {
		if a.Op == 0 {
			if l, ok := s.regs[vkey(g.norm(a.X))]; ok {
				v := int64(0)
				if a.Val {
					v = 1
				}
				s.f = s.f.add(token.EQL, l, lc(v)).checkConst(token.EQL, l.minus(lc(v)))
			}
			continue
		}
		if a.X.v == nil || a.Y.v == nil || !isNumeric(a.X.v.Type()) {
			continue
		}
		x, y := g.linEval(a.X, leaf), g.linEval(a.Y, leaf)
		s.f = s.f.add(a.Op, x, y).checkConst(a.Op, x.minus(y))
	}
	return s
}

// checkConst records a comparison of constants that does not hold.
func (f facts) checkConst(op token.Token, d lin) facts {
	k, ok := d.isConst()
	if !ok {
		return f
	}
	holds := true
	switch op {
	case token.EQL:
		holds = k == 0
	case token.NEQ:
		holds = k != 0
	case token.LSS:
		holds = k < 0
	case token.LEQ:
		holds = k <= 0
	case token.GTR:
		holds = k > 0
	case token.GEQ:
		holds = k >= 0
	}
	if !holds {
		f.eq = append(append([]lin{}, f.eq...), lc(1))
	}
	return f
}

// contradicts: the facts cannot all hold.
func (f facts) contradicts() bool {
	for _, l := range f.eq {
		if k, ok := l.isConst(); ok && k != 0 {
			return true
		}
	}
	for i, x := range f.ge {
		for _, y := range f.ge[i:] {
			if k, ok := x.plus(y).isConst(); ok && k < 0 {
				return true
			}
		}
		for _, y := range f.eq {
			if k, ok := x.plus(y).isConst(); ok && k < 0 {
				return true
			}
			if k, ok := x.minus(y).isConst(); ok && k < 0 {
				return true
			}
		}
	}
	for i, x := range f.eq {
		for _, y := range f.eq[i+1:] {
			if k, ok := x.minus(y).isConst(); ok && k != 0 {
				return true
			}
			if k, ok := x.plus(y).isConst(); ok && k != 0 {
				return true
			}
		}
	}
	return false
}

// memPaths runs f along every path with the contents of the watched cells.
func (c *C) memPaths(g *Graph, watch func(addr VC) string, init mstate,
	f func(n *Node, s mstate, e env) (mstate, bool),
	edge func(n *Node, s mstate, at []Atom) (mstate, bool),
	end func(n *Node, s mstate, w func() []string)) {
	r := &Rule{Init: init}
	r.NodeE = func(g *Graph, n *Node, a Auto, e env) Auto {
		s := a.(mstate)
		if f != nil {
			var ok bool
			if s, ok = f(n, s, e); !ok {
				return nil
			}
		}
		s = g.memStep(n, s, e, watch)
		for _, l := range s.cells {
			if l[""] > 12 || l[""] < -12 {
				// a loop that counts without end: more rounds say nothing new
				if k, isc := l.isConst(); !isc || k == l[""] && inLoopNode(n) {
					return nil
				}
			}
		}
		return s
	}
	r.Edge = func(g *Graph, n *Node, a Auto, at []Atom) Auto {
		s := g.memEdge(a.(mstate), at)
		if s.f.contradicts() {
			return nil
		}
		if edge != nil {
			var ok bool
			if s, ok = edge(n, s, at); !ok {
				return nil
			}
		}
		return s
	}
	if end != nil {
		r.End = func(g *Graph, n *Node, a Auto, w func() []string) { end(n, a.(mstate), w) }
	}
	c.run(g, g.entry, r)
}

// fieldCell names the fields of one object of type T: watch function.
func (g *Graph) fieldCell(T *types.Named, base string, fields ...string) func(VC) string {
	return func(a VC) string {
		nm, f, b, ok := g.fieldOf(a)
		if !ok || nm.Obj() != T.Obj() || !contains(fields, f) || base != "" && g.sym(b) != base {
			return ""
		}
		if base == "" {
			return g.sym(b) + "." + f
		}
		return f
	}
}

func inLoopNode(n *Node) bool {
	return n.instr != nil && n.instr.Block() != nil && inLoop(n.instr.Block())
}

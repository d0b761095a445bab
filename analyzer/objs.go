package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- object contents along paths

// ostate follows what the fields of the objects of one struct type hold along a
// path: "object|field" -> symbolic value. Missing entries are unknown (the value
// the object had before).
type ostate struct {
	marks
	f map[string]string
}

func (s ostate) Key() string {
	ks := make([]string, 0, len(s.f))
	for k, v := range s.f {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return s.marks.Key() + strings.Join(ks, ";")
}

func (s ostate) put(k, v string) ostate {
	n := make(map[string]string, len(s.f)+1)
	for a, b := range s.f {
		n[a] = b
	}
	if v == "" {
		delete(n, k)
	} else {
		n[k] = v
	}
	s.f = n
	return s
}

// zeroSym gives all zero values one name.
func zeroSym(s string) string {
	switch s {
	case "nil", "#0", "#false", `#""`, "#nil", "#0:string", "#":
		return "0"
	}
	return s
}

func fieldNames(T *types.Named) []string {
	s, ok := T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < s.NumFields(); i++ {
		out = append(out, s.Field(i).Name())
	}
	return out
}

// objOf names the object of type T an expression denotes (pointer to it,
// possibly in an interface).
func (g *Graph) objOf(v VC, e env) (VC, string) {
	for i := 0; i < 6; i++ {
		w, _ := g.resolve1(v, e)
		w = g.trace(w)
		switch x := w.v.(type) {
		case *ssa.MakeInterface:
			v = VC{x.X, w.c}
			continue
		case *ssa.TypeAssert:
			if !x.CommaOk {
				v = VC{x.X, w.c}
				continue
			}
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
				v = VC{ta.X, w.c}
				continue
			}
		case *ssa.ChangeInterface:
			v = VC{x.X, w.c}
			continue
		case *ssa.ChangeType:
			v = VC{x.X, w.c}
			continue
		}
		return w, g.sym(w)
	}
	return v, g.sym(v)
}

// objStep applies a node to the contents of objects of type T. sum gives the
// effect of unexpanded methods: name -> field -> value ("$1" stands for the
// first argument).
func (g *Graph) objStep(n *Node, s ostate, e env, T *types.Named, sum map[string]map[string]string) ostate {
	if n.kind != KInstr && n.kind != KDeferCall {
		return s
	}
	isT := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		nm, ok := p.Elem().(*types.Named)
		return ok && nm.Obj() == T.Obj()
	}
	switch x := n.instr.(type) {
	case *ssa.Alloc:
		if isT(x.Type()) {
			_, o := g.objOf(VC{x, n.ctx}, e)
			for _, f := range fieldNames(T) {
				s = s.put(o+"|"+f, "0")
			}
		}
	case *ssa.Store:
		a := g.trace(VC{x.Addr, n.ctx})
		if fa, ok := a.v.(*ssa.FieldAddr); ok && isT(fa.X.Type()) {
			_, o := g.objOf(VC{fa.X, a.c}, e)
			val := zeroSym(g.symAt(VC{x.Val, n.ctx}, e))
			// a field copied from another tracked object has its contents
			if _, fn, b, ok := g.fieldOf(VC{x.Val, n.ctx}); ok && isT(b.v.Type()) {
				_, bo := g.objOf(b, e)
				if cv, ok := s.f[bo+"|"+fn]; ok {
					val = cv
				}
			}
			return s.put(o+"|"+fieldName(fa.X.Type(), fa.Field), val)
		}
		if isT(x.Addr.Type()) {
			_, o := g.objOf(a, e)
			v := g.trace(VC{x.Val, n.ctx})
			switch y := v.v.(type) {
			case *ssa.Const:
				for _, f := range fieldNames(T) {
					s = s.put(o+"|"+f, "0")
				}
			case *ssa.UnOp:
				if y.Op == token.MUL {
					_, b := g.objOf(VC{y.X, v.c}, e)
					for _, f := range fieldNames(T) {
						val, ok := s.f[b+"|"+f]
						if !ok {
							val = b + "." + f
						}
						s = s.put(o+"|"+f, val)
					}
				}
			default:
				for _, f := range fieldNames(T) {
					s = s.put(o+"|"+f, "?")
				}
			}
			return s
		}
	}
	if op, ok := mapOpOf(n); ok && op.kind == "clear" {
		if nm, fn, b, ok := g.fieldOf(op.m); ok && nm.Obj() == T.Obj() {
			_, o := g.objOf(b, e)
			return s.put(o+"|"+fn, "0")
		}
	}
	if isCallNode(n) && len(n.callees) == 0 && sum != nil {
		cc := n.instr.(ssa.CallInstruction).Common()
		if cc.IsInvoke() {
			if m, ok := sum[cc.Method.Name()]; ok {
				_, o := g.objOf(VC{cc.Value, n.ctx}, e)
				for f, v := range m {
					if strings.HasPrefix(v, "$") {
						v = zeroSym(g.argSym(n, int(v[1]-'0')))
					}
					s = s.put(o+"|"+f, v)
				}
			}
		}
	}
	return s
}

// objPaths runs f along every path with the contents of the objects of type T.
func (c *C) objPaths(g *Graph, T *types.Named, sum map[string]map[string]string,
	f func(n *Node, s ostate, e env) (ostate, bool), edge func(n *Node, s ostate, at []Atom) (ostate, bool),
	end func(n *Node, s ostate)) {
	r := &Rule{Init: ostate{}}
	r.NodeE = func(g *Graph, n *Node, a Auto, e env) Auto {
		s, ok := f(n, a.(ostate), e)
		if !ok {
			return nil
		}
		return g.objStep(n, s, e, T, sum)
	}
	if edge != nil {
		r.Edge = func(g *Graph, n *Node, a Auto, at []Atom) Auto {
			s, ok := edge(n, a.(ostate), at)
			if !ok {
				return nil
			}
			return s
		}
	}
	if end != nil {
		r.End = func(g *Graph, n *Node, a Auto, w func() []string) { end(n, a.(ostate)) }
	}
	c.run(g, g.entry, r)
}

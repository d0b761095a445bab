package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lin is a linear form over named quantities; the constant part is under "".
type lin map[string]int64

func lc(k int64) lin  { return lin{"": k}.tidy() }
func lv(s string) lin { return lin{s: 1} }
func (a lin) tidy() lin {
	for k, v := range a {
		if v == 0 {
			delete(a, k)
		}
	}
	return a
}
func (a lin) add(b lin, s int64) lin {
	r := lin{}
	for k, v := range a {
		r[k] += v
	}
	for k, v := range b {
		r[k] += s * v
	}
	return r.tidy()
}
func (a lin) plus(b lin) lin  { return a.add(b, 1) }
func (a lin) minus(b lin) lin { return a.add(b, -1) }
func (a lin) zero() bool      { return len(a) == 0 }
func (a lin) eq(b lin) bool   { return a.minus(b).zero() }
func (a lin) isConst() (int64, bool) {
	if len(a) == 0 {
		return 0, true
	}
	if len(a) == 1 {
		if v, ok := a[""]; ok {
			return v, true
		}
	}
	return 0, false
}
func (a lin) String() string {
	ks := []string{}
	for k := range a {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		n := k
		if n == "" {
			n = "1"
		}
		fmt.Fprintf(&b, "%+d*%s", a[k], n)
	}
	if b.Len() == 0 {
		return "0"
	}
	return b.String()
}

// linEval turns a value into a linear form. leaf may give a value a form of its
// own (register contents known on the path); everything it does not know
// becomes an opaque quantity named by its symbol.
func (g *Graph) linEval(v VC, leaf func(v VC) (lin, bool)) lin { return g.linEvalD(v, leaf, 0) }

func (g *Graph) linEvalD(v VC, leaf func(v VC) (lin, bool), d int) lin {
	if d > 40 {
		return lv(g.sym(v))
	}
	v = g.norm(v)
	if leaf != nil {
		if l, ok := leaf(v); ok {
			return l
		}
	}
	switch x := v.v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			if i := constant.ToInt(x.Value); i.Kind() == constant.Int {
				if n, ok := constant.Int64Val(i); ok {
					return lc(n)
				}
			}
		}
	case *ssa.Convert:
		if isNumeric(x.Type()) && isNumeric(x.X.Type()) {
			return g.linEvalD(VC{x.X, v.c}, leaf, d+1)
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD:
			return g.linEvalD(VC{x.X, v.c}, leaf, d+1).plus(g.linEvalD(VC{x.Y, v.c}, leaf, d+1))
		case token.SUB:
			return g.linEvalD(VC{x.X, v.c}, leaf, d+1).minus(g.linEvalD(VC{x.Y, v.c}, leaf, d+1))
		case token.MUL:
			a, b := g.linEvalD(VC{x.X, v.c}, leaf, d+1), g.linEvalD(VC{x.Y, v.c}, leaf, d+1)
			if k, ok := a.isConst(); ok {
				a, b = b, lc(k)
			}
			if k, ok := b.isConst(); ok {
				r := lin{}
				for s, c := range a {
					r[s] = c * k
				}
				return r.tidy()
			}
		}
	case *ssa.UnOp:
		if x.Op == token.SUB {
			return lin{}.minus(g.linEvalD(VC{x.X, v.c}, leaf, d+1))
		}
	case *ssa.Call, *ssa.Extract:
		if w, ok := g.step(v); ok {
			return g.linEvalD(w, leaf, d+1)
		}
	}
	return lv(g.sym(v))
}

func isNumeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

// fact is "form >= 0" (or == 0).
type facts struct {
	ge []lin
	eq []lin
}

func (f facts) key() string {
	var s []string
	for _, l := range f.ge {
		s = append(s, "g"+l.String())
	}
	for _, l := range f.eq {
		s = append(s, "e"+l.String())
	}
	sort.Strings(s)
	return strings.Join(s, ";")
}

// add records a decided comparison a op b.
func (f facts) add(op token.Token, a, b lin) facts {
	n := facts{append([]lin{}, f.ge...), append([]lin{}, f.eq...)}
	put := func(l lin) {
		if _, c := l.isConst(); c {
			return
		}
		for _, x := range n.ge {
			if x.eq(l) {
				return
			}
		}
		n.ge = append(n.ge, l)
	}
	switch op {
	case token.LSS: // a < b : b-a-1 >= 0
		put(b.minus(a).minus(lc(1)))
	case token.LEQ:
		put(b.minus(a))
	case token.GTR:
		put(a.minus(b).minus(lc(1)))
	case token.GEQ:
		put(a.minus(b))
	case token.EQL:
		l := a.minus(b)
		if _, c := l.isConst(); !c {
			n.eq = append(n.eq, l)
		}
	}
	return n
}

// nonneg: some fact entails l >= 0.
func (f facts) nonneg(l lin) bool {
	if k, ok := l.isConst(); ok {
		return k >= 0
	}
	for _, x := range f.ge {
		// l = x + k with k >= 0
		if k, ok := l.minus(x).isConst(); ok && k >= 0 {
			return true
		}
	}
	for _, x := range f.eq {
		if k, ok := l.minus(x).isConst(); ok && k >= 0 {
			return true
		}
		if k, ok := l.plus(x).isConst(); ok && k >= 0 {
			return true
		}
	}
	// sum of two facts
	for i, x := range f.ge {
		for _, y := range f.ge[i:] {
			if k, ok := l.minus(x).minus(y).isConst(); ok && k >= 0 {
				return true
			}
		}
	}
	return false
}

func (f facts) zero(l lin) bool {
	if l.zero() {
		return true
	}
	for _, x := range f.eq {
		if l.eq(x) || l.plus(x).zero() {
			return true
		}
	}
	return f.nonneg(l) && f.nonneg(lin{}.minus(l))
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ranges of integer values along paths. The ends math.MinInt64 and
// math.MaxInt64 stand for "that or beyond".

type ival struct{ lo, hi int64 }

var topI = ival{math.MinInt64, math.MaxInt64}

type rstate struct{ m map[string]ival }

func (s rstate) Key() string {
	ks := make([]string, 0, len(s.m))
	for k, v := range s.m {
		ks = append(ks, fmt.Sprintf("%s=%d:%d", k, v.lo, v.hi))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func (s rstate) set(k string, v ival) rstate {
	m := make(map[string]ival, len(s.m)+1)
	for a, b := range s.m {
		m[a] = b
	}
	m[k] = v
	return rstate{m}
}

func typeRange(t types.Type) ival {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return topI
	}
	n := intSize(t)
	if b.Info()&types.IsUnsigned != 0 {
		if n == 64 {
			return ival{0, math.MaxInt64}
		}
		return ival{0, 1<<uint(n) - 1}
	}
	if n == 64 {
		return topI
	}
	return ival{-(1 << uint(n-1)), 1<<uint(n-1) - 1}
}

func (s rstate) val(g *Graph, v VC) ival {
	w := g.norm(v)
	if k, ok := constInt(w.v); ok {
		return ival{k, k}
	}
	if r, ok := s.m[vkey(w)]; ok {
		return r
	}
	return typeRange(w.v.Type())
}

func fits(r ival, t types.Type) ival {
	w := typeRange(t)
	if r.lo < w.lo || r.hi > w.hi || (r.hi == math.MaxInt64 && w.hi == math.MaxInt64 && w.lo != 0 && r.lo == 0) {
		return w
	}
	return r
}

func (s rstate) step(g *Graph, n *Node) rstate {
	if n.kind != KInstr || n.instr == nil {
		return s
	}
	if st, ok := n.instr.(*ssa.Store); ok && isInt(st.Val.Type()) {
		if k := cellKey(g, VC{st.Addr, n.ctx}); k != "" {
			return s.set(k, s.val(g, VC{st.Val, n.ctx}))
		}
		return s
	}
	v, ok := n.instr.(ssa.Value)
	if !ok || !isInt(v.Type()) {
		return s
	}
	put := func(r ival) rstate { return s.set(vkey(VC{v, n.ctx}), r) }
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if k := cellKey(g, VC{x.X, n.ctx}); k != "" {
				if r, ok := s.m[k]; ok {
					return put(r)
				}
			}
			return put(typeRange(x.Type()))
		}
		if x.Op == token.SUB {
			a := s.val(g, VC{x.X, n.ctx})
			if a.lo == math.MinInt64 || a.hi == math.MaxInt64 && typeRange(x.Type()).lo == 0 {
				return put(typeRange(x.Type()))
			}
			return put(fits(ival{-a.hi, -a.lo}, x.Type()))
		}
	case *ssa.Convert:
		if isInt(x.X.Type()) {
			a := s.val(g, VC{x.X, n.ctx})
			to, from := typeRange(x.Type()), typeRange(x.X.Type())
			if from.lo == 0 && to.lo != 0 && a.hi == math.MaxInt64 || a.lo < to.lo || a.hi > to.hi {
				return put(to)
			}
			return put(a)
		}
	case *ssa.BinOp:
		if !isInt(x.X.Type()) || !isInt(x.Y.Type()) {
			return s
		}
		a, b := s.val(g, VC{x.X, n.ctx}), s.val(g, VC{x.Y, n.ctx})
		small := func(r ival) bool { return r.lo > -(1<<40) && r.hi < 1<<40 }
		switch x.Op {
		case token.REM:
			if b.lo == b.hi && b.lo > 0 {
				r := ival{-(b.lo - 1), b.lo - 1}
				if a.lo >= 0 {
					r.lo = 0
				}
				return put(r)
			}
		case token.AND:
			if b.lo == b.hi && b.lo >= 0 {
				return put(ival{0, b.lo})
			}
			if a.lo == a.hi && a.lo >= 0 {
				return put(ival{0, a.lo})
			}
		case token.ADD:
			if small(a) && small(b) {
				return put(fits(ival{a.lo + b.lo, a.hi + b.hi}, x.Type()))
			}
		case token.SUB:
			if small(a) && small(b) {
				return put(fits(ival{a.lo - b.hi, a.hi - b.lo}, x.Type()))
			}
		case token.SHR:
			if a.lo >= 0 {
				return put(ival{0, a.hi})
			}
		case token.QUO:
			if b.lo == b.hi && b.lo > 0 && a.lo >= 0 {
				return put(ival{a.lo / b.lo, a.hi / b.lo})
			}
		}
	}
	return s
}

func (s rstate) learn(g *Graph, x Atom) (rstate, bool) {
	if x.Op == 0 || x.X.v == nil || x.Y.v == nil || !isInt(x.X.v.Type()) || !isInt(x.Y.v.Type()) {
		return s, true
	}
	a, b := s.val(g, x.X), s.val(g, x.Y)
	up := func(k int64) int64 {
		if k == math.MaxInt64 {
			return k
		}
		return k + 1
	}
	dn := func(k int64) int64 {
		if k == math.MinInt64 {
			return k
		}
		return k - 1
	}
	na, nb := a, b
	switch x.Op {
	case token.LSS:
		na.hi, nb.lo = min(a.hi, dn(b.hi)), max(b.lo, up(a.lo))
	case token.LEQ:
		na.hi, nb.lo = min(a.hi, b.hi), max(b.lo, a.lo)
	case token.GTR:
		na.lo, nb.hi = max(a.lo, up(b.lo)), min(b.hi, dn(a.hi))
	case token.GEQ:
		na.lo, nb.hi = max(a.lo, b.lo), min(b.hi, a.hi)
	case token.EQL:
		na = ival{max(a.lo, b.lo), min(a.hi, b.hi)}
		nb = na
	case token.NEQ:
		if b.lo == b.hi && a.lo == b.lo {
			na.lo = up(a.lo)
		}
		if b.lo == b.hi && a.hi == b.lo {
			na.hi = dn(a.hi)
		}
	}
	if na.lo > na.hi || nb.lo > nb.hi {
		return s, false
	}
	for i, v := range []VC{x.X, x.Y} {
		if _, k := v.v.(*ssa.Const); !k {
			r := na
			if i == 1 {
				r = nb
			}
			s = s.set(vkey(g.norm(v)), r)
			if u, ok := v.v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if k := cellKey(g, VC{u.X, v.c}); k != "" && unchangedSince(u, x.B) {
					s = s.set(k, r)
				}
			}
		}
	}
	return s, true
}

// rangePaths runs f at every node of every path with the ranges known there.
func (c *C) rangePaths(g *Graph, start *Node, f func(n *Node, s rstate)) {
	r := &Rule{Init: rstate{}}
	r.NodeE = func(g *Graph, n *Node, a Auto, e env) Auto {
		s := a.(rstate)
		f(n, s)
		return s.step(g, n)
	}
	r.Edge = func(g *Graph, n *Node, a Auto, at []Atom) Auto {
		s := a.(rstate)
		for _, x := range at {
			var ok bool
			if s, ok = s.learn(g, x); !ok {
				return nil
			}
		}
		return s
	}
	r.Flow = func(g *Graph, ed *Edge, a Auto, e env) Auto {
		s := a.(rstate)
		if ed.phiTo != nil {
			idx := -1
			for i, p := range ed.phiTo.Preds {
				if p == ed.phiFrom {
					idx = i
				}
			}
			loop := ed.phiTo.Dominates(ed.phiFrom)
			o := s
			for _, in := range ed.phiTo.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if idx >= 0 && isInt(ph.Type()) {
					v := o.val(g, VC{ph.Edges[idx], ed.phiCtx})
					if loop {
						v = typeRange(ph.Type())
					}
					s = s.set(vkey(VC{ph, ed.phiCtx}), v)
				}
			}
		}
		if ed.retFrom != nil && ed.ret != nil {
			if call, ok := ed.retCall.(*ssa.Call); ok {
				o := s
				for i, r := range ed.ret.Results {
					if !isInt(r.Type()) {
						continue
					}
					v := o.val(g, VC{r, ed.retFrom})
					if len(ed.ret.Results) == 1 {
						s = s.set(vkey(VC{call, ed.retTo}), v)
						continue
					}
					for _, u := range *call.Referrers() {
						if ex, ok := u.(*ssa.Extract); ok && ex.Index == i {
							s = s.set(vkey(VC{ex, ed.retTo}), v)
						}
					}
				}
			}
		}
		return s
	}
	c.run(g, start, r)
}

// cellKey names a local integer variable that lives in memory.
func cellKey(g *Graph, v VC) string {
	if al, ok := g.trace(v).v.(*ssa.Alloc); ok {
		return "cell" + vkey(VC{al, g.trace(v).c})
	}
	return ""
}

// unchangedSince: nothing is stored between the load and the comparison.
func unchangedSince(u *ssa.UnOp, b VC) bool {
	cmp, ok := b.v.(*ssa.BinOp)
	if !ok || cmp.Block() != u.Block() {
		return false
	}
	on := false
	for _, in := range u.Block().Instrs {
		if in == ssa.Instruction(u) {
			on = true
		}
		if in == ssa.Instruction(cmp) {
			return on
		}
		if !on {
			continue
		}
		switch in.(type) {
		case *ssa.Store, *ssa.Call:
			return false
		}
	}
	return false
}

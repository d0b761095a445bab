package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Loops that must visit everything.

// source: the node asks a map iteration or a channel for the next item.
func nextOf(n *Node) (src VC, ok bool) {
	if n.kind != KInstr {
		return
	}
	switch x := n.instr.(type) {
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok && !x.IsString {
			return VC{r.X, n.ctx}, true
		}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return VC{x.X, n.ctx}, true
		}
	}
	return
}

// gotItem: the branch decided whether there was a next item.
func gotItem(g *Graph, at []Atom) (src VC, got, ok bool) {
	for _, a := range at {
		if a.Op != 0 {
			continue
		}
		w := g.trace(a.X)
		ex, isx := w.v.(*ssa.Extract)
		if !isx {
			continue
		}
		switch t := ex.Tuple.(type) {
		case *ssa.Next:
			if r, okr := t.Iter.(*ssa.Range); okr && ex.Index == 0 {
				return VC{r.X, w.c}, a.Val, true
			}
		case *ssa.UnOp:
			if t.Op == token.ARROW && ex.Index == 1 {
				return VC{t.X, w.c}, a.Val, true
			}
		}
	}
	return
}

func (g *Graph) entries() []*Node {
	r := []*Node{g.entry}
	for _, s := range g.spawns {
		r = append(r, s.entry)
	}
	return r
}

func (n *Node) entryOf(g *Graph) *Node {
	if s := spawnOf(n); s != nil {
		return s.entry
	}
	return g.entry
}

// drainAll: every item of the source is visited exactly once before the next
// is asked for, and asking stops only when there are no more.
func (c *C) drainAll(g *Graph, key string, isSrc func(v VC) bool, visit func(g *Graph, n *Node, e env) bool) (loops int) {
	return c.drainAllX(g, key, isSrc, visit, nil)
}

// drainAllX: excused says that a branch decided that the item needs no visit.
func (c *C) drainAllX(g *Graph, key string, isSrc func(v VC) bool, visit func(g *Graph, n *Node, e env) bool, excused func(at []Atom) bool) (loops int) {
	starts := map[*Node]bool{}
	for _, n := range g.nodes {
		if s, ok := nextOf(n); ok && isSrc(s) {
			starts[n.entryOf(g)] = true
			loops++
		}
	}
	const (
		pend = iota
		begun
		done
		seen
	)
	for _, st := range g.entries() {
		if !starts[st] {
			continue
		}
		bad := map[string]bool{}
		rep := func(k, why string, n *Node) {
			if !bad[k] {
				bad[k] = true
				c.failN("drain|"+k+"|"+key, n, why)
			}
		}
		tr := &track{key: key, once: true}
		tr.ev = func(g *Graph, n *Node) []int { return nil }
		tr.step = func(g *Graph, n *Node, m marks) (marks, bool) {
			if s, ok := nextOf(n); ok && isSrc(s) {
				if m.has(pend) {
					rep("skip", "an item is passed over", n)
					return m, false
				}
				m = m.set(begun).clear(done).clear(seen)
			}
			if visit(g, n, tr.e) {
				if m.has(seen) && m.has(begun) && !m.has(done) {
					rep("twice", "an item is handled twice", n)
					return m, false
				}
				if m.has(pend) {
					c.okN(n)
				}
				m = m.clear(pend).set(seen)
			}
			m.twice = 0
			return m, true
		}
		tr.edge = func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
			if s, got, ok := gotItem(g, at); ok && isSrc(s) {
				if got {
					m = m.set(pend)
				} else {
					m = m.set(done)
				}
			}
			if excused != nil && excused(at) {
				m = m.clear(pend)
			}
			m.twice = 0
			return m, true
		}
		tr.end = func(g *Graph, n *Node, m marks) string {
			if !normalEnd(n) {
				return ""
			}
			if m.has(pend) {
				return "an item is passed over"
			}
			if m.has(begun) && !m.has(done) {
				return "the iteration stops before all items were visited"
			}
			return ""
		}
		c.track(g, st, tr)
	}
	return loops
}

// everyRound: a loop over all elements of a slice of the given kind reaches
// body in every round and ends only after the last element. full judges the
// loop's limit when it is not the length of such a slice.
func (c *C) everyRound(g *Graph, key string, kind func(t types.Type) bool, body func(g *Graph, n *Node) bool, full func(v VC) (yes, known bool)) (loops int) {
	type lk struct {
		x *Ctx
		p *ssa.Phi
	}
	done := map[lk]bool{}
	for _, n := range g.nodes {
		if n.kind != KInstr {
			continue
		}
		ia, ok := n.instr.(*ssa.IndexAddr)
		if !ok || !kind(ia.X.Type()) {
			continue
		}
		cnt, ok := counterOf(ia.Index)
		if cnt == nil || cnt.phi == nil || done[lk{n.ctx, cnt.phi}] {
			continue
		}
		done[lk{n.ctx, cnt.phi}] = true
		if !ok {
			c.undecided(n.posn(c.P) + " loop of unknown shape")
			continue
		}
		loops++
		if !cnt.upFromZero() {
			down := cnt.step == -1 && cnt.add == 0 && (cnt.cont == token.GEQ || cnt.cont == token.GTR)
			if k, isk := constInt(cnt.limit); down && isk && (cnt.cont == token.GEQ && k == 0 || cnt.cont == token.GTR && k == -1) {
				c.undecided(n.posn(c.P) + " loop downwards")
				continue
			}
			c.failN("bounds|"+key, n, "the loop does not start at the first element and go on one by one")
			continue
		}
		if s, isl := isLen(cnt.limit); isl && kind(s.Type()) {
			c.okN(n)
		} else if yes, known := full(VC{cnt.limit, n.ctx}); known && !yes {
			c.failN("limit|"+key, n, "the loop does not go up to the last element")
			continue
		} else if !known {
			c.undecided(n.posn(c.P) + " loop limit")
		} else {
			c.okN(n)
		}
		const (
			in = iota
			did
			end
		)
		isCond := func(a Atom) (bool, bool) {
			b, ok := a.B.v.(*ssa.BinOp)
			if !ok || a.B.c != n.ctx {
				return false, false
			}
			for i, v := range []ssa.Value{b.X, b.Y} {
				if v != ssa.Value(cnt.phi) && v != ia.Index {
					if bo, ok := v.(*ssa.BinOp); !ok || bo.X != ssa.Value(cnt.phi) || cnt.add == 0 {
						continue
					}
				}
				op := a.Op // as decided, x op y
				if _, k := b.X.(*ssa.Const); k {
					op = swapOp[op]
				}
				if i == 1 {
					op = swapOp[op]
				}
				switch op {
				case token.LSS, token.NEQ:
					return true, true
				case token.GEQ, token.EQL:
					return false, true
				}
			}
			return false, false
		}
		bad := map[string]bool{}
		tr := &track{key: key, once: true}
		tr.ev = func(g *Graph, n *Node) []int { return nil }
		tr.step = func(g *Graph, nd *Node, m marks) (marks, bool) {
			hit := body(g, nd)
			if isGo(nd) && !hit {
				for _, s := range nd.spawn {
					hit = hit || g.subtree(s, func(x *Node) bool { return body(g, x) })
				}
			}
			if hit {
				m = m.set(did)
			}
			m.twice = 0
			return m, true
		}
		tr.edge = func(g *Graph, nd *Node, at []Atom, m marks) (marks, bool) {
			for _, a := range at {
				more, ok := isCond(a)
				if !ok {
					continue
				}
				if m.has(in) && !m.has(did) {
					if !bad["skip"] {
						bad["skip"] = true
						c.failN("round|"+key, nd, "an element is passed over in some round")
					}
					return m, false
				}
				m = m.clear(in).clear(did)
				if more {
					m = m.set(in)
				} else {
					m = m.set(end)
				}
			}
			m.twice = 0
			return m, true
		}
		tr.end = func(g *Graph, nd *Node, m marks) string {
			if normalEnd(nd) && m.has(in) && !m.has(end) {
				return "the loop over all elements stops early"
			}
			return ""
		}
		c.track(g, n.entryOf(g), tr)
	}
	return loops
}

// shardKind: a slice (or array) of shards.
func shardKind(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	switch x := t.Underlying().(type) {
	case *types.Slice:
		return typeIs(x.Elem(), "SingleShardMap")
	case *types.Array:
		return typeIs(x.Elem(), "SingleShardMap")
	}
	return false
}

func chanListKind(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, ok = s.Elem().Underlying().(*types.Chan)
	return ok
}

// shardLimit: the number of shards, as the constructor uses it.
func (c *C) shardLimit(g *Graph) func(v VC) (bool, bool) {
	want := ""
	if f := c.P.Func("zutils", "NewShardLockMaps"); f != nil {
		for _, h := range []*Graph{c.P.Graph(f, &Policy{})} {
			for _, n := range h.nodes {
				if ms, ok := n.instr.(*ssa.MakeSlice); ok && shardKind(ms.Type()) {
					want = h.sym(VC{ms.Len, n.ctx})
				}
			}
		}
	}
	return func(v VC) (bool, bool) {
		if want == "" {
			return false, false
		}
		if g.sym(v) == want {
			return true, true
		}
		if b, ok := g.trace(v).v.(*ssa.BinOp); ok && (b.Op == token.SUB || b.Op == token.QUO || b.Op == token.SHR) {
			return false, true
		}
		if _, ok := g.trace(v).v.(*ssa.Const); ok {
			return false, true
		}
		return false, false
	}
}

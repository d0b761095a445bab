package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// counter is a loop variable: from init, by step, while (var cont limit).
type counter struct {
	init  ssa.Value
	add   int64 // offset of the used value from the phi (range loops: +1)
	step  int64
	cont  token.Token // condition under which the body is entered
	limit ssa.Value
	phi   *ssa.Phi
}

// counterOf recognises a value that counts through a loop.
func counterOf(idx ssa.Value) (*counter, bool) {
	for {
		if cv, ok := idx.(*ssa.Convert); ok && isInt(cv.X.Type()) {
			idx = cv.X
			continue
		}
		break
	}
	c := &counter{}
	switch x := idx.(type) {
	case *ssa.Phi:
		c.phi = x
	case *ssa.BinOp:
		k, isc := constInt(x.Y)
		p, isp := x.X.(*ssa.Phi)
		if !isp || !isc || x.Op != token.ADD && x.Op != token.SUB {
			return nil, false
		}
		if x.Op == token.SUB {
			k = -k
		}
		c.phi, c.add = p, k
	default:
		return nil, false
	}
	for _, e := range c.phi.Edges {
		if b, isb := e.(*ssa.BinOp); isb && (b.Op == token.ADD || b.Op == token.SUB) && b.X == ssa.Value(c.phi) {
			k, ok := constInt(b.Y)
			if !ok {
				return nil, false
			}
			if b.Op == token.SUB {
				k = -k
			}
			if c.step != 0 && c.step != k {
				return nil, false
			}
			c.step = k
			continue
		}
		if c.init != nil && c.init != e {
			return nil, false
		}
		c.init = e
	}
	if c.init == nil || c.step == 0 {
		return nil, false
	}
	// the test: in a block that dominates the body
	var cand []ssa.Value
	cand = append(cand, idx, c.phi)
	for _, v := range cand {
		for _, u := range *v.Referrers() {
			b, isb := u.(*ssa.BinOp)
			if !isb {
				continue
			}
			op := b.Op
			other := b.Y
			if b.Y == v {
				other = b.X
				op = swapOp[op]
			}
			if _, ok := negOp[op]; !ok {
				continue
			}
			for _, w := range *b.Referrers() {
				iff, y := w.(*ssa.If)
				if !y || !inLoop(iff.Block()) {
					continue
				}
				t, f := iff.Block().Succs[0], iff.Block().Succs[1]
				tin, fin := c.inBody(t), c.inBody(f)
				switch {
				case tin && !fin:
				case fin && !tin:
					op = negOp[op]
				default:
					continue
				}
				c.cont, c.limit = op, other
				if v == ssa.Value(c.phi) && idx != ssa.Value(c.phi) {
					// tested before the offset is added
					c.limit = nil
				}
				return c, c.limit != nil
			}
		}
	}
	return c, false
}

// inBody: the block leads to the next round of the loop.
func (c *counter) inBody(b *ssa.BasicBlock) bool {
	head := c.phi.Block()
	for i, p := range head.Preds {
		e := c.phi.Edges[i]
		if bo, ok := e.(*ssa.BinOp); !ok || bo.X != ssa.Value(c.phi) {
			continue
		}
		if reachesAvoiding(b, p, head) {
			return true
		}
	}
	return false
}

func reachesAvoiding(from, to, avoid *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{from}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == to {
			return true
		}
		if seen[x] || x == avoid {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return false
}

func constInt(v ssa.Value) (int64, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil {
		return 0, false
	}
	i := constant.ToInt(k.Value)
	if i.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(i)
}

func reachesBlock(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{from}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == to {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return false
}

// upFromZero: the counter takes 0,1,2,... as long as it is below limit.
func (c *counter) upFromZero() bool {
	k, ok := constInt(c.init)
	return ok && k+c.add == 0 && c.step == 1 && (c.cont == token.LSS || c.cont == token.NEQ)
}

// isLen: the value is len(x); returns x.
func isLen(v ssa.Value) (ssa.Value, bool) {
	call, ok := v.(*ssa.Call)
	if !ok {
		return nil, false
	}
	b, ok := call.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return nil, false
	}
	return call.Call.Args[0], true
}

// typeTest: a branch decided a type assertion.
func typeTest(g *Graph, at []Atom) (T types.Type, v VC, holds, ok bool) {
	for _, a := range at {
		if a.Op != 0 {
			continue
		}
		x := g.norm(a.X)
		ex, isx := x.v.(*ssa.Extract)
		if !isx || ex.Index != 1 {
			continue
		}
		if ta, ista := ex.Tuple.(*ssa.TypeAssert); ista {
			return ta.AssertedType, VC{ta.X, x.c}, a.Val, true
		}
	}
	return nil, VC{}, false, false
}

func typeIs(t types.Type, name string) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name
}

package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", func(c *C) {
		RS, G, R := c.needType("znet", "RouterSlices"), c.needType("znet", "GroupRouter"), c.needType("znet", "Request")
		if RS == nil || G == nil || R == nil {
			return
		}
		c.Rule("list", "The list stored for a route is exactly the router's middleware, then (through a group) the group's, then the given handlers, in an array of its own")
		routeLists(c, RS, G)
		c.atLeast(4, "route registrations")
		c.Rule("use", "Adding middleware appends exactly the given handlers, in order, to those there; a group starts with exactly its own, in an array nobody else holds")
		useLists(c, RS, G)
		c.atLeast(6, "middleware registrations")
		c.Rule("cursor", "Between two handler calls the position advances by exactly one from its present value, each call uses the handler at the present position, which is inside the list, and running ends only when no position is left")
		cursorRule(c, R)
		c.atLeast(2, "handler calls")
		c.Rule("steps", "Each step of a classic router runs when the step counter names it; between steps the counter advances by one unless a jump was asked for, which is then consumed; running ends when the counter is past the last step")
		stepsRule(c, R)
		c.atLeast(4, "router steps")
		c.Rule("abort", "Aborting moves the position or the step past the last element")
		abortRule(c, R)
		c.atLeast(2, "abort paths")
		c.Rule("start", "A request starts before its first handler and its first step")
		startRule(c, R)
		c.atLeast(3, "initial values")
	})
}

// handlerVariadic: the sym of the root's variadic handler parameter.
func handlerVariadic(g *Graph) string {
	sig := g.root.fn.Signature
	if !sig.Variadic() {
		return ""
	}
	last := g.root.fn.Params[len(g.root.fn.Params)-1]
	if sl, ok := last.Type().Underlying().(*types.Slice); ok && typeIs(sl.Elem(), "RouterHandler") {
		return g.sym(VC{last, g.root})
	}
	return ""
}

// wantSegs drops the lists the path knows to be empty.
func wantSegs(s lstate, syms ...string) []string {
	var out []string
	for _, x := range syms {
		if x == "" || s.has1("empty:"+x) || s.has1("nil:"+x) {
			continue
		}
		out = append(out, "L:"+x)
	}
	return out
}

func segsEq(a, b []string) bool { return strings.Join(a, " ") == strings.Join(b, " ") }

func routeLists(c *C, RS, G *types.Named) {
	c.rootsReaching([]string{"znet"}, nil, func(g *Graph, n *Node) bool {
		op, ok := mapOpOf(n)
		return ok && op.kind == "set" && g.isField(op.m, RS, "Apis") && handlerVariadic(g) != ""
	}, func(g *Graph, hits []*Node) {
		param := handlerVariadic(g)
		group := ""
		if rv := g.root.fn.Signature.Recv(); rv != nil && typeIs(rv.Type(), G.Obj().Name()) {
			group = "P0@0.Handlers"
		}
		c.listPaths(g, func(g *Graph, n *Node, s lstate, e env) (lstate, bool) {
			op, ok := mapOpOf(n)
			if !ok || op.kind != "set" || !g.isField(op.m, RS, "Apis") || n.kind != KInstr {
				return s, true
			}
			own := g.baseOf(op.m) + ".Handlers"
			want := wantSegs(s, own, group, param)
			got := g.list(op.val, e, s)
			key := fnName(g.root.fn)
			switch {
			case got.unk:
				c.undecided(n.posn(c.P) + " list of " + key)
			case !segsEq(got.segs, want):
				c.failN("list|"+key, n, fmt.Sprintf("the list stored for a route is %v, expected %v", got.segs, want))
			case !got.fresh && !(len(want) > 0 && want[0] == "L:"+param):
				c.failN("shared|"+key, n, "the list stored for a route shares its array with the middleware of others")
			default:
				c.okN(n)
			}
			return s, true
		}, nil, nil)
	})
}

func useLists(c *C, RS, G *types.Named) {
	seen := 0
	for _, f := range c.P.Roots("znet") {
		if f.Name() != "Use" && f.Name() != "Group" && f.Name() != "NewGroup" {
			continue
		}
		g := c.graph(f, nil)
		param := handlerVariadic(g)
		if param == "" {
			continue
		}
		seen++
		key := fnName(f)
		isGroup := f.Name() != "Use"
		c.listPaths(g, func(g *Graph, n *Node, s lstate, e env) (lstate, bool) {
			if _, ok := n.instr.(*ssa.Return); !ok || n.ctx != g.root || n.kind != KInstr {
				return s, true
			}
			var cell string
			var val VC
			cnt := 0
			for k, v := range s.cells {
				if strings.HasSuffix(k, ".Handlers") {
					cell, val = k, v
					cnt++
				}
			}
			if cnt == 0 && s.has1("empty:"+param) {
				c.okN(n)
				return s, true
			}
			if cnt != 1 {
				if cnt == 0 {
					c.failN("lost|"+key, n, "the given middleware is not kept")
				} else {
					c.undecided(n.posn(c.P))
				}
				return s, true
			}
			got := g.list(val, e, s)
			old := cell
			if isGroup {
				old = ""
			}
			want := wantSegs(s, old, param)
			switch {
			case got.unk:
				c.undecided(n.posn(c.P) + " middleware of " + key)
			case !segsEq(got.segs, want):
				c.failN("order|"+key, n, fmt.Sprintf("the middleware kept is %v, expected %v", got.segs, want))
			case isGroup && !got.fresh:
				c.failN("alias|"+key, n, "a group keeps its caller's array: adding to one group changes another")
			default:
				c.okN(n)
			}
			return s, true
		}, nil, nil)
	}
	if seen == 0 {
		c.missing("Use/Group of the routers")
	}
	// nothing else changes the middleware of a router or group
	for _, f := range c.P.Roots("znet") {
		g := c.graph(f, nil)
		for _, n := range g.nodes {
			st, ok := n.instr.(*ssa.Store)
			if !ok || n.kind != KInstr {
				continue
			}
			if T, fld, base, ok := g.fieldOf(VC{st.Addr, n.ctx}); ok && typeIs(st.Val.Type(), RS.Obj().Name()) && T.Obj().Name() == "MsgHandle" && !g.isFresh(base) {
				c.failN("replaced|"+fld, n, "the route table of a running handler is replaced: middleware and routes registered so far are lost")
			}
			if T, fld, base, ok := g.fieldOf(VC{st.Addr, n.ctx}); ok && fld == "Handlers" && (T.Obj() == RS.Obj() || T.Obj() == G.Obj()) && !g.isFresh(base) {
				inUse := false
				for x := n.ctx; x != nil; x = x.parent {
					inUse = inUse || x.fn.Name() == "Use" || x.fn.Name() == "NewGroup" || x.fn.Name() == "Group"
				}
				if inUse {
					continue
				}
				c.failN("changed|"+fnName(f), n, "the middleware of a router or group is changed outside its Use")
			}
		}
	}
}

func cursorRule(c *C, R *types.Named) {
	f := c.needMethod("znet", "Request", "RouterSlicesNext")
	if f == nil {
		return
	}
	if !hasField(R, "index") || !hasField(R, "handlers") {
		c.missing("Request.index/handlers")
		return
	}
	g := c.graph(f, nil)
	length := lv("len(P0@0.handlers)")
	watch := g.fieldCell(R, "P0@0", "index")
	bad := func(n *Node, why string) { c.failN("next|"+why, n, why) }
	init := mstate{aux: map[string]lin{"base": lv("index@0")}}
	c.memPaths(g, watch, init, func(n *Node, s mstate, e env) (mstate, bool) {
		if !userCall(g, n) {
			return s, true
		}
		cc := n.instr.(ssa.CallInstruction).Common()
		v, _ := g.resolve1(VC{cc.Value, n.ctx}, e)
		v = g.trace(v)
		u, ok := v.v.(*ssa.UnOp)
		var ia *ssa.IndexAddr
		if ok {
			ia, ok = u.X.(*ssa.IndexAddr)
		}
		if !ok || g.sym(VC{ia.X, v.c}) != "P0@0.handlers" {
			c.undecided(n.posn(c.P) + " a handler that is not an element of the list")
			return s, false
		}
		at := g.linEval(VC{ia.Index, v.c}, g.memLeaf(s, e))
		cur, base := s.cell("index"), s.aux["base"]
		next := base.plus(lc(1))
		switch {
		case !at.eq(next):
			if k, isk := at.minus(next).isConst(); isk {
				if k > 0 {
					bad(n, "a handler is skipped")
				} else {
					bad(n, "a handler runs a second time")
				}
			} else {
				bad(n, "the handler run is not the one after the current position")
			}
		case !cur.eq(at):
			bad(n, "a handler runs while the position does not say so, so that what it does to the position (next, abort) goes wrong")
		case !s.f.nonneg(length.minus(at).minus(lc(1))):
			bad(n, "a handler is called at a position that was not checked against the list")
		case g.argSym(n, 0) != "P0@0":
			bad(n, "a handler gets another request than the one being handled")
		default:
			c.okN(n)
			nm := fmt.Sprintf("index@%d", n.id)
			s = s.havoc("index", nm)
			return s.setAux("base", lv(nm)).tidy(), true
		}
		return s, false
	}, nil, func(n *Node, s mstate, w func() []string) {
		if n.kind != KExit {
			return
		}
		next := s.aux["base"].plus(lc(1))
		switch {
		case !s.f.nonneg(next.minus(length)):
			c.fail("ends", g.P.pos(f.Pos()), fnName(f), "running can end before the last handler of the list", w()...)
		case !s.f.nonneg(s.cell("index").plus(lc(1)).minus(length)):
			c.fail("rerun", g.P.pos(f.Pos()), fnName(f), "after the last handler the position is inside the list again", w()...)
		default:
			c.ok(fnName(f))
		}
	})
}

func pkgConst(c *C, rel, name string) (int64, bool) {
	for _, p := range c.P.SSA.AllPackages() {
		if p.Pkg == nil || relPkg(p.Pkg.Path()) != rel || !inRepo(p.Pkg.Path()) {
			continue
		}
		if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
			if i := constant.ToInt(k.Val()); i.Kind() == constant.Int {
				return constant.Int64Val(i)
			}
		}
	}
	return 0, false
}

func stepsRule(c *C, R *types.Named) {
	f := c.needMethod("znet", "Request", "Call")
	over, ok := pkgConst(c, "znet", "HANDLE_OVER")
	if f == nil || !ok || !hasField(R, "steps") || !hasField(R, "needNext") {
		c.missing("Request.Call/steps/needNext/HANDLE_OVER")
		return
	}
	order := map[string]string{"PreHandle": "PRE_HANDLE", "Handle": "HANDLE", "PostHandle": "POST_HANDLE"}
	val := map[string]int64{}
	prev := int64(-1)
	for _, m := range []string{"PreHandle", "Handle", "PostHandle"} {
		k, ok := pkgConst(c, "znet", order[m])
		if !ok {
			c.missing(order[m])
			return
		}
		if k != prev+1 {
			c.failF("order|"+order[m], f, "the steps of a router are numbered out of order")
		} else {
			c.ok(order[m])
		}
		prev = k
		val[m] = k
	}
	if over != prev+1 {
		c.failF("order|HANDLE_OVER", f, "the end of a router's steps is numbered out of order")
	}
	g := c.graph(f, nil)
	watch := g.fieldCell(R, "P0@0", "steps", "needNext")
	init := mstate{aux: map[string]lin{"S": lv("steps@0"), "N": lc(0)}}
	// expected value of the counter when the next step is chosen
	expect := func(s mstate) (lin, bool) {
		S, N := s.aux["S"], s.aux["N"]
		switch {
		case s.f.zero(N):
			return S, true
		case s.f.zero(N.minus(lc(1))):
			return S.plus(lc(1)), true
		}
		return nil, false
	}
	const mCalled, mIdle = 0, 1
	bad := func(n *Node, why string) { c.failN("call|"+why, n, why) }
	ran := map[string]bool{}
	c.memPaths(g, watch, init, func(n *Node, s mstate, e env) (mstate, bool) {
		for _, k := range []string{"steps"} {
			if v := s.cell(k); v[""] > 6 || v[""] < -6 {
				return s, false
			}
		}
		if !isCallNode(n) {
			return s, true
		}
		cc := n.instr.(ssa.CallInstruction).Common()
		if !cc.IsInvoke() || calleeIface(cc) != "IRouter" {
			return s, true
		}
		m := cc.Method.Name()
		k, known := val[m]
		if !known {
			return s, true
		}
		exp, dec := expect(s)
		cur := s.cell("steps")
		switch {
		case g.sym(VC{cc.Value, n.ctx}) != "P0@0.router":
			bad(n, "the step of another router runs")
		case g.argSym(n, 1) != "P0@0":
			bad(n, "a step gets another request than the one being handled")
		case !s.f.zero(cur.minus(lc(k))):
			if kk, isc := cur.isConst(); isc && kk != k || contradicted(s, cur, k) {
				bad(n, "a step runs although the counter names another one")
			} else {
				bad(n, "a step runs although the counter may name another one")
			}
		case dec && !cur.eq(exp):
			bad(n, "between two steps the counter does not advance by one (or, after a jump, stay where the jump went)")
		case dec && s.has(mCalled) && s.f.zero(s.aux["N"]) && !s.f.zero(s.cell("needNext").minus(lc(1))):
			bad(n, "a jump is not consumed: the step it went to would run again")
		case !dec:
			bad(n, "the next step runs without looking whether a jump was asked for")
		default:
			ran[m] = true
			c.okN(n)
		}
		ran[m] = true
		a, b := fmt.Sprintf("steps@%d", n.id), fmt.Sprintf("needNext@%d", n.id)
		s = s.havoc("steps", a).havoc("needNext", b).setAux("S", lv(a)).setAux("N", lv(b))
		s.marks = s.marks.set(mCalled).clear(mIdle)
		s.twice = 0
		s.x = ""
		return s.tidy(), true
	}, func(n *Node, s mstate, at []Atom) (mstate, bool) {
		// a counter that names no step counts as a step without effect
		for _, a := range at {
			if a.Op != token.NEQ || !strings.HasPrefix(a.SY, "#") {
				continue
			}
			if l := g.linEval(a.X, g.memLeaf(s, nil)); !l.eq(s.cell("steps")) {
				continue
			}
			if !strings.Contains(s.x, a.SY+";") {
				s.x += a.SY + ";"
			}
		}
		if strings.Count(s.x, ";") == 3 {
			if s.has(mIdle) {
				return s, false // one such step stands for any number
			}
			s.marks = s.marks.set(mIdle)
			s.x = ""
			s = s.setAux("S", s.cell("steps")).setAux("N", s.cell("needNext"))
		}
		return s, true
	}, func(n *Node, s mstate, w func() []string) {
		if n.kind != KExit {
			return
		}
		exp, dec := expect(s)
		switch {
		case !s.has(mCalled):
			c.ok(fnName(f))
		case !dec:
			c.fail("ends", g.P.pos(f.Pos()), fnName(f), "running ends after a step without looking at the counter", w()...)
		case !s.f.nonneg(exp.minus(lc(over))):
			c.fail("ends", g.P.pos(f.Pos()), fnName(f), "running a router can end before its last step", w()...)
		default:
			c.ok(fnName(f))
		}
	})
	for m := range val {
		if !ran[m] {
			c.failF("never|"+m, f, "the step "+m+" of a router is never run")
		}
	}
	if gf := c.needMethod("znet", "Request", "Goto"); gf != nil {
		gg := c.graph(gf, nil)
		c.memPaths(gg, gg.fieldCell(R, "P0@0", "steps", "needNext"), mstate{}, nil, nil, func(n *Node, s mstate, w func() []string) {
			if !s.cell("steps").eq(lv(gg.psym(1))) {
				c.failF("goto|steps", gf, "a jump does not set the step it was asked for")
			} else if !s.f.zero(s.cell("needNext")) {
				c.failF("goto|next", gf, "the step a jump goes to is skipped")
			} else {
				c.ok(fnName(gf))
			}
		})
	}
}

func contradicted(s mstate, cur lin, k int64) bool {
	for _, x := range s.f.eq {
		if d, ok := cur.minus(x).isConst(); ok && d != k {
			return true
		}
	}
	return false
}

func abortRule(c *C, R *types.Named) {
	f := c.needMethod("znet", "Request", "Abort")
	over, ok := pkgConst(c, "znet", "HANDLE_OVER")
	if f == nil || !ok {
		return
	}
	g := c.graph(f, nil)
	const mSlices, mClassic = 0, 1
	length := lv("len(P0@0.handlers)")
	c.memPaths(g, g.fieldCell(R, "P0@0", "index", "steps"), mstate{}, nil, func(n *Node, s mstate, at []Atom) (mstate, bool) {
		for _, a := range at {
			if a.Op == 0 && strings.HasSuffix(a.SX, ".RouterSlicesMode") {
				if a.Val {
					s.marks = s.marks.set(mSlices)
				} else {
					s.marks = s.marks.set(mClassic)
				}
				s.twice = 0
			}
		}
		return s, true
	}, func(n *Node, s mstate, w func() []string) {
		if n.kind != KExit {
			return
		}
		okAll := true
		if !s.has(mClassic) {
			i := s.cell("index")
			k, isc := i.isConst()
			big := isc && k >= 1<<20 && k <= 1<<62
			if !big && !s.f.nonneg(i.plus(lc(1)).minus(length)) {
				okAll = false
				c.fail("slices", g.P.pos(f.Pos()), fnName(f), "after an abort handlers of the list can still follow", w()...)
			}
		}
		if !s.has(mSlices) {
			if !s.f.nonneg(s.cell("steps").minus(lc(over))) {
				okAll = false
				c.fail("classic", g.P.pos(f.Pos()), fnName(f), "after an abort steps of the router can still follow", w()...)
			}
		}
		if okAll {
			c.ok(fnName(f))
		}
	})
}

// startRule: the values a request starts with.
func startRule(c *C, R *types.Named) {
	pre, ok := pkgConst(c, "znet", "PRE_HANDLE")
	if !ok {
		return
	}
	want := map[string]int64{"index": -1, "steps": pre, "needNext": 1}
	check := func(f *ssa.Function, base string) {
		g := c.graph(f, nil)
		c.memPaths(g, g.fieldCell(R, base, "index", "steps", "needNext"), mstate{}, func(n *Node, s mstate, e env) (mstate, bool) {
			ret, ok := n.instr.(*ssa.Return)
			if !ok || n.kind != KInstr || n.ctx != g.root {
				return s, true
			}
			b := "P0@0"
			if base == "" {
				v := g.trace(VC{ret.Results[0], n.ctx})
				if mi, ok := v.v.(*ssa.MakeInterface); ok {
					v = g.trace(VC{mi.X, v.c})
				}
				if !g.isFresh(v) {
					return s, true
				}
				b = g.sym(v)
			}
			for fld, k := range want {
				name := fld
				if base == "" {
					name = b + "." + fld
				}
				v, set := s.cells[name]
				if !set && base == "" {
					v = lc(0) // a new object is zero
				} else if !set {
					c.failN(fnName(f)+"|"+fld, n, "the "+fld+" of a request is not set when it starts")
					continue
				}
				if !v.eq(lc(k)) {
					c.failN(fnName(f)+"|"+fld, n, fmt.Sprintf("a request starts with %s = %v", fld, v))
				} else {
					c.okN(n)
				}
			}
			return s, true
		}, nil, nil)
	}
	if f := c.needFunc("znet", "NewRequest"); f != nil {
		check(f, "")
	}
	if f := c.needMethod("znet", "Request", "Reset"); f != nil {
		check(f, "P0@0")
	}
}

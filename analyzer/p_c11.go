package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", func(c *C) {
		MH, RS := c.needType("znet", "MsgHandle"), c.needType("znet", "RouterSlices")
		if MH == nil || RS == nil {
			return
		}
		c.Rule("lookup", "Wherever a request's handlers are run, they were looked up under the request's own message identifier and bound to that request on the same path, exactly once; on the path where the lookup found nothing no handler runs and nothing panics")
		dispatchLookup(c, MH, RS)
		c.atLeast(4, "dispatches")
		c.Rule("bind", "Binding stores the given router or list in the request, and running uses what was bound; the request's identifier is that of its message")
		bindRule(c)
		c.atLeast(4, "request accessors")
		c.Rule("refuse", "A route is stored only on a path that found its identifier absent from the table, under the identifier and with the router or list the caller gave; on every other path registration ends in a panic")
		registerRule(c, MH, RS)
		c.atLeast(4, "registrations")
		c.Rule("group", "A group registers an identifier only when start <= identifier <= end, and panics otherwise")
		groupRule(c, RS)
		c.Rule("table", "Looking a list up returns the table's entry for the identifier and whether there is one; nothing removes or replaces an entry")
		tableRule(c, MH, RS)
		c.atLeast(1, "table operations")
	})
}

// apisOf: the map is a route table (of the classic or the list kind).
func apisOf(g *Graph, v VC, MH, RS *types.Named) string {
	if g.isField(v, MH, "Apis") {
		return "router"
	}
	if g.isField(v, RS, "Apis") {
		return "slices"
	}
	return ""
}

// dispatchLookup: every function of the package that runs a request.
func dispatchLookup(c *C, MH, RS *types.Named) {
	for _, f := range runners(c, MH) {
		g := c.graph(f, nil)
		req := ""
		for i, p := range f.Params {
			if typeIs(p.Type(), "IRequest") {
				req = g.psym(i)
			}
		}
		if req == "" {
			c.undecided(fnName(f) + " runs a request that is not its parameter")
			continue
		}
		invoke := func(n *Node, names ...string) bool {
			if !isCallNode(n) {
				return false
			}
			cc := n.instr.(ssa.CallInstruction).Common()
			if !cc.IsInvoke() || calleeIface(cc) != "IRequest" {
				return false
			}
			return contains(names, cc.Method.Name())
		}
		var tr *track
		entrySym := func(g *Graph, v VC) (string, bool) {
			s := g.symAt(v, tr.e)
			for _, t := range []string{"[" + req + ".GetMsgID()]", "[" + req + ".GetMessage().GetMsgID()]"} {
				if strings.HasSuffix(s, ".Apis"+t) {
					return s, true
				}
			}
			return s, strings.Contains(s, ".Apis[")
		}
		ownKey := func(s string) bool {
			return strings.HasSuffix(s, "["+req+".GetMsgID()]") || strings.HasSuffix(s, "["+req+".GetMessage().GetMsgID()]")
		}
		const mBound, mRun, mFound, mAbsent = 0, 1, 2, 3
		tr = &track{key: fnName(f),
			ev: func(g *Graph, n *Node) []int {
				switch {
				case invoke(n, "BindRouter", "BindRouterSlices"):
					return []int{mBound}
				case invoke(n, "Call", "RouterSlicesNext"):
					return []int{mRun}
				}
				return nil
			},
			on: func(g *Graph, n *Node, i int, m marks) string {
				if g.argSym(n, 0) != req {
					return "another request than the given one is run"
				}
				if i == mBound {
					v, _ := g.arg(n, 1)
					s, isApi := entrySym(g, v)
					if isApi && !ownKey(s) {
						return "the handlers bound to a request are those of another identifier"
					}
					if !isApi {
						if isConstNil(g.trace(v)) || strings.HasPrefix(s, "P") || strings.HasPrefix(s, "new") {
							return "the handlers bound to a request are not those registered for it"
						}
						c.undecided(n.posn(c.P))
					}
					if m.has(mAbsent) {
						return "a message nobody registered is bound to handlers"
					}
					return ""
				}
				if m.has(mRun) {
					return "the handlers of a request run twice"
				}
				if !m.has(mBound) {
					return "a request runs without its own handlers bound to it"
				}
				if m.has(mAbsent) {
					return "a message nobody registered runs handlers"
				}
				if !m.has(mFound) {
					return "handlers run although the lookup may have found none"
				}
				return ""
			},
			edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
				for _, a := range at {
					if a.Op == 0 && strings.HasPrefix(a.SX, "has(") && strings.Contains(a.SX, ".Apis[") {
						if !ownKey(strings.TrimSuffix(a.SX, ")")) {
							c.failN("key|"+fnName(n.fn()), n, "handlers are looked up under another key than the request's identifier")
						}
						if a.Val {
							m = m.set(mFound)
						} else {
							m = m.set(mAbsent)
						}
					}
					if v, isnil, ok := a.nilness(); ok {
						if s, isApi := entrySym(g, v); isApi && ownKey(s) {
							if isnil {
								m = m.set(mAbsent)
							} else {
								m = m.set(mFound)
							}
						}
					}
					if lx, ok := lenArg(g, a.X); ok {
						if s, isApi := entrySym(g, lx); isApi && ownKey(s) {
							if isZeroLen(a) {
								m = m.set(mAbsent)
							} else if a.SY == "#0" && (a.Op == token.NEQ || a.Op == token.GTR) {
								m = m.set(mFound)
							}
						}
					}
				}
				m.twice = 0
				return m, true
			},
			end: func(g *Graph, n *Node, m marks) string {
				if n.kind == KPanicRoot {
					return "dispatching panics"
				}
				if m.has(mFound) && !m.has(mRun) && !m.has(mAbsent) {
					return "the handlers registered for a message are not run"
				}
				return ""
			}}
		c.track(g, g.entry, tr)
	}
}

// runners lists the methods of T that are given a request and run it, leaving
// out those only called by another one of them.
func runners(c *C, T *types.Named) []*ssa.Function {
	var cand []*ssa.Function
	inner := map[*ssa.Function]bool{}
	for _, f := range c.P.AllFuncs {
		if fnRel(f) != "znet" || f.Signature.Recv() == nil || !typeIs(f.Signature.Recv().Type(), T.Obj().Name()) || len(f.Blocks) == 0 {
			continue
		}
		given := false
		for _, p := range f.Params {
			given = given || typeIs(p.Type(), "IRequest")
		}
		if !given {
			continue
		}
		g := c.graph(f, nil)
		runs := false
		for _, n := range g.nodes {
			if !isCallNode(n) || spawnOf(n) != nil {
				continue
			}
			cc := n.instr.(ssa.CallInstruction).Common()
			if cc.IsInvoke() && (cc.Method.Name() == "Call" || cc.Method.Name() == "RouterSlicesNext") && calleeIface(cc) == "IRequest" {
				runs = true
			}
		}
		if !runs {
			continue
		}
		cand = append(cand, f)
		for _, x := range g.ctxs {
			if x != g.root {
				inner[x.fn] = true
			}
		}
	}
	var out []*ssa.Function
	for _, f := range cand {
		if !inner[f] {
			out = append(out, f)
		}
	}
	return out
}

func isConstNil(v VC) bool {
	k, ok := v.v.(*ssa.Const)
	return ok && k.Value == nil
}

func bindRule(c *C) {
	R := c.needType("znet", "Request")
	if R == nil {
		return
	}
	store := func(method, field string, wantParam int) {
		f := c.P.methodOf(R, method)
		if f == nil || fnRel(f) != "znet" {
			c.failF("Request."+method, c.P.Func("znet", "NewRequest"), "requests have no "+method+" of their own")
			return
		}
		g := c.graph(f, nil)
		c.track(g, g.entry, &track{key: "Request." + method, once: true,
			ev: func(g *Graph, n *Node) []int {
				if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr && g.isField(VC{st.Addr, n.ctx}, R, field) {
					return []int{0}
				}
				return nil
			},
			on: func(g *Graph, n *Node, i int, m marks) string {
				st := n.instr.(*ssa.Store)
				if g.sym(VC{st.Val, n.ctx}) != g.psym(wantParam) {
					return "binding stores something else than what was given"
				}
				return ""
			},
			end: func(g *Graph, n *Node, m marks) string {
				if !m.has(0) {
					return "binding stores nothing"
				}
				return ""
			}})
	}
	if hasField(R, "router") && hasField(R, "handlers") {
		store("BindRouter", "router", 1)
		store("BindRouterSlices", "handlers", 1)
	} else {
		c.missing("Request.router/handlers")
	}
	get := func(method string, want ...string) {
		f := c.P.methodOf(R, method)
		if f == nil {
			c.missing("Request." + method)
			return
		}
		g := c.graph(f, nil)
		for _, r := range g.root.rets {
			s := g.sym(VC{r.instr.(*ssa.Return).Results[0], g.root})
			if contains(want, s) {
				c.okN(r)
			} else if strings.HasPrefix(s, "P0@0.") || strings.HasPrefix(s, "#") || s == "nil" {
				c.failN("Request."+method, r, "a request reports another "+method[3:]+" than that of its message ("+s+")")
			} else {
				c.undecided(r.posn(c.P))
			}
		}
	}
	get("GetMsgID", "P0@0.msg.GetMsgID()", "P0@0.msg.ID")
	get("GetMessage", "P0@0.msg")
	get("GetConnection", "P0@0.conn")
	get("GetData", "P0@0.msg.GetData()", "P0@0.msg.Data")
}

// registerRule: every exported way to a route table.
func registerRule(c *C, MH, RS *types.Named) {
	n0 := 0
	c.rootsReaching([]string{"znet"}, nil, func(g *Graph, n *Node) bool {
		op, ok := mapOpOf(n)
		return ok && op.kind == "set" && apisOf(g, op.m, MH, RS) != ""
	}, func(g *Graph, hits []*Node) {
		sig := g.root.fn.Signature
		idp, rp := -1, -1
		off := 0
		if sig.Recv() != nil {
			off = 1
		}
		for i := 0; i < sig.Params().Len(); i++ {
			t := sig.Params().At(i).Type()
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Uint32 && idp < 0 {
				idp = i + off
			}
			if typeIs(t, "IRouter") {
				rp = i + off
			}
		}
		n0++
		const mAbsent, mStored, mPresent = 0, 1, 2
		c.track(g, g.entry, &track{key: fnName(g.root.fn),
			ev: func(g *Graph, n *Node) []int {
				if spawnOf(n) != nil {
					return nil
				}
				if op, ok := mapOpOf(n); ok && op.kind == "set" && apisOf(g, op.m, MH, RS) != "" {
					return []int{mStored}
				}
				return nil
			},
			on: func(g *Graph, n *Node, i int, m marks) string {
				op, _ := mapOpOf(n)
				key := g.sym(op.m) + "[" + g.sym(op.key) + "]"
				if m.has(mPresent) && m.x == key {
					return "an identifier that is already registered is replaced"
				}
				if !m.has(mAbsent) || m.x != key {
					return "a route is stored without making sure its identifier was free"
				}
				if idp >= 0 && g.sym(op.key) != g.psym(idp) {
					return "a route is stored under another identifier than the given one"
				}
				if rp >= 0 && apisOf(g, op.m, MH, RS) == "router" && g.sym(op.val) != g.psym(rp) {
					return "another router than the given one is stored"
				}
				return ""
			},
			edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
				for _, a := range at {
					present, key := false, ""
					if a.Op == 0 && strings.HasPrefix(a.SX, "has(") && strings.Contains(a.SX, ".Apis[") {
						present, key = a.Val, strings.TrimSuffix(strings.TrimPrefix(a.SX, "has("), ")")
					} else if v, isnil, ok := a.nilness(); ok && strings.Contains(g.sym(v), ".Apis[") {
						present, key = !isnil, g.sym(v)
					} else {
						continue
					}
					if m.has(mStored) {
						continue
					}
					m = m.clear(mAbsent).clear(mPresent)
					if present {
						m = m.set(mPresent)
					} else {
						m = m.set(mAbsent)
					}
					m.x = key
				}
				return m, true
			},
			end: func(g *Graph, n *Node, m marks) string {
				if n.kind == KExit && m.has(mPresent) && !m.has(mStored) && idp >= 0 {
					return "registering an identifier twice is silently ignored instead of refused"
				}
				if n.kind == KPanicRoot && m.has(mAbsent) && !m.has(mPresent) && idp >= 0 && !m.has(mStored) {
					return "a free identifier is refused"
				}
				return ""
			}})
	})
	if n0 == 0 {
		c.missing("registration of routes")
	}
}

func groupRule(c *C, RS *types.Named) {
	f := c.needMethod("znet", "GroupRouter", "AddHandler")
	G := c.P.Type("znet", "GroupRouter")
	if f == nil || G == nil {
		return
	}
	if !hasField(G, "start") || !hasField(G, "end") {
		c.missing("GroupRouter.start/end")
		return
	}
	g := c.graph(f, nil)
	id := g.psym(1)
	const mLow, mHigh, mStored, mOut = 0, 1, 2, 3
	c.track(g, g.entry, &track{key: "GroupRouter.AddHandler",
		ev: func(g *Graph, n *Node) []int {
			if op, ok := mapOpOf(n); ok && op.kind == "set" && g.isField(op.m, RS, "Apis") {
				return []int{mStored}
			}
			return nil
		},
		on: func(g *Graph, n *Node, i int, m marks) string {
			if m.has(mOut) {
				return "an identifier outside the group's range is registered"
			}
			if !m.has(mLow) || !m.has(mHigh) {
				return "an identifier is registered without checking both ends of the group's range"
			}
			return ""
		},
		edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
			for _, a := range at {
				x, y, op := a.SX, a.SY, a.Op
				if y == id {
					x, y, op = y, x, swapOp[op]
				}
				if x != id {
					continue
				}
				switch y {
				case "P0@0.start":
					switch op {
					case token.GEQ:
						m = m.set(mLow)
					case token.LSS:
						m = m.set(mOut)
					case token.GTR, token.LEQ, token.EQL, token.NEQ:
						c.failN("low", n, "the lower end of a group's range is not part of it")
						m = m.set(mLow)
					}
				case "P0@0.end":
					switch op {
					case token.LEQ:
						m = m.set(mHigh)
					case token.GTR:
						m = m.set(mOut)
					case token.LSS, token.GEQ, token.EQL, token.NEQ:
						c.failN("high", n, "the upper end of a group's range is not part of it")
						m = m.set(mHigh)
					}
				}
			}
			return m, true
		},
		end: func(g *Graph, n *Node, m marks) string {
			switch {
			case n.kind == KExit && m.has(mOut):
				return "an identifier outside the group's range is silently dropped instead of refused"
			case n.kind == KExit && !m.has(mStored):
				return "a handler added to a group is not registered"
			}
			return ""
		}})
	// the constructor keeps the range
	for _, h := range c.P.Roots("znet") {
		if h.Signature.Recv() != nil && h.Name() != "Group" && h.Name() != "NewGroup" {
			continue
		}
		if h.Name() != "NewGroup" && h.Name() != "Group" {
			continue
		}
		hg := c.graph(h, nil)
		seen := map[string]bool{}
		for _, n := range hg.nodes {
			st, ok := n.instr.(*ssa.Store)
			if !ok || n.kind != KInstr {
				continue
			}
			T, fld, _, ok := hg.fieldOf(VC{st.Addr, n.ctx})
			if !ok || T.Obj() != G.Obj() || fld != "start" && fld != "end" {
				continue
			}
			want := ""
			for i, p := range h.Params {
				if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint32 {
					if fld == "start" && want == "" || fld == "end" {
						want = hg.psym(i)
					}
				}
			}
			seen[fld] = true
			if hg.sym(VC{st.Val, n.ctx}) != want {
				c.failN("range|"+fnName(h)+"|"+fld, n, "a group does not keep the range it was created with")
			} else {
				c.okN(n)
			}
		}
		if len(seen) != 2 {
			c.undecided(fnName(h) + " creates no group")
		}
	}
}

func tableRule(c *C, MH, RS *types.Named) {
	for _, f := range c.P.AllFuncs {
		if fnRel(f) != "znet" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				bi, ok := call.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "delete" && bi.Name() != "clear" {
					continue
				}
				g := c.graph(f, nil)
				if apisOf(g, VC{call.Call.Args[0], g.root}, MH, RS) != "" {
					c.fail("removed|"+fnName(f), c.P.pos(call.Pos()), fnName(f), "a registered route is removed")
				}
			}
		}
	}
	f := c.needMethod("znet", "RouterSlices", "GetHandlers")
	if f == nil {
		return
	}
	g := c.graph(f, nil)
	want := "P0@0.Apis[" + g.psym(1) + "]"
	r := &Rule{Init: marks{}}
	r.NodeE = func(g *Graph, n *Node, a Auto, e env) Auto {
		m := a.(marks)
		ret, ok := n.instr.(*ssa.Return)
		if !ok || n.kind != KInstr || n.ctx != g.root || len(ret.Results) != 2 {
			return m
		}
		v0, v1 := g.symAt(VC{ret.Results[0], n.ctx}, e), g.symAt(VC{ret.Results[1], n.ctx}, e)
		ok0 := v0 == want
		ok1 := v1 == "has("+want+")" || v1 == "#true" && m.has(0) || v1 == "#false" && m.has(1)
		switch {
		case v1 == "#false" && m.has(1), ok0 && ok1:
			c.okN(n)
		case strings.HasPrefix(v0, "P0@0.Apis[") && !ok0:
			c.failN("GetHandlers|key", n, "handlers are looked up under another key than the identifier")
		case v1 == "#true" && !m.has(0):
			c.failN("GetHandlers|found", n, "an unregistered identifier is reported as registered")
		case v1 == "#false" && !m.has(1):
			c.failN("GetHandlers|lost", n, "a registered identifier can be reported as unknown")
		case v0 == "nil" && !m.has(1):
			c.failN("GetHandlers|lost", n, "the handlers of a registered identifier are lost")
		default:
			c.undecided(n.posn(c.P) + " " + v0 + " " + v1)
		}
		return m
	}
	r.Edge = func(g *Graph, n *Node, a Auto, at []Atom) Auto {
		m := a.(marks)
		for _, x := range at {
			if x.Op == 0 && x.SX == "has("+want+")" {
				if x.Val {
					m = m.set(0)
				} else {
					m = m.set(1)
				}
			}
		}
		return m
	}
	c.run(g, g.entry, r)
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", func(c *C) {
		CH, CB := c.needType("zinterceptor", "Chain"), c.needType("znet", "chainBuilder")
		if CH == nil || CB == nil {
			return
		}
		c.Rule("order", "Executing a request proceeds exactly once, with that request, through a chain object of its own that starts at the first interceptor and whose list is the head, the added ones in order and the tail, in an array of its own; absent ones are left out")
		chainOrder(c, CH, CB)
		c.atLeast(2, "chain executions")
		c.Rule("proceed", "Proceeding calls the interceptor at the present position exactly once, and only if there is one, with a chain that is one position further and carries the request passed on; its result is the result; at the end the request itself is")
		chainProceed(c, CH)
		c.atLeast(3, "ways to proceed")
		c.Rule("with", "Proceeding with a decoded message proceeds exactly once, with the chain's own request, which carries the given response unless there is none to give")
		chainWith(c, CH)
		c.atLeast(2, "ways to proceed with a message")
		c.Rule("collect", "Adding an interceptor appends exactly it to those added before; setting the head or tail sets exactly that one")
		chainCollect(c, CB)
		c.atLeast(4, "interceptor registrations")
		c.Rule("tail", "Every message handler puts itself at the end of its own chain")
		chainTail(c, CB)
		c.atLeast(2, "message handlers")
		c.Rule("once", "No interceptor of the library proceeds twice for one request, and what it proceeds with is its own chain")
		interceptorsOnce(c)
		c.atLeast(4, "library interceptors")
	})
}

func fieldIdx(T *types.Named, name string) int {
	s, ok := T.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// isProceed: a call of the chain's Proceed (k = 1) or ProceedWithIMessage (2).
func isProceed(g *Graph, n *Node, CH *types.Named) int {
	if !isCallNode(n) {
		return 0
	}
	cc := n.instr.(ssa.CallInstruction).Common()
	name := ""
	switch {
	case cc.IsInvoke():
		if calleeIface(cc) != "IChain" {
			return 0
		}
		name = cc.Method.Name()
	default:
		f := cc.StaticCallee()
		if f == nil || f.Signature.Recv() == nil || !typeIs(f.Signature.Recv().Type(), "Chain") {
			return 0
		}
		name = f.Name()
	}
	switch name {
	case "Proceed":
		return 1
	case "ProceedWithIMessage":
		return 2
	}
	return 0
}

func chainOrder(c *C, CH, CB *types.Named) {
	fb, fh, ft := c.needField(CB, "body", "[]ziface.IInterceptor"), c.needField(CB, "head", ""), c.needField(CB, "tail", "")
	fl, fp := c.needField(CH, "interceptors", "[]ziface.IInterceptor"), c.needField(CH, "position", "int")
	if fb == "" || fh == "" || ft == "" || fl == "" || fp == "" {
		return
	}
	var roots []*ssa.Function
	for _, x := range [][2]string{{"chainBuilder", "Execute"}, {"MsgHandle", "Execute"}} {
		if f := c.needMethod("znet", x[0], x[1]); f != nil {
			roots = append(roots, f)
		}
	}
	for _, f := range roots {
		g := c.graph(f, nil)
		key := fnName(f)
		B := "P0@0"
		if typeIs(f.Signature.Recv().Type(), "MsgHandle") {
			B = "P0@0.builder"
		}
		head, body, tail := B+"."+fh, B+"."+fb, B+"."+ft
		seen := false
		c.listPaths(g, func(g *Graph, n *Node, s lstate, e env) (lstate, bool) {
			if isProceed(g, n, CH) == 0 || spawnOf(n) != nil {
				return s, true
			}
			seen = true
			if s.has(0) {
				c.failN("twice|"+key, n, "a request goes through the chain twice")
				return s, false
			}
			s.marks = s.marks.set(0)
			recv, _ := g.arg(n, 0)
			recv = g.trace(recv)
			if mi, ok := recv.v.(*ssa.MakeInterface); ok {
				recv = g.trace(VC{mi.X, recv.c})
			}
			if _, fresh := recv.v.(*ssa.Alloc); !fresh {
				if _, _, _, isf := g.fieldOf(recv); isf {
					c.failN("shared|"+key, n, "requests share one chain object")
				} else {
					c.undecided(n.posn(c.P))
				}
				return s, false
			}
			cell := g.sym(recv) + "." + fl
			lst := listVal{unk: true}
			if v, ok := s.cells[cell]; ok {
				lst = g.list(v, e, s)
			}
			var want []string
			add := func(sym string) {
				if s.has1("nil:" + sym) {
					return
				}
				want = append(want, "E:"+sym)
				if !s.has1("nonnil:" + sym) {
					want[len(want)-1] += " (not nil)"
				}
			}
			add(head)
			want = append(want, wantSegs(s, body)...)
			add(tail)
			pos, okp := g.onlyStore(recv, fieldIdx(CH, fp))
			k, isc := int64(0), false
			if okp {
				k, isc = g.linEval(pos, nil).isConst()
			} else if !g.anyStore(recv, fieldIdx(CH, fp)) {
				k, isc = 0, true
			}
			switch {
			case lst.unk || !isc:
				c.undecided(n.posn(c.P) + " chain of " + key)
			case !segsEq(lst.segs, want):
				c.failN("list|"+key, n, fmt.Sprintf("the chain is %v, expected %v", lst.segs, want))
			case !lst.fresh:
				c.failN("alias|"+key, n, "the chain's list shares its array with the registered interceptors: concurrent requests write into it")
			case k != 0:
				c.failN("first|"+key, n, "a request does not start at the first interceptor")
			case g.argSym(n, 1) != g.psym(1):
				c.failN("req|"+key, n, "another request than the given one goes through the chain")
			default:
				c.okN(n)
			}
			return s, true
		}, func(g *Graph, n *Node, s lstate, at []Atom) lstate {
			for _, a := range at {
				if v, isnil, ok := a.nilness(); ok {
					if isnil {
						s = s.fact("nil:" + g.sym(v))
					} else {
						s = s.fact("nonnil:" + g.sym(v))
					}
				}
			}
			return s
		}, func(g *Graph, n *Node, s lstate) {
			if n.kind == KExit && !s.has(0) {
				c.failF("skipped|"+key, f, "a request can be executed without going through the chain")
			}
		})
		if !seen {
			c.undecided(key + " does not proceed")
		}
	}
}

// anyStore: some node stores the field of a local object.
func (g *Graph) anyStore(base VC, field int) bool {
	b := g.localBase(base)
	for _, m := range g.nodes {
		st, ok := m.instr.(*ssa.Store)
		if !ok || m.kind != KInstr {
			continue
		}
		t := g.trace(VC{st.Addr, m.ctx})
		if fa, ok := t.v.(*ssa.FieldAddr); ok && fa.Field == field && g.localBase(VC{fa.X, t.c}) == b {
			return true
		}
	}
	return false
}

func chainProceed(c *C, CH *types.Named) {
	f := c.needMethod("zinterceptor", "Chain", "Proceed")
	if f == nil || !hasField(CH, "req") || !hasField(CH, "position") || !hasField(CH, "interceptors") {
		return
	}
	g := c.graph(f, nil)
	length, pos0 := lv("len(P0@0.interceptors)"), lv("position@0")
	req := g.psym(1)
	const mCalled = 0
	isIntercept := func(n *Node) bool {
		if !isCallNode(n) {
			return false
		}
		cc := n.instr.(ssa.CallInstruction).Common()
		return cc.IsInvoke() && calleeIface(cc) == "IInterceptor" && cc.Method.Name() == "Intercept"
	}
	var lastCall *Node
	c.memPaths(g, g.fieldCell(CH, "P0@0", "position", "req"), mstate{}, func(n *Node, s mstate, e env) (mstate, bool) {
		if ret, ok := n.instr.(*ssa.Return); ok && n.kind == KInstr && n.ctx == g.root {
			w, _ := g.resolve1(VC{ret.Results[0], n.ctx}, e)
			w = g.trace(w)
			switch {
			case s.has(mCalled):
				if lastCall != nil && w.v == lastCall.instr.(ssa.Value) {
					c.okN(n)
				} else {
					c.failN("result", n, "the result of an interceptor is not passed back")
				}
			case g.symAt(VC{ret.Results[0], n.ctx}, e) != req:
				c.failN("last", n, "after the last interceptor the request is not what is passed back")
			case !s.f.nonneg(pos0.minus(length)):
				c.failN("skip", n, "an interceptor can be left out although there is one")
			default:
				c.okN(n)
			}
			return s, true
		}
		if !isIntercept(n) {
			return s, true
		}
		lastCall = n
		if s.has(mCalled) {
			c.failN("twice", n, "proceeding calls more than one interceptor")
			return s, false
		}
		s.marks = s.marks.set(mCalled)
		cc := n.instr.(ssa.CallInstruction).Common()
		v, _ := g.resolve1(VC{cc.Value, n.ctx}, e)
		v = g.trace(v)
		u, ok := v.v.(*ssa.UnOp)
		var ia *ssa.IndexAddr
		if ok {
			ia, ok = u.X.(*ssa.IndexAddr)
		}
		if !ok || g.sym(VC{ia.X, v.c}) != "P0@0.interceptors" {
			c.undecided(n.posn(c.P) + " interceptor not taken from the list")
			return s, true
		}
		at := g.linEval(VC{ia.Index, v.c}, g.memLeaf(s, e))
		if !at.eq(pos0) {
			c.failN("which", n, "the interceptor called is not the one at the chain's position")
			return s, true
		}
		if !s.f.nonneg(length.minus(pos0).minus(lc(1))) {
			c.failN("guard", n, "an interceptor is called at a position that was not checked against the list")
			return s, true
		}
		arg, _ := g.arg(n, 1)
		arg = g.trace(arg)
		if mi, ok := arg.v.(*ssa.MakeInterface); ok {
			arg = g.trace(VC{mi.X, arg.c})
		}
		if g.sym(arg) == "P0@0" {
			switch {
			case !s.cell("position").eq(pos0.plus(lc(1))):
				c.failN("advance", n, "the next interceptor would not be the one after this one")
			case !s.cell("req").eq(lv("v:" + req)):
				c.failN("request", n, "the interceptor does not see the request passed on to it")
			default:
				c.okN(n)
			}
			return s, true
		}
		if _, fresh := arg.v.(*ssa.Alloc); !fresh {
			c.undecided(n.posn(c.P) + " chain passed on")
			return s, true
		}
		l, ok1 := g.onlyStore(arg, fieldIdx(CH, "interceptors"))
		p, ok2 := g.onlyStore(arg, fieldIdx(CH, "position"))
		q, ok3 := g.onlyStore(arg, fieldIdx(CH, "req"))
		if !ok1 || !ok2 || !ok3 {
			c.undecided(n.posn(c.P) + " chain passed on")
			return s, true
		}
		switch {
		case g.sym(l) != "P0@0.interceptors":
			c.failN("list", n, "the chain passed on has another list of interceptors")
		case !g.linEval(p, g.memLeaf(s, e)).eq(pos0.plus(lc(1))):
			c.failN("advance", n, "the next interceptor would not be the one after this one")
		case g.symAt(q, e) != req:
			c.failN("request", n, "the interceptor does not see the request passed on to it")
		default:
			c.okN(n)
		}
		return s, true
	}, func(n *Node, s mstate, at []Atom) (mstate, bool) {
		// registered interceptors are not nil
		for _, a := range at {
			if v, isnil, ok := a.nilness(); ok && isnil {
				if u, ok := g.trace(v).v.(*ssa.UnOp); ok {
					if ia, ok := u.X.(*ssa.IndexAddr); ok && g.sym(VC{ia.X, g.trace(v).c}) == "P0@0.interceptors" {
						return s, false
					}
				}
			}
		}
		return s, true
	}, nil)
	if r := c.needMethod("zinterceptor", "Chain", "Request"); r != nil {
		rg := c.graph(r, nil)
		for _, x := range rg.root.rets {
			if s := rg.sym(VC{x.instr.(*ssa.Return).Results[0], rg.root}); s != "P0@0.req" {
				c.failN("Request", x, "the chain's request is not the one it was given")
			} else {
				c.okN(x)
			}
		}
	}
}

func chainWith(c *C, CH *types.Named) {
	f := c.needMethod("zinterceptor", "Chain", "ProceedWithIMessage")
	if f == nil {
		return
	}
	g := c.graph(f, nil)
	const mProc, mSet, mNone = 0, 1, 2
	var tr *track
	tr = &track{key: fnName(f),
		ev: func(g *Graph, n *Node) []int {
			if isProceed(g, n, CH) == 1 {
				return []int{mProc}
			}
			if isCallNode(n) {
				cc := n.instr.(ssa.CallInstruction).Common()
				if cc.IsInvoke() && cc.Method.Name() == "SetResponse" && calleeIface(cc) == "IRequest" {
					return []int{mSet}
				}
			}
			return nil
		},
		on: func(g *Graph, n *Node, i int, m marks) string {
			v, _ := g.arg(n, 1)
			s := g.symAt(v, tr.e)
			v0, _ := g.arg(n, 0)
			switch i {
			case mSet:
				if s != g.psym(2) {
					return "the request is given another response than the decoded one"
				}
				if m.has(mProc) {
					return "the request is passed on before it carries the response"
				}
				if g.symAt(v0, tr.e) != "P0@0.req" {
					return "another request than the chain's own is given the response"
				}
			case mProc:
				if m.has(mProc) {
					return "a request is passed on twice"
				}
				if g.sym(v0) != "P0@0" {
					return "another chain proceeds"
				}
				if s != "P0@0.req" && s != "nil" {
					return "another request than the chain's own is passed on"
				}
				if s == "nil" && !m.has(mNone) {
					return "the request is not passed on"
				}
			}
			return ""
		},
		edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
			for _, a := range at {
				if _, isnil, ok := a.nilness(); ok && isnil {
					m = m.set(mNone)
				}
			}
			if _, _, holds, ok := typeTest(g, at); ok && !holds {
				m = m.set(mNone)
			}
			m.twice = 0
			return m, true
		},
		end: func(g *Graph, n *Node, m marks) string {
			switch {
			case n.kind != KExit:
				return ""
			case !m.has(mProc):
				return "a request can be kept from the rest of the chain"
			case !m.has(mSet) && !m.has(mNone):
				return "the decoded response is not passed on with the request"
			}
			return ""
		}}
	c.track(g, g.entry, tr)
}

func chainCollect(c *C, CB *types.Named) {
	cell := func(f *ssa.Function, fld string, list bool) {
		g := c.graph(f, nil)
		key := fnName(f)
		c.listPaths(g, func(g *Graph, n *Node, s lstate, e env) (lstate, bool) {
			if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr && g.isField(VC{st.Addr, n.ctx}, CB, fld) {
				if s.has(0) {
					c.failN("twice|"+key, n, "an interceptor is registered twice")
				}
				s.marks = s.marks.set(0)
				own := g.sym(g.trace(VC{st.Addr, n.ctx}))
				if list {
					got := g.list(VC{st.Val, n.ctx}, e, s)
					want := append(wantSegs(s, own), "E:"+g.psym(1))
					switch {
					case got.unk:
						c.undecided(n.posn(c.P))
					case !segsEq(got.segs, want):
						c.failN("list|"+key, n, fmt.Sprintf("the added interceptors become %v, expected %v", got.segs, want))
					default:
						c.okN(n)
					}
				} else if v := g.symAt(VC{st.Val, n.ctx}, e); v != g.psym(1) {
					c.failN("value|"+key, n, "another interceptor than the given one is set")
				} else {
					c.okN(n)
				}
			}
			return s, true
		}, func(g *Graph, n *Node, s lstate, at []Atom) lstate {
			for _, a := range at {
				if v, isnil, ok := a.nilness(); ok && isnil && (strings.HasSuffix(g.sym(v), ".builder") || g.sym(v) == g.psym(1)) {
					s.marks = s.marks.set(1)
				}
			}
			return s
		}, func(g *Graph, n *Node, s lstate) {
			if n.kind == KExit && !s.has(0) && !s.has(1) {
				c.failF("lost|"+key, f, "an interceptor is not registered")
			}
		})
	}
	for _, x := range []struct {
		t, m, f string
		list    bool
	}{{"chainBuilder", "AddInterceptor", "body", true}, {"MsgHandle", "AddInterceptor", "body", true}, {"Server", "AddInterceptor", "body", true}, {"Client", "AddInterceptor", "body", true},
		{"chainBuilder", "Head", "head", false}, {"chainBuilder", "Tail", "tail", false}, {"MsgHandle", "SetHeadInterceptor", "head", false}} {
		if f := c.needMethod("znet", x.t, x.m); f != nil && hasField(CB, x.f) {
			cell(f, x.f, x.list)
		}
	}
}

func chainTail(c *C, CB *types.Named) {
	MH := c.needType("znet", "MsgHandle")
	if MH == nil {
		return
	}
	for _, f := range c.P.AllFuncs {
		if fnRel(f) != "znet" || len(f.Blocks) == 0 {
			continue
		}
		var al *ssa.Alloc
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok {
					if nt, ok := a.Type().(*types.Pointer).Elem().(*types.Named); ok && nt.Obj() == MH.Obj() && a.Heap {
						al = a
					}
				}
			}
		}
		if al == nil {
			continue
		}
		g := c.graph(f, nil)
		self := g.sym(VC{al, g.root})
		sawStore := false
		for _, n := range g.nodes {
			if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr && g.isField(VC{st.Addr, n.ctx}, CB, "tail") {
				_ = st
				sawStore = true
			}
		}
		if !sawStore {
			// a helper that only allocates: its caller must do it
			caller := false
			for _, h := range c.P.AllFuncs {
				for _, b := range h.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f && fnRel(h) == "znet" {
							hg := c.graph(h, nil)
							for _, n := range hg.nodes {
								if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr && hg.isField(VC{st.Addr, n.ctx}, CB, "tail") {
									caller = true
								}
							}
						}
					}
				}
			}
			if caller {
				c.undecided(fnName(f) + " leaves its tail to its caller")
			} else {
				c.failF("tail|"+fnName(f), f, "a message handler is not at the end of its own chain: its requests reach no handler")
			}
			continue
		}
		c.track(g, g.entry, &track{key: fnName(f), once: true,
			ev: func(g *Graph, n *Node) []int {
				if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr && g.isField(VC{st.Addr, n.ctx}, CB, "tail") {
					return []int{0}
				}
				return nil
			},
			on: func(g *Graph, n *Node, i int, m marks) string {
				st := n.instr.(*ssa.Store)
				if g.sym(VC{st.Val, n.ctx}) != self {
					return "something else than the message handler itself is at the end of its chain"
				}
				return ""
			},
			end: func(g *Graph, n *Node, m marks) string {
				if n.kind == KExit && !m.has(0) {
					return "a message handler is not at the end of its own chain: its requests reach no handler"
				}
				return ""
			}})
	}
}

// interceptorsOnce: the library's own interceptors.
func interceptorsOnce(c *C) {
	CH := c.P.Type("zinterceptor", "Chain")
	for _, T := range c.P.implTypes("IInterceptor") {
		f := c.P.methodOf(T, "Intercept")
		if f == nil || !fnInRepo(f) || len(f.Blocks) == 0 || strings.HasPrefix(fnRel(f), "examples") {
			continue
		}
		pol := &Policy{Dispatch: true, MaxImpls: 1}
		pol.Inline = func(h *ssa.Function) bool {
			return defaultInline(h) && !(h.Signature.Recv() != nil && typeIs(h.Signature.Recv().Type(), "Chain"))
		}
		g := c.graph(f, pol)
		chain := g.psym(1)
		c.track(g, g.entry, &track{key: fnName(f),
			ev: func(g *Graph, n *Node) []int {
				if isProceed(g, n, CH) != 0 && spawnOf(n) == nil {
					return []int{0}
				}
				return nil
			},
			on: func(g *Graph, n *Node, i int, m marks) string {
				if m.has(0) {
					return "one request is passed on twice"
				}
				if g.argSym(n, 0) != chain {
					return "a request proceeds on another chain than the given one"
				}
				return ""
			},
			end: func(g *Graph, n *Node, m marks) string { return "" }})
		for _, n := range g.nodes {
			if isProceed(g, n, CH) != 0 && spawnOf(n) != nil {
				c.failN("async|"+fnName(f), n, "a request is passed on from another goroutine")
			}
		}
	}
}

var _ = token.EQL

package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cfgConst: the exact value of a named constant of the configuration package.
func (P *Program) cfgConst(name string) string {
	sp := P.ByPkg["zconf"]
	if sp == nil {
		return ""
	}
	k, ok := sp.Members[name].(*ssa.NamedConst)
	if !ok || k.Value == nil || k.Value.Value == nil {
		return ""
	}
	if k.Value.Value.Kind() == constant.String {
		return "#" + k.Value.Value.ExactString()
	}
	return "#" + k.Value.Value.ExactString()
}

func init() {
	register("C10", func(c *C) {
		MH := c.needType("znet", "MsgHandle")
		if MH == nil {
			return
		}
		free := c.needField(MH, "freeWorkers", "")
		extra := c.needField(MH, "extraFreeWorkers", "")
		if free == "" || extra == "" {
			return
		}
		w := lockWorldOf(c)
		c.Rule("guarded", "Every access to the sets of free workers of a message handler in use holds that set's lock")
		c.guarded(w.lp, MH, free, nil)
		c.guarded(w.lp, MH, extra, nil)
		c.atLeast(8, "accesses to the free sets")
		c.Rule("take", "A worker identifier handed to a connection was removed from the set it was found in, before the lock under which it was found was released, and an extra worker has its own queue and goroutine by then")
		for _, T := range connTypes(c) {
			takeWorker(c, T, MH, free, extra)
		}
		c.atLeast(6, "identifiers handed out")
		c.Rule("give-back", "In the binding modes the end of a connection puts its own identifier back exactly once, a pool worker into the pool's set, an extra worker into the extra set after it was stopped; nothing else puts identifiers into the sets")
		for _, T := range connTypes(c) {
			giveBack(c, T, MH, free, extra)
		}
		outsiders(c, MH, free, extra)
		c.atLeast(9, "give-backs")
		c.Rule("initial", "The set of free pool workers starts as all indices of the pool, the extra set as the indices from there to the connection limit, and there is a queue for each")
		initialSets(c, MH, free, extra)
		c.atLeast(2, "initial sets")
	})
}

func setOf(g *Graph, v VC, MH *types.Named, names ...string) string {
	for _, f := range names {
		if g.isField(v, MH, f) {
			return f
		}
	}
	return ""
}

func takeWorker(c *C, T, MH *types.Named, free, extra string) {
	start := c.P.methodOf(T, "Start")
	if start == nil {
		c.missing(T.Obj().Name() + ".Start")
		return
	}
	g := c.graph(start, nil)
	name := T.Obj().Name()
	bad := map[string]bool{}
	say := func(n *Node, why string) {
		if !bad[why+n.posn(c.P)] {
			bad[why+n.posn(c.P)] = true
			c.failN(name+"|"+why, n, why)
		}
	}
	// x: "<set>:<locks at next>" ; marks 0 found, 1 removed, 2 lock released in between, 3 queue, 4 worker
	r := &Rule{Init: marks{}}
	r.NodeE = func(g *Graph, n *Node, a Auto, e env) Auto {
		m := a.(marks)
		if spawnOf(n) != nil || n.instr == nil {
			return m
		}
		if nx, ok := n.instr.(*ssa.Next); ok && n.kind == KInstr {
			if rg, ok := nx.Iter.(*ssa.Range); ok && setOf(g, VC{rg.X, n.ctx}, MH, free, extra) != "" {
				x := m.x
				m = marks{x: x}.set(0)
			}
		}
		if l, ok := g.lockOp(n); ok && strings.HasSuffix(l.op, "Unlock") && strings.HasPrefix(l.cls, MH.Obj().Name()+".") {
			if m.has(0) && !m.has(1) {
				m = m.set(2)
			}
		}
		if op, ok := mapOpOf(n); ok && op.kind == "del" {
			if s := setOf(g, op.m, MH, free, extra); s != "" && m.has(0) {
				ks := g.symAt(op.key, e)
				if strings.HasPrefix(ks, "iter1(") && strings.Contains(ks, "."+s+",") {
					if m.has(2) {
						say(n, "the identifier is removed only after the lock under which it was found was released: two connections can take it")
					}
					m = m.set(1)
					m.x = ks
				} else if strings.HasPrefix(ks, "iter1(") {
					say(n, "the identifier is removed from another set than it was found in")
				}
			}
		}
		if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr {
			if ix, isq := queueIndex(g, VC{st.Addr, n.ctx}); isq && g.symAt(ix, e) == m.x && m.x != "" {
				m = m.set(3)
			}
		}
		if isGo(n) {
			for _, f := range n.fns {
				if f.Name() == "StartOneWorker" && symArg(g, n, 1, e) == m.x {
					m = m.set(4)
				}
			}
		}
		if ret, ok := n.instr.(*ssa.Return); ok && n.kind == KInstr && n.ctx.parent != nil {
			for _, rv := range ret.Results {
				if !isInt(rv.Type()) {
					continue
				}
				s := g.symAt(VC{rv, n.ctx}, e)
				if !strings.HasPrefix(s, "iter1(") {
					continue
				}
				set := ""
				for _, f := range []string{extra, free} {
					if strings.Contains(s, "."+f+",") {
						set = f
					}
				}
				if set == "" {
					continue
				}
				switch {
				case !m.has(1) || m.x != s:
					say(n, "an identifier is handed out without being removed from the free set: the next connection gets it too")
				case set == extra && !(m.has(3) && m.has(4)):
					say(n, "an extra worker is handed out without a queue and goroutine of its own")
				default:
					c.okN(n)
				}
			}
		}
		m.twice = 0
		return m
	}
	c.run(g, g.entry, r)
}

func giveBack(c *C, T, MH *types.Named, free, extra string) {
	start := c.P.methodOf(T, "Start")
	if start == nil {
		return
	}
	g := c.graph(start, nil)
	name := T.Obj().Name()
	bind, dyn := c.P.cfgConst("WorkerModeBind"), c.P.cfgConst("WorkerModeDynamicBind")
	if bind == "" || dyn == "" {
		c.missing("zconf.WorkerModeBind/WorkerModeDynamicBind")
		return
	}
	own := func(v VC) bool {
		s := g.sym(v)
		return strings.HasSuffix(s, ".GetWorkerID()") || s == g.psym(0)+".workerID" || ownWorker(c, g, T, v)
	}
	const (
		eFree, eExtra, eClose    = 0, 1, 2
		mBind, mDyn, mLow, mHigh = 3, 4, 5, 6
		mDone                    = 7
	)
	ended := false
	c.track(g, g.entry, &track{key: name + ".Start",
		ev: func(g *Graph, n *Node) []int {
			if spawnOf(n) != nil {
				return nil
			}
			if op, ok := mapOpOf(n); ok && op.kind == "set" {
				switch setOf(g, op.m, MH, free, extra) {
				case free:
					return []int{eFree}
				case extra:
					return []int{eExtra}
				}
			}
			if isCallNode(n) && g.callName(n) == "builtin:close" {
				v, _ := g.arg(n, 0)
				if _, isq := queueElem(g, v); isq {
					return []int{eClose}
				}
			}
			return nil
		},
		on: func(g *Graph, n *Node, i int, m marks) string {
			if i == eClose {
				v, _ := g.arg(n, 0)
				t := g.trace(v)
				ix := VC{}
				if u, ok := t.v.(*ssa.UnOp); ok {
					t = g.trace(VC{u.X, t.c})
				}
				if ia, ok := t.v.(*ssa.IndexAddr); ok {
					ix = g.trace(VC{ia.Index, t.c})
					for {
						cv, ok := ix.v.(*ssa.Convert)
						if !ok {
							break
						}
						ix = g.trace(VC{cv.X, ix.c})
					}
				}
				if ix.v != nil && !own(ix) {
					return "another connection's worker is stopped"
				}
				if m.has(mLow) {
					return "a worker of the pool is stopped when its connection ends"
				}
				return ""
			}
			op, _ := mapOpOf(n)
			if !own(op.key) {
				return "an identifier that is not the connection's own is put into the free set"
			}
			if m.has(eFree) || m.has(eExtra) {
				return "an identifier is given back twice"
			}
			if i == eFree && m.has(mDyn) && !m.has(mLow) {
				return "an extra worker's identifier is put into the pool's set"
			}
			if i == eExtra && !m.has(mHigh) {
				return "a pool worker's identifier is put into the extra set"
			}
			if i == eExtra && !m.has(eClose) {
				return "an extra worker's identifier is given back before the worker was stopped"
			}
			return ""
		},
		edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
			for _, a := range at {
				if strings.HasSuffix(a.SX, "GlobalObject.WorkerMode") && a.Op == token.EQL {
					switch a.SY {
					case bind:
						m = m.set(mBind)
					case dyn:
						m = m.set(mDyn)
					}
				}
				if v, isnil, ok := a.nilness(); ok && isnil && typeIs(v.v.Type(), MH.Obj().Name()) {
					m = m.set(mDone) // no message handler of ours
				}
				x, y, op := a.X, a.Y, a.Op
				if _, f, _, ok := g.fieldOf(x); ok && f == "WorkerPoolSize" {
					x, y = y, x
					op = swapOp[op]
				}
				if _, f, _, ok := g.fieldOf(y); ok && f == "WorkerPoolSize" && own(x) {
					switch op {
					case token.LSS:
						m = m.set(mLow)
					case token.GEQ:
						m = m.set(mHigh)
					case token.LEQ, token.GTR:
						c.failN(name+"|boundary", n, "the boundary between pool and extra workers is off by one")
					}
				}
			}
			m.twice &^= 1<<mDone | 1<<mBind | 1<<mDyn | 1<<mLow | 1<<mHigh
			return m, true
		},
		end: func(g *Graph, n *Node, m marks) string {
			if n.kind != KExit || m.has(mDone) {
				return ""
			}
			ended = true
			switch {
			case m.has(mBind) && !m.has(eFree):
				return "in bind mode a connection ends without giving its worker back"
			case m.has(mDyn) && m.has(mLow) && !m.has(eFree), m.has(mDyn) && !m.has(eFree) && !m.has(eExtra):
				return "in dynamic bind mode a connection ends without giving its worker back"
			case m.has(mDyn) && m.has(mHigh) && !m.has(eClose):
				return "an extra worker is not stopped when its connection ends"
			}
			return ""
		}})
	if !ended {
		c.undecided(name + ".Start has no normal end")
	}
}

// ownWorker: the value is the connection's stored worker.
func ownWorker(c *C, g *Graph, T *types.Named, v VC) bool {
	nm, _, b, ok := g.fieldOf(v)
	if !ok || nm.Obj() != T.Obj() || g.sym(b) != g.psym(0) {
		return false
	}
	get := c.P.methodOf(T, "GetWorkerID")
	if get == nil {
		return false
	}
	_, f, _, _ := g.fieldOf(v)
	for _, bl := range get.Blocks {
		for _, in := range bl.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == f {
				return true
			}
		}
	}
	return false
}

// outsiders: nothing but a connection's Start changes the sets.
func outsiders(c *C, MH *types.Named, free, extra string) {
	c.rootsReaching([]string{"znet"}, nil, func(g *Graph, n *Node) bool {
		op, ok := mapOpOf(n)
		return ok && (op.kind == "set" || op.kind == "del") && setOf(g, op.m, MH, free, extra) != ""
	}, func(g *Graph, hits []*Node) {
		for _, n := range hits {
			op, _ := mapOpOf(n)
			_, _, b, _ := g.fieldOf(op.m)
			in := false
			for x := n.ctx; x != nil; x = x.parent {
				if x.fn.Name() == "Start" {
					in = true
				}
			}
			if in || g.isFresh(b) {
				c.okN(n)
				continue
			}
			c.failN("outside|"+fnName(n.fn()), n, "a free set is changed outside the start and end of a connection")
		}
	})
}

func initialSets(c *C, MH *types.Named, free, extra string) {
	for _, f := range c.P.AllFuncs {
		if fnRel(f) != "znet" {
			continue
		}
		makes := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok {
					if p, ok := al.Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), MH) {
						makes = true
					}
				}
			}
		}
		if !makes {
			continue
		}
		g := c.graph(f, nil)
		stored := map[string]VC{}
		var queue *ssa.MakeSlice
		var qn *Node
		for _, n := range g.nodes {
			st, ok := n.instr.(*ssa.Store)
			if !ok || n.kind != KInstr {
				continue
			}
			for _, s := range []string{free, extra} {
				if g.isField(VC{st.Addr, n.ctx}, MH, s) {
					stored[s] = VC{st.Val, n.ctx}
				}
			}
			if g.isField(VC{st.Addr, n.ctx}, MH, "TaskQueue") {
				if ms, ok := g.trace(VC{st.Val, n.ctx}).v.(*ssa.MakeSlice); ok {
					queue, qn = ms, n
				}
			}
		}
		inSet := func(v VC, s string) bool {
			want, ok := stored[s]
			if !ok {
				return false
			}
			return mayBe(g, want, g.trace(v), 0)
		}
		sawExtra := false
		for _, n := range g.nodes {
			op, ok := mapOpOf(n)
			if !ok || op.kind != "set" {
				continue
			}
			for _, s := range []string{free, extra} {
				if !inSet(op.m, s) {
					continue
				}
				if s == extra {
					sawExtra = true
				}
				k, ok := counterOf(g.norm(op.key).v)
				if !ok {
					c.undecided(n.posn(c.P))
					continue
				}
				init := g.linEval(VC{k.init, n.ctx}, nil).plus(lc(k.add))
				lim := g.linEval(VC{k.limit, n.ctx}, nil)
				wantInit, wantLim := "", "WorkerPoolSize"
				if s == extra {
					wantInit, wantLim = "WorkerPoolSize", "MaxConn"
				}
				ok1 := wantInit == "" && init.zero() || wantInit != "" && only(init, wantInit)
				ok2 := only(lim, wantLim) && k.cont == token.LSS && k.step == 1
				switch {
				case ok1 && ok2:
					c.okN(n)
				case off(init, wantInit) || off(lim, wantLim) || k.step == 1 && k.cont == token.LEQ && only(lim, wantLim):
					c.failN("initial|"+s+"|"+fnName(f), n, fmt.Sprintf("the initial set %s is not exactly the identifiers it stands for", s))
				default:
					c.undecided(n.posn(c.P))
				}
			}
		}
		if queue != nil && sawExtra {
			var names []string
			leaves(g, g.trace(VC{queue.Len, qn.ctx}), &names, 0)
			has := false
			for _, x := range names {
				if strings.HasSuffix(x, ".MaxConn") {
					has = true
				}
			}
			if !has {
				c.failN("queues|"+fnName(f), qn, "there is no queue for the extra workers")
			} else {
				c.okN(qn)
			}
		}
	}
}

// only: the form is exactly one quantity whose name ends in .name.
func only(l lin, name string) bool {
	if len(l) != 1 {
		return false
	}
	for s, k := range l {
		return k == 1 && strings.HasSuffix(s, "."+name)
	}
	return false
}

// off: the form is that quantity plus a constant other than zero.
func off(l lin, name string) bool {
	if name == "" {
		k, ok := l.isConst()
		return ok && k != 0
	}
	for s, k := range l {
		if k == 1 && strings.HasSuffix(s, "."+name) {
			d, ok := l.minus(lv(s)).isConst()
			return ok && d != 0
		}
	}
	_, isc := l.isConst()
	return isc
}

func mayBe(g *Graph, v, x VC, d int) bool {
	v = g.trace(v)
	if v == x {
		return true
	}
	if d > 6 {
		return false
	}
	if ph, ok := v.v.(*ssa.Phi); ok {
		for _, e := range ph.Edges {
			if mayBe(g, VC{e, v.c}, x, d+1) {
				return true
			}
		}
	}
	if ph, ok := x.v.(*ssa.Phi); ok && d == 0 {
		for _, e := range ph.Edges {
			if mayBe(g, v, g.trace(VC{e, x.c}), 1) {
				return true
			}
		}
	}
	return false
}

func leaves(g *Graph, v VC, out *[]string, d int) {
	if d > 8 {
		return
	}
	v = g.trace(v)
	switch x := v.v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			leaves(g, VC{e, v.c}, out, d+1)
		}
	case *ssa.Convert:
		leaves(g, VC{x.X, v.c}, out, d+1)
	default:
		*out = append(*out, g.sym(v))
	}
}

func symArg(g *Graph, n *Node, i int, e env) string {
	v, ok := g.arg(n, i)
	if !ok {
		return ""
	}
	for {
		cv, ok := v.v.(*ssa.Convert)
		if !ok {
			break
		}
		v = VC{cv.X, v.c}
	}
	return g.symAt(v, e)
}

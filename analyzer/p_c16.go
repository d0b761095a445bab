package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", func(c *C) {
		ts := connKinds(c)
		c.Rule("made", "Every connection object has its context and cancel function before anyone else can see it, and nothing replaces them later, so that stopping works before, during and after starting")
		for _, t := range ts {
			connContext(c, t)
		}
		c.atLeast(6, "connection constructors")
		c.Rule("stop", "Stopping cancels the connection's context on every path, without waiting for anyone, without a lock held during sends or callbacks, and without closing a channel")
		for _, t := range ts {
			connStop(c, t)
		}
		c.atLeast(3, "ways to stop")
		c.Rule("reader", "Every end of the reader, by return or by a panic of a handler or decoder, cancels the connection's context and stays inside the goroutine; after a failed read it does not read again")
		for _, t := range ts {
			connReader(c, t)
		}
		c.atLeast(6, "ends of a reader")
		c.Rule("writer", "Whatever the writer waits for, the end of the connection's context (or the closing of its queue) wakes it up, and then it ends")
		for _, t := range ts {
			connWriter(c, t)
		}
		c.atLeast(3, "waits of a writer")
		c.Rule("beat", "Stopping the heartbeat checker, as the end of a connection does, never waits")
		if f := c.needMethod("znet", "HeartbeatChecker", "Stop"); f != nil {
			noWait(c, c.graph(f, nil), "HeartbeatChecker.Stop")
		}
		c.atLeast(1, "heartbeat stops")
	})
}

func noWait(c *C, g *Graph, key string) {
	bad := false
	for _, n := range g.nodes {
		if spawnOf(n) != nil {
			continue
		}
		if what, ch := blocking(g, n); what != "" {
			if ch.v != nil && boundedWait(g, n, ch) {
				continue
			}
			bad = true
			c.failN("wait|"+key+"|"+fnName(n.fn()), n, what+" while stopping")
		}
	}
	if !bad {
		c.ok(key)
	}
}

// connContext: constructors.
func connContext(c *C, t *connT) {
	for _, f := range c.P.AllFuncs {
		if fnRel(f) != "znet" || f.Blocks == nil {
			continue
		}
		alloc := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok {
					if nm, ok := derefT(al.Type()).(*types.Named); ok && nm.Obj() == t.T.Obj() {
						alloc = true
					}
				}
			}
		}
		if !alloc {
			continue
		}
		g := c.graph(f, nil)
		bad := map[string]bool{}
		c.objPaths(g, t.T, nil, func(n *Node, s ostate, e env) (ostate, bool) {
			if n.kind != KInstr {
				return s, true
			}
			// the object leaves the constructor: returned or handed to another party
			var out []VC
			where := ""
			switch x := n.instr.(type) {
			case *ssa.Return:
				if n.ctx == g.root {
					where = "is returned"
					for _, r := range x.Results {
						out = append(out, VC{r, n.ctx})
					}
				}
			case *ssa.Go:
				where = "is given to a goroutine"
				for i := 0; ; i++ {
					v, ok := g.arg(n, i)
					if !ok {
						break
					}
					out = append(out, v)
				}
			case *ssa.Call:
				if x.Call.IsInvoke() {
					where = "is registered"
					for _, a := range x.Call.Args {
						out = append(out, VC{a, n.ctx})
					}
				}
			}
			for _, v := range out {
				w, o := g.objOf(v, e)
				al, ok := w.v.(*ssa.Alloc)
				if !ok {
					continue
				}
				if nm, ok := derefT(al.Type()).(*types.Named); !ok || nm.Obj() != t.T.Obj() {
					continue
				}
				for _, fl := range []string{t.ctx, t.cancel} {
					got := s.f[o+"|"+fl]
					k := fl + where
					switch {
					case bad[k]:
					case got == "0" || got == "":
						bad[k] = true
						c.failN("unset|"+t.name+"|"+fl+"|"+fnName(f), n, "the connection "+where+" without its "+fl+": stopping it then fails")
					default:
						c.okN(n)
					}
				}
			}
			return s, true
		}, nil, nil)
	}
	// nobody replaces them
	for _, f := range c.P.AllFuncs {
		if fnRel(f) != "znet" || f.Blocks == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				nm, ok := derefT(fa.X.Type()).(*types.Named)
				if !ok || nm.Obj() != t.T.Obj() {
					continue
				}
				fn := fieldName(fa.X.Type(), fa.Field)
				if fn != t.ctx && fn != t.cancel {
					continue
				}
				if storesToOwnFresh(c, f, fa.X, 0) {
					c.ok(c.P.pos(in.Pos()))
				} else {
					c.fail("replaced|"+t.name+"|"+fn+"|"+fnName(f), c.P.pos(in.Pos()), fnName(f), "the "+fn+" of a connection is replaced after it was created: an earlier stop is forgotten")
				}
			}
		}
	}
}

// storesToOwnFresh: the object is one the function (or every caller of it, for a
// parameter of an unexported function) has just created.
func storesToOwnFresh(c *C, f *ssa.Function, x ssa.Value, d int) bool {
	switch y := x.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.UnOp:
		// a variable that holds the new object
		if al, ok := y.X.(*ssa.Alloc); ok && al.Referrers() != nil {
			okAll, any := true, false
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al {
					any = true
					okAll = okAll && storesToOwnFresh(c, f, st.Val, d+1)
				}
			}
			return okAll && any
		}
	case *ssa.Parameter:
		if d > 3 || token.IsExported(f.Name()) || c.P.addrUsed[f] {
			return false
		}
		idx := -1
		for i, p := range f.Params {
			if p == y {
				idx = i
			}
		}
		sites := 0
		for _, h := range c.P.AllFuncs {
			for _, b := range h.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || ci.Common().StaticCallee() != f || idx >= len(ci.Common().Args) {
						continue
					}
					sites++
					if !storesToOwnFresh(c, h, ci.Common().Args[idx], d+1) {
						return false
					}
				}
			}
		}
		return sites > 0
	}
	return false
}

// ioLocks: the locks of a connection type that are held while it writes to the
// network or runs a user's callback.
func (t *connT) ioLocks(c *C) map[string]bool {
	out := map[string]bool{}
	sub := &C{P: c.P, tier: c.tier, oblig: map[string]int{}, ruleTx: map[string]string{}, stats: c.stats, funcs: c.funcs}
	lp := &lockPass{c: sub, orders: map[[2]string]string{}, lockSites: map[token.Pos]bool{}}
	lp.onNode = func(g *Graph, n *Node, h held) {
		if len(h.m) == 0 || n.instr == nil {
			return
		}
		op, _ := t.io(g, n)
		what, _ := blocking(g, n)
		if op == "" && what == "" && !userCall(g, n) {
			return
		}
		for _, l := range h.m {
			out[l.cls] = true
		}
	}
	var roots []*ssa.Function
	for _, f := range c.P.Roots("znet") {
		if f.Signature.Recv() != nil && typeIs(f.Signature.Recv().Type(), t.name) {
			roots = append(roots, f)
		}
	}
	lp.sweep(roots, nil)
	return out
}

func connStop(c *C, t *connT) {
	f := t.method(c, "Stop")
	if f == nil {
		return
	}
	g := c.graph(f, nil)
	noWait(c, g, t.name+".Stop")
	busy := t.ioLocks(c)
	for _, n := range g.nodes {
		if spawnOf(n) != nil {
			continue
		}
		if l, ok := g.lockOp(n); ok && (l.op == "Lock" || l.op == "RLock") && busy[l.cls] {
			c.failN("lock|"+t.name, n, "stopping waits for "+l.cls+", which others hold while they send or run callbacks")
		}
		if ci, ok := n.instr.(ssa.CallInstruction); ok && n.kind != KAfter {
			if b, ok := ci.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
				c.failN("close|"+t.name, n, "stopping closes a channel: a second stop panics")
			}
		}
		if op, _ := t.io(g, n); op == "write" || op == "flush" || op == "read" || op == "bufwrite" {
			c.failN("io|"+t.name, n, "stopping waits for the network")
		}
		if fieldCall(g, n, t.T, t.onStop, "") || userCall(g, n) {
			c.failN("hook|"+t.name, n, "stopping runs code of the user in the caller")
		}
	}
	const cancelled, already = 0, 1
	c.track(g, g.entry, &track{key: t.name + ".Stop",
		ev: func(g *Graph, n *Node) []int {
			if fieldCall(g, n, t.T, t.cancel, "") && spawnOf(n) == nil {
				return []int{cancelled}
			}
			return nil
		},
		edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
			if e, ok := ctxErr(g, at); ok && e {
				m = m.set(already)
			}
			if isnil, ok := t.nilField(g, at, t.cancel); ok && isnil {
				return m, false // set by every constructor
			}
			if isnil, ok := t.nilField(g, at, t.ctx); ok && isnil {
				return m, false
			}
			if sel, k, x, ok := selCase(g, at); ok && g.isDone(VC{sel.States[k].Chan, x}) {
				m = m.set(already)
			}
			if set, _, ok := t.flagTest(g, at); ok && set {
				m = m.set(already) // set at the end only (C15)
			}
			m.twice = 0
			return m, true
		},
		end: func(g *Graph, n *Node, m marks) string {
			if n.kind == KExit && !m.has(cancelled) && !m.has(already) {
				return "a stop can leave the connection running"
			}
			return ""
		}})
}

func connReader(c *C, t *connT) {
	f := t.method(c, "StartReader")
	if f == nil {
		return
	}
	g := c.graph(f, &Policy{MayPanic: func(g *Graph, n *Node) bool {
		if userCall(g, n) {
			return true
		}
		if ci, ok := n.instr.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
			switch ci.Common().Method.Name() {
			case "Execute", "Decode":
				return true
			}
		}
		return false
	}})
	var readErr func(v VC) bool
	readErr = func(v VC) bool {
		ex, ok := g.trace(v).v.(*ssa.Extract)
		if !ok {
			return false
		}
		call, ok := ex.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		for _, n := range g.nodes {
			if n.instr == ssa.Instruction(call) && n.kind == KInstr {
				op, _ := t.io(g, n)
				return op == "read" && types.Identical(ex.Type(), types.Universe.Lookup("error").Type())
			}
		}
		return false
	}
	const cancelled, read, failed = 0, 1, 2
	c.track(g, g.entry, &track{key: t.name + ".StartReader",
		ev: func(g *Graph, n *Node) []int {
			if spawnOf(n) != nil {
				return nil
			}
			if fieldCall(g, n, t.T, t.cancel, "") {
				return []int{cancelled}
			}
			if op, _ := t.io(g, n); op == "read" {
				return []int{read}
			}
			return nil
		},
		on: func(g *Graph, n *Node, i int, m marks) string {
			if i == read && m.has(failed) {
				return "the reader reads on after a failed read: it does not end when the connection does"
			}
			return ""
		},
		edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
			for _, a := range at {
				if v, isnil, ok := a.nilness(); ok && readErr(v) {
					if isnil {
						m = m.clear(failed)
					} else {
						m = m.set(failed)
					}
				}
			}
			if e, ok := ctxErr(g, at); ok && e {
				m = m.set(3)
			}
			for _, fl := range []string{t.ctx, t.cancel} {
				if isnil, ok := t.nilField(g, at, fl); ok && isnil {
					return m, false // set by every constructor
				}
			}
			if sel, k, x, ok := selCase(g, at); ok && g.isDone(VC{sel.States[k].Chan, x}) {
				m = m.set(3)
			}
			m.twice = 0
			return m, true
		},
		end: func(g *Graph, n *Node, m marks) string {
			switch {
			case n.kind == KPanicRoot:
				return "a panic of a handler or decoder ends the process instead of the connection"
			case !m.has(cancelled) && !m.has(3):
				return "the reader can end without the connection being stopped"
			}
			return ""
		}})
}

func connWriter(c *C, t *connT) {
	f := t.method(c, "StartWriter")
	if f == nil {
		return
	}
	g := c.graph(f, nil)
	// the end of the connection closes the queue
	closes := false
	if s := t.method(c, "Start"); s != nil {
		sg := c.graph(s, nil)
		for _, n := range sg.nodes {
			if ch, ok := closeOf(n); ok && sg.isField(ch, t.T, t.queue) {
				closes = true
			}
		}
	}
	const woken = 0
	c.track(g, g.entry, &track{key: t.name + ".StartWriter",
		ev: func(g *Graph, n *Node) []int {
			if spawnOf(n) != nil || n.kind != KInstr {
				return nil
			}
			switch x := n.instr.(type) {
			case *ssa.Select:
				if x.Blocking {
					return []int{1}
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return []int{2}
				}
			case *ssa.Send:
				return []int{3}
			}
			return nil
		},
		on: func(g *Graph, n *Node, i int, m marks) string {
			if m.has(woken) {
				return "the writer goes on after the connection has ended"
			}
			switch i {
			case 1:
				sel := n.instr.(*ssa.Select)
				for _, s := range sel.States {
					if s.Dir == types.RecvOnly && (g.isDone(VC{s.Chan, n.ctx}) || closes && g.isField(VC{s.Chan, n.ctx}, t.T, t.queue)) {
						return ""
					}
				}
				if !inLoopNode(n) {
					return ""
				}
				return "the writer's wait does not end with the connection"
			case 2:
				u := n.instr.(*ssa.UnOp)
				if g.isDone(VC{u.X, n.ctx}) || g.isTimerChan(VC{u.X, n.ctx}) || closes && g.isField(VC{u.X, n.ctx}, t.T, t.queue) {
					return ""
				}
				return "the writer's wait does not end with the connection"
			case 3:
				return "the writer waits for a receiver"
			}
			return ""
		},
		edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
			if sel, k, x, ok := selCase(g, at); ok && g.isDone(VC{sel.States[k].Chan, x}) {
				m = m.set(woken)
			}
			if e, ok := ctxErr(g, at); ok && e {
				m = m.set(woken)
			}
			m.twice = 0
			return m, true
		}})
	// queue closing as the only wake-up: a closed queue must end the loop
	for _, n := range g.nodes {
		sel, ok := n.instr.(*ssa.Select)
		if !ok || !sel.Blocking || n.kind != KInstr {
			continue
		}
		done := false
		for _, s := range sel.States {
			done = done || g.isDone(VC{s.Chan, n.ctx})
		}
		if !done {
			closedEnds(c, g, t)
		}
	}
	for _, n := range g.nodes {
		if u, ok := n.instr.(*ssa.UnOp); ok && n.kind == KInstr && u.Op == token.ARROW && g.isField(VC{u.X, n.ctx}, t.T, t.queue) {
			closedEnds(c, g, t)
		}
	}
}

// closedEnds: once a receive from the queue reports that it is closed, the
// writer waits no more.
func closedEnds(c *C, g *Graph, t *connT) {
	const closed = 0
	c.track(g, g.entry, &track{key: t.name + ".StartWriter|closed",
		ev: func(g *Graph, n *Node) []int {
			if what, _ := blocking(g, n); what != "" && n.kind == KInstr {
				return []int{1}
			}
			return nil
		},
		on: func(g *Graph, n *Node, i int, m marks) string {
			if m.has(closed) {
				return "the writer goes on after its queue was closed"
			}
			return ""
		},
		edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
			for _, a := range at {
				if a.Op == 0 && !a.Val {
					if ex, ok := g.norm(a.X).v.(*ssa.Extract); ok {
						switch y := ex.Tuple.(type) {
						case *ssa.Select:
							if ex.Index == 1 {
								m = m.set(closed)
							}
						case *ssa.UnOp:
							if y.Op == token.ARROW && ex.Index == 1 {
								m = m.set(closed)
							}
						}
					}
				}
			}
			m.twice = 0
			return m, true
		}})
}

func closeOf(n *Node) (VC, bool) {
	ci, ok := n.instr.(ssa.CallInstruction)
	if !ok || n.kind == KAfter || n.kind == KGate {
		return VC{}, false
	}
	if b, ok := ci.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
		return VC{ci.Common().Args[0], n.ctx}, true
	}
	return VC{}, false
}

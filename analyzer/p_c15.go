package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", func(c *C) {
		ts := connKinds(c)
		c.Rule("life", "On every path through a connection's life the start hook (if there is one) returns before anything reads from it and exactly one reader is started; from the end of its context on, the stop hook runs exactly once and before the socket is closed, and heartbeat, socket, registration, close callbacks and worker are all released, unless there is none to release; nothing of this happens before the connection ended")
		for _, t := range ts {
			connLife(c, t)
		}
		c.atLeast(15, "clean-up steps")
		c.Rule("hooks", "A connection's hooks and connection manager are those of the server or client it is made for")
		c.inherits("onConnStart", "onConnStop", "connManager")
		c.atLeast(8, "inherited fields")
		c.Rule("only", "Nothing but the connection's own end runs its stop hook or marks it closed")
		for _, t := range ts {
			connOnlyEnd(c, t)
		}
		c.atLeast(3, "places that end a connection")
		c.Rule("callbacks", "Invoking the close callbacks calls every registered one")
		callbackList(c)
		c.atLeast(1, "callback invocations")
	})
}

const (
	lStart = iota
	lReader
	lDone
	lHook
	lBeat
	lClose
	lRemove
	lCbs
	lWorker
	lFlag
	xStart
	xHook
	xBeat
	xRemove
	xAll
)

func (t *connT) isWorkerRelease(c *C, g *Graph, n *Node) bool {
	if !isCallNode(n) || len(n.callees) == 0 {
		return false
	}
	for _, k := range n.callees {
		rel := g.subtree(k, func(m *Node) bool {
			op, ok := mapOpOf(m)
			if !ok || op.kind != "set" {
				return false
			}
			nm, f, _, ok := g.fieldOf(op.m)
			return ok && nm.Obj().Name() == "MsgHandle" && f == "freeWorkers"
		})
		other := g.subtree(k, func(m *Node) bool {
			op, _ := t.io(g, m)
			return op != "" || fieldCall(g, m, t.T, t.onStop, "") || fieldCall(g, m, t.T, t.mgr, "Remove")
		})
		if rel && !other {
			return true
		}
	}
	return false
}

func (t *connT) lifeEvents(c *C, g *Graph, n *Node) []int {
	if n.kind != KInstr && n.kind != KDeferCall {
		return nil
	}
	if spawnOf(n) != nil {
		return nil
	}
	switch {
	case fieldCall(g, n, t.T, t.onStart, ""):
		return []int{lStart}
	case fieldCall(g, n, t.T, t.onStop, ""):
		return []int{lHook}
	case fieldCall(g, n, t.T, t.hc, "Stop"):
		return []int{lBeat}
	case fieldCall(g, n, t.T, t.mgr, "Remove"):
		return []int{lRemove}
	case t.setsFlag(g, n):
		return []int{lFlag}
	}
	if op, _ := t.io(g, n); op == "close" {
		return []int{lClose}
	}
	if _, ok := n.instr.(*ssa.Go); ok {
		for _, k := range n.spawn {
			if g.subtree(k, func(m *Node) bool { op, _ := t.io(g, m); return op == "read" }) {
				return []int{lReader}
			}
			if g.subtree(k, func(m *Node) bool { return isInvokeCallbacks(g, m) }) {
				return []int{lCbs}
			}
		}
		return nil
	}
	if isInvokeCallbacks(g, n) {
		return []int{lCbs}
	}
	if t.isWorkerRelease(c, g, n) {
		return []int{lWorker}
	}
	if u, ok := n.instr.(*ssa.UnOp); ok && u.Op == token.ARROW && g.isDone(VC{u.X, n.ctx}) {
		return []int{lDone}
	}
	return nil
}

func isInvokeCallbacks(g *Graph, n *Node) bool {
	if !isCallNode(n) {
		return false
	}
	sc := n.instr.(ssa.CallInstruction).Common().StaticCallee()
	return sc != nil && sc.Name() == "Invoke" && sc.Signature.Recv() != nil && typeIs(sc.Signature.Recv().Type(), "callbacks")
}

func connLife(c *C, t *connT) {
	f := t.method(c, "Start")
	if f == nil {
		return
	}
	g := c.graph(f, nil)
	key := t.name
	workers := false
	for _, n := range g.nodes {
		if t.isWorkerRelease(c, g, n) {
			workers = true
		}
	}
	if !workers {
		c.failF("noworker|"+key, f, "the worker of an ended connection is never given back")
	}
	ended := false
	c.track(g, g.entry, &track{key: key,
		ev: func(g *Graph, n *Node) []int { return t.lifeEvents(c, g, n) },
		on: func(g *Graph, n *Node, i int, m marks) string {
			if i >= lHook && i <= lWorker && !m.has(lDone) {
				return "part of the clean-up happens although the connection has not ended"
			}
			switch i {
			case lStart:
				if m.has(lStart) {
					return "the start hook runs twice"
				}
				if m.has(lReader) {
					return "messages are read before the start hook has run"
				}
			case lReader:
				if m.has(lReader) {
					return "a connection gets two readers"
				}
				if !m.has(lStart) && !m.has(xStart) {
					return "messages are read before the start hook has run"
				}
			case lHook:
				if m.has(lHook) {
					return "the stop hook runs twice"
				}
				if m.has(lClose) {
					return "the stop hook runs after the socket was closed"
				}
			case lClose:
				if !m.has(lHook) && !m.has(xHook) {
					return "the socket is closed before the stop hook has run"
				}
			case lCbs:
				if m.has(lCbs) {
					return "the close callbacks are invoked twice"
				}
			case lWorker:
				if m.has(lWorker) {
					return "the worker is given back twice"
				}
			}
			return ""
		},
		edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
			if sel, k, x, ok := selCase(g, at); ok && g.isDone(VC{sel.States[k].Chan, x}) && spawnOf(n) == nil {
				m = m.set(lDone)
			}
			if e, ok := ctxErr(g, at); ok && !e && m.has(lDone) {
				return m, false
			}
			for _, p := range [][2]interface{}{{t.onStart, xStart}, {t.onStop, xHook}, {t.hc, xBeat}, {t.mgr, xRemove}} {
				if isnil, ok := t.nilField(g, at, p[0].(string)); ok && isnil {
					m = m.set(p[1].(int))
				}
			}
			if set, won, ok := t.flagTest(g, at); ok {
				if won {
					m = m.set(lFlag)
				}
				if set && !m.has(lFlag) {
					m = m.set(xAll)
				}
			}
			m.twice = 0
			return m, true
		},
		step: func(g *Graph, n *Node, m marks) (marks, bool) {
			// a select with a single case waits for that one
			if sel, ok := n.instr.(*ssa.Select); ok && n.kind == KInstr && sel.Blocking && len(sel.States) == 1 && g.isDone(VC{sel.States[0].Chan, n.ctx}) && spawnOf(n) == nil {
				m = m.set(lDone)
				m.twice = 0
			}
			return m, true
		},
		end: func(g *Graph, n *Node, m marks) string {
			if n.kind != KExit {
				return ""
			}
			if m.has(lDone) {
				ended = true
			}
			switch {
			case !m.has(lReader):
				return "a started connection can be without a reader"
			case !m.has(lStart) && !m.has(xStart):
				return "the start hook is not run"
			case !m.has(lDone):
				return "starting returns before the connection has ended, nothing cleans up after it"
			case m.has(xAll):
				return ""
			case !m.has(lHook) && !m.has(xHook):
				return "a connection can end without its stop hook"
			case !m.has(lBeat) && !m.has(xBeat):
				return "a connection can end without its heartbeat being stopped"
			case !m.has(lClose):
				return "a connection can end without its socket being closed"
			case !m.has(lRemove) && !m.has(xRemove):
				return "a connection can end without being removed from the server's connections"
			case !m.has(lCbs):
				return "a connection can end without its close callbacks"
			case workers && !m.has(lWorker):
				return "a connection can end without giving its worker back"
			}
			return ""
		}})
	if !ended {
		c.undecided(key + " end of the context")
	}
	// the goroutine that invokes the callbacks does so on every path
	for _, s := range g.spawns {
		if spawnOf(s.entry) != s || !g.subtree(s, func(m *Node) bool { return isInvokeCallbacks(g, m) }) {
			continue
		}
		c.track(g, s.entry, &track{key: key + "|callbacks",
			ev: func(g *Graph, n *Node) []int {
				if isInvokeCallbacks(g, n) {
					return []int{0}
				}
				return nil
			},
			on: func(g *Graph, n *Node, i int, m marks) string {
				if m.has(0) {
					return "the close callbacks are invoked twice"
				}
				return ""
			},
			end: func(g *Graph, n *Node, m marks) string {
				if normalEnd(n) && !m.has(0) {
					return "the close callbacks are not invoked on some path"
				}
				return ""
			}})
	}
}

// connOnlyEnd: the stop hook and the closed flag belong to the end of Start.
func connOnlyEnd(c *C, t *connT) {
	start := t.method(c, "Start")
	hit := func(g *Graph, n *Node) bool {
		if fieldCall(g, n, t.T, t.onStop, "") || t.setsFlag(g, n) {
			return true
		}
		if call, ok := n.instr.(*ssa.Call); ok && atomicOn(g, VC{call, n.ctx}, "closed") && strings.Contains(calleeName(call), "Swap") {
			if nm, _, _, ok := g.fieldOf(VC{call.Call.Args[0], n.ctx}); ok && nm.Obj() == t.T.Obj() {
				return true
			}
		}
		op, _ := t.io(g, n)
		return op == "close"
	}
	inStart := func(n *Node) bool {
		for x := n.ctx; x != nil; x = x.parent {
			if x.fn == start {
				return true
			}
		}
		return false
	}
	c.rootsReaching([]string{"znet"}, nil, hit, func(g *Graph, hits []*Node) {
		var out []*Node
		for _, n := range hits {
			if inStart(n) {
				c.okN(n)
			} else {
				out = append(out, n)
			}
		}
		if len(out) == 0 {
			return
		}
		// reached from elsewhere: only under the flag's own protection
		won := map[*Node]bool{}
		for _, n := range out {
			won[n] = true
		}
		starts := []*Node{g.entry}
		for _, s := range g.spawns {
			starts = append(starts, s.entry)
		}
		for _, st := range starts {
			r := &Rule{Init: marks{}}
			r.Node = func(g *Graph, n *Node, a Auto) Auto {
				m := a.(marks)
				if won[n] && !m.has(0) {
					won[n] = false
				}
				return m
			}
			r.Edge = func(g *Graph, n *Node, a Auto, at []Atom) Auto {
				m := a.(marks)
				if _, w, ok := t.flagTest(g, at); ok && w {
					m = m.set(0)
					m.twice = 0
				}
				return m
			}
			c.run(g, st, r)
		}
		for _, n := range out {
			if !won[n] {
				what := "closes the socket of"
				if fieldCall(g, n, t.T, t.onStop, "") {
					what = "runs the stop hook of"
				} else if op, _ := t.io(g, n); op == "" {
					what = "marks as closed"
				}
				c.failN("elsewhere|"+t.name+"|"+fnName(n.fn()), n, what+" a connection outside its own end: the hook can run twice, after the socket was closed, or not at all")
			} else {
				c.okN(n)
			}
		}
	})
}

// callbackList: the list of callbacks is walked whole, and adding and removing
// keep it a list.
func callbackList(c *C) {
	CB, IT := c.needType("znet", "callbacks"), c.needType("znet", "callbackCommon")
	f := c.needMethod("znet", "callbacks", "Invoke")
	if f == nil || CB == nil || IT == nil {
		return
	}
	g := c.graph(f, nil)
	var cur *ssa.Phi
	for _, n := range g.nodes {
		if n.kind != KInstr || !userCall(g, n) {
			continue
		}
		_, fn, b, ok := g.fieldOf(VC{n.instr.(ssa.CallInstruction).Common().Value, n.ctx})
		if !ok || fn != "call" {
			continue
		}
		ph, ok := g.trace(b).v.(*ssa.Phi)
		if !ok || ph.Parent() != f || cur != nil && cur != ph {
			c.undecided(n.posn(c.P) + " walk over the callbacks")
			return
		}
		cur = ph
	}
	if cur == nil {
		c.undecided("no walk over the callbacks")
		return
	}
	isNext := func(v VC) bool {
		_, fn, b, ok := g.fieldOf(v)
		return ok && fn == "next" && g.trace(b).v == ssa.Value(cur)
	}
	for _, e := range cur.Edges {
		v := VC{e, g.root}
		if !isNext(v) && g.sym(v) != "P0@0.first" {
			c.failF("walk", f, "the walk over the close callbacks does not go from the first to each next one")
		} else {
			c.ok(fnName(f))
		}
	}
	const called, done = 0, 1
	c.track(g, g.entry, &track{key: "Invoke",
		ev: func(g *Graph, n *Node) []int {
			if n.kind == KInstr && userCall(g, n) {
				return []int{called}
			}
			return nil
		},
		on: func(g *Graph, n *Node, i int, m marks) string {
			if m.has(called) {
				return "a close callback is called twice"
			}
			return ""
		},
		step: func(g *Graph, n *Node, m marks) (marks, bool) {
			if u, ok := n.instr.(*ssa.UnOp); ok && n.kind == KInstr && u.Op == token.MUL && isNext(VC{u, n.ctx}) {
				if !m.has(called) && !m.has(2) {
					c.failN("skipped", n, "a close callback is left out")
					return m, false
				}
				m = m.clear(called).clear(2)
			}
			return m, true
		},
		edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
			for _, a := range at {
				if v, isnil, ok := a.nilness(); ok && isnil {
					if _, fn, _, okf := g.fieldOf(v); okf && fn == "call" {
						m = m.set(2)
						m.twice = 0
					} else {
						m = m.set(done)
						m.twice = 0
					}
				}
			}
			return m, true
		},
		end: func(g *Graph, n *Node, m marks) string {
			if n.kind == KExit && !m.has(done) {
				return "the walk over the close callbacks ends before the last one"
			}
			return ""
		}})
	// adding
	if f := c.needMethod("znet", "callbacks", "Add"); f != nil {
		g := c.graph(f, nil)
		const setFirst, setNext, setLast, empty, nonempty, nocb = 0, 1, 2, 3, 4, 5
		item := func(v VC, e env) bool {
			w, _ := g.objOf(v, e)
			al, ok := w.v.(*ssa.Alloc)
			if !ok || !typeIs(derefT(al.Type()), "callbackCommon") {
				return false
			}
			cb, ok := g.onlyStore(w, fieldIdx(IT, "call"))
			return ok && g.sym(cb) == g.psym(3)
		}
		var tr *track
		tr = &track{key: "Add", ev: func(g *Graph, n *Node) []int {
			st, ok := n.instr.(*ssa.Store)
			if !ok || n.kind != KInstr {
				return nil
			}
			nm, fn, b, ok := g.fieldOf(VC{st.Addr, n.ctx})
			if !ok || g.isFresh(b) {
				return nil
			}
			switch {
			case nm.Obj() == CB.Obj() && fn == "first":
				return []int{setFirst}
			case nm.Obj() == CB.Obj() && fn == "last":
				return []int{setLast}
			case nm.Obj() == IT.Obj() && fn == "next":
				return []int{setNext}
			}
			return nil
		}, on: func(g *Graph, n *Node, i int, m marks) string {
			st := n.instr.(*ssa.Store)
			if !item(VC{st.Val, n.ctx}, tr.e) {
				return "what is added to the list is not the callback given"
			}
			_, _, b, _ := g.fieldOf(VC{st.Addr, n.ctx})
			if i == setNext && (g.sym(b) != "P0@0.last" || m.has(setLast)) {
				return "the callback is not put after the last one"
			}
			if i == setFirst && !m.has(empty) {
				return "adding a callback can drop those before it"
			}
			if i == setNext && m.has(empty) {
				return "the callback is put after the last one of an empty list"
			}
			return ""
		}, edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
			for _, a := range at {
				if v, isnil, ok := a.nilness(); ok {
					switch s := g.sym(v); {
					case s == "P0@0.first" || s == "P0@0.last":
						if isnil {
							m = m.set(empty)
						} else {
							m = m.set(nonempty)
						}
					case s == g.psym(3) && isnil:
						m = m.set(nocb)
					}
				}
			}
			m.twice = 0
			return m, true
		}, end: func(g *Graph, n *Node, m marks) string {
			if n.kind != KExit || m.has(nocb) {
				return ""
			}
			if !m.has(setLast) || m.has(empty) != m.has(setFirst) || m.has(empty) == m.has(setNext) {
				return "a callback can be lost when it is added"
			}
			return ""
		}}
		c.track(g, g.entry, tr)
	}
}

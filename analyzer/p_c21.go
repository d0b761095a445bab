package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", func(c *C) {
		S := c.needType("znet", "Server")
		if S == nil {
			return
		}
		s := &stopT{S: S}
		s.exit = c.needField(S, "exitChan", "chan struct{}")
		s.mgr = c.needField(S, "ConnMgr", "ziface.IConnManager")
		c.Rule("stop", "Stopping a server has its manager stop the connections and closes the exit channel, once, on every path; it sends nothing anyone would have to receive")
		s.stop(c)
		c.Rule("clear", "Clearing the manager stops every connection the table yields, to its end")
		s.clear(c)
		c.atLeast(1, "stopped connections")
		c.Rule("listeners", "Whoever opens a listener waits for the exit channel to be closed, there or in a goroutine started before, and then closes the listener; the listener is closed for no other reason")
		s.listeners(c)
		c.atLeast(3, "listeners")
		c.Rule("accept", "An accept loop is left only when the listener was closed or the server stopped, then it is left, and an accept error of another kind is followed by the next accept")
		s.loops(c)
		c.atLeast(2, "accept loops")
		c.Rule("start", "Starting a server makes the exit channel before anything that waits for it is started, and starts a listener in every mode")
		s.start(c)
		c.atLeast(1, "starts")
	})
}

type stopT struct {
	S         *types.Named
	exit, mgr string
}

func (s *stopT) own(f *ssa.Function) bool {
	r := f.Signature.Recv()
	return r != nil && typeIs(r.Type(), s.S.Obj().Name())
}

func (s *stopT) isExit(g *Graph, v VC) bool { return g.isField(v, s.S, s.exit) || g.isDone(v) }

func (s *stopT) stop(c *C) {
	f := c.needMethod("znet", "Server", "Stop")
	if f == nil {
		return
	}
	g := c.graph(f, nil)
	const (
		sClear = iota
		sClose
		sNil
	)
	tr := &track{key: "Stop"}
	tr.ev = func(g *Graph, n *Node) []int {
		if n.kind != KInstr && n.kind != KDeferCall {
			return nil
		}
		if ci, ok := n.instr.(ssa.CallInstruction); ok && isCallNode(n) {
			if b, ok := ci.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" && s.isExit(g, VC{ci.Common().Args[0], n.ctx}) {
				return []int{sClose}
			}
			if ci.Common().Value != nil && !ci.Common().IsInvoke() && ci.Common().StaticCallee() == nil && ci.Common().Value.Type().String() == "context.CancelFunc" {
				return []int{sClose}
			}
			if fieldCall(g, n, s.S, s.mgr, "ClearConn") {
				return []int{sClear}
			}
		}
		if sd, ok := n.instr.(*ssa.Send); ok && s.isExit(g, VC{sd.Chan, n.ctx}) {
			c.failN("send|Stop", n, "the exit signal is sent, which one listener at most receives; the others go on, and without a listener the stop hangs")
		}
		if sel, ok := n.instr.(*ssa.Select); ok {
			for _, x := range sel.States {
				if x.Dir == types.SendOnly && s.isExit(g, VC{x.Chan, n.ctx}) {
					c.failN("send|Stop", n, "the exit signal is sent, which one listener at most receives; the others go on")
				}
			}
		}
		return nil
	}
	tr.on = func(g *Graph, n *Node, i int, m marks) string {
		if i == sClose && m.has(sClose) {
			return "the exit channel is closed twice: the stop panics"
		}
		return ""
	}
	tr.edge = func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
		for _, a := range at {
			if v, isnil, ok := a.nilness(); ok && isnil && (g.isField(v, s.S, s.exit) || g.isField(v, s.S, s.mgr)) {
				m = m.set(sNil)
			}
		}
		if sel, k, x, ok := selCase(g, at); ok && s.isExit(g, VC{sel.States[k].Chan, x}) {
			m = m.set(sNil) // stopped before
		}
		m.twice = 0
		return m, true
	}
	tr.end = func(g *Graph, n *Node, m marks) string {
		if !normalEnd(n) || m.has(sNil) {
			return ""
		}
		if !m.has(sClear) {
			return "stopping the server leaves its connections running"
		}
		if !m.has(sClose) {
			return "stopping the server does not close the exit channel: its listeners go on"
		}
		return ""
	}
	c.track(g, g.entry, tr)
	// nothing else is waited for
	for _, n := range g.nodes {
		if spawnOf(n) != nil || n.kind != KInstr {
			continue
		}
		switch x := n.instr.(type) {
		case *ssa.Call:
			switch calleeName(x) {
			case "(*sync.WaitGroup).Wait":
				if fnRel(n.fn()) == "znet" {
					c.undecided(n.posn(c.P))
				}
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW && s.isExit(g, VC{x.X, n.ctx}) {
				c.failN("waits|Stop", n, "the stop waits for the exit channel, which only it closes")
			}
		}
	}
}

func (s *stopT) clear(c *C) {
	f := c.needMethod("znet", "ConnManager", "ClearConn")
	M := c.needType("znet", "ConnManager")
	if f == nil || M == nil {
		return
	}
	g := c.graph(f, &Policy{Dispatch: true, MaxImpls: 1, Inline: func(f *ssa.Function) bool { return fnRel(f) == "znet" || f.Parent() != nil && fnRel(f) == "znet" }})
	onTable := func(v VC) bool {
		return g.derives(v, func(x VC) bool { return g.isField(x, M, fieldNames(M)...) })
	}
	var recvs []*Node
	for _, n := range g.nodes {
		if u, ok := n.instr.(*ssa.UnOp); ok && n.kind == KInstr && u.Op == token.ARROW && onTable(VC{u.X, n.ctx}) {
			recvs = append(recvs, n)
		}
	}
	stops := func(n *Node) (VC, bool) {
		ci, ok := n.instr.(ssa.CallInstruction)
		if !ok || n.kind != KInstr {
			return VC{}, false
		}
		cc := ci.Common()
		if cc.IsInvoke() && cc.Method.Name() == "Stop" && isIfaceNamed(cc.Value.Type(), "IConnection") {
			return VC{cc.Value, n.ctx}, true
		}
		if _, ok := n.instr.(*ssa.Go); ok {
			for _, k := range n.spawn {
				var r VC
				if g.subtree(k, func(m *Node) bool {
					ci, ok := m.instr.(ssa.CallInstruction)
					if !ok {
						return false
					}
					cc := ci.Common()
					if cc.IsInvoke() && cc.Method.Name() == "Stop" {
						r = VC{cc.Value, m.ctx}
						return true
					}
					return false
				}) {
					return r, true
				}
			}
		}
		return VC{}, false
	}
	const (
		have = iota
		done
		alien
	)
	if len(recvs) > 0 {
		is := func(n *Node) bool {
			for _, r := range recvs {
				if r == n {
					return true
				}
			}
			return false
		}
		bad := map[string]bool{}
		rep := func(n *Node, k, why string) {
			if !bad[k] {
				bad[k] = true
				c.failN(k+"|ClearConn", n, why)
			}
		}
		tr := &track{key: "ClearConn"}
		tr.ev = func(g *Graph, n *Node) []int { return nil }
		tr.step = func(g *Graph, n *Node, m marks) (marks, bool) {
			m.twice = 0
			if is(n) {
				if m.has(have) && !m.has(alien) {
					rep(n, "skipped", "a registered connection is not stopped")
					return m, false
				}
				c.okN(n)
				return m.clear(alien).clear(have).set(have), true
			}
			if v, ok := stops(n); ok {
				if g.derives(v, func(x VC) bool {
					for _, r := range recvs {
						if x.v == r.instr.(ssa.Value) {
							return true
						}
					}
					return false
				}) {
					m = m.clear(have)
				}
			}
			return m, true
		}
		tr.edge = func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
			for _, a := range at {
				ex, ok := g.norm(a.X).v.(*ssa.Extract)
				if !ok || a.Op != 0 || ex.Index != 1 || a.Val {
					continue
				}
				switch y := ex.Tuple.(type) {
				case *ssa.UnOp:
					if y.Op == token.ARROW {
						m = m.clear(have).set(done)
					}
				case *ssa.TypeAssert:
					m = m.set(alien)
				}
			}
			m.twice = 0
			return m, true
		}
		tr.end = func(g *Graph, n *Node, m marks) string {
			if normalEnd(n) && !m.has(done) {
				return "clearing the manager can end before every connection was stopped"
			}
			return ""
		}
		c.track(g, g.entry, tr)
		return
	}
	// a callback per connection
	found := false
	for _, n := range g.nodes {
		if !isCallNode(n) || len(n.callees) > 0 {
			continue
		}
		for _, a := range n.instr.(ssa.CallInstruction).Common().Args {
			fc, ok := g.funcOf(VC{a, n.ctx})
			if !ok || fc.fn.Parent() == nil {
				continue
			}
			found = true
			gg := c.graph(fc.fn, &Policy{Dispatch: true, MaxImpls: 1, Inline: func(f *ssa.Function) bool { return fnRel(f) == "znet" }})
			tr := &track{key: "ClearConn"}
			tr.ev = func(_ *Graph, m *Node) []int {
				ci, ok := m.instr.(ssa.CallInstruction)
				if !ok || m.kind != KInstr {
					return nil
				}
				if cc := ci.Common(); cc.IsInvoke() && cc.Method.Name() == "Stop" {
					return []int{0}
				}
				return nil
			}
			tr.edge = func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
				for _, a := range at {
					if ex, ok := g.norm(a.X).v.(*ssa.Extract); ok && a.Op == 0 && !a.Val {
						if _, ok := ex.Tuple.(*ssa.TypeAssert); ok {
							m = m.set(1)
						}
					}
					if _, isnil, ok := a.nilness(); ok && isnil {
						m = m.set(1)
					}
				}
				return m, true
			}
			tr.end = func(g *Graph, n *Node, m marks) string {
				if normalEnd(n) && !m.has(0) && !m.has(1) {
					return "a registered connection is not stopped"
				}
				return ""
			}
			c.track(gg, gg.entry, tr)
		}
	}
	if !found {
		for _, n := range g.nodes {
			if _, ok := stops(n); ok {
				c.undecided(n.posn(c.P))
				c.okN(n)
				return
			}
		}
		c.failF("nothing|ClearConn", f, "clearing the manager stops no connection")
	}
}

// openOf: the node opens a listener; serve: and serves it until it is closed.
func openOf(n *Node) (open, serve, fixed bool) {
	if !isCallNode(n) || len(n.callees) > 0 {
		return
	}
	cc := n.instr.(ssa.CallInstruction).Common()
	sc := cc.StaticCallee()
	if sc == nil {
		return
	}
	switch s := sc.String(); {
	case s == "net.Listen" || s == "net.ListenTCP" || s == "crypto/tls.Listen" || s == "(*net.ListenConfig).Listen":
		open = true
	case strings.Contains(s, "kcp") && strings.HasPrefix(sc.Name(), "Listen"):
		open = true
	case s == "(*net/http.Server).ListenAndServe" || s == "(*net/http.Server).ListenAndServeTLS" || s == "(*net/http.Server).Serve" || s == "(*net/http.Server).ServeTLS":
		serve = true
	case s == "net/http.ListenAndServe" || s == "net/http.ListenAndServeTLS":
		fixed = true
	}
	return
}

// closesListener: the node closes a listener or HTTP server.
func closesListener(n *Node) bool {
	ci, ok := n.instr.(ssa.CallInstruction)
	if !ok || n.kind == KAfter || n.kind == KGate || n.kind == KBlock {
		return false
	}
	cc := ci.Common()
	var t types.Type
	nm := ""
	if cc.IsInvoke() {
		t, nm = cc.Value.Type(), cc.Method.Name()
	} else if sc := cc.StaticCallee(); sc != nil && sc.Signature.Recv() != nil {
		t, nm = sc.Signature.Recv().Type(), sc.Name()
	} else {
		return false
	}
	if _, d := ci.(*ssa.Defer); d && n.kind != KDeferCall {
		return false
	}
	switch nm {
	case "Close":
		return hasMethods(t, "Accept", "Addr") || hasMethods(t, "ListenAndServe")
	case "Shutdown":
		return hasMethods(t, "ListenAndServe")
	}
	return false
}

func (s *stopT) exitSeen(g *Graph, n *Node) bool {
	u, ok := n.instr.(*ssa.UnOp)
	return ok && n.kind == KInstr && u.Op == token.ARROW && s.isExit(g, VC{u.X, n.ctx})
}

// single-case selects have no branch: the node itself is the reception.
func (s *stopT) exitSel(g *Graph, n *Node) bool {
	sel, ok := n.instr.(*ssa.Select)
	return ok && n.kind == KInstr && sel.Blocking && len(sel.States) == 1 && s.isExit(g, VC{sel.States[0].Chan, n.ctx})
}

func (s *stopT) exitCase(g *Graph, at []Atom) bool {
	sel, k, x, ok := selCase(g, at)
	return ok && sel.States[k].Dir == types.RecvOnly && s.isExit(g, VC{sel.States[k].Chan, x})
}

// watcher: a goroutine that waits for the exit channel and then closes the
// listener.
func (s *stopT) watcher(c *C, g *Graph, k *Ctx) (is bool, why string) {
	if !g.subtree(k, closesListener) {
		return false, ""
	}
	const (
		ex = iota
		cl
	)
	r := &Rule{Init: marks{}}
	r.Node = func(g *Graph, n *Node, a Auto) Auto {
		m := a.(marks)
		if s.exitSeen(g, n) || s.exitSel(g, n) {
			m = m.set(ex)
		}
		if closesListener(n) {
			if !m.has(ex) {
				why = "the listener is closed although the server was not stopped"
			}
			m = m.set(cl)
		}
		m.twice = 0
		return m
	}
	r.Edge = func(g *Graph, n *Node, a Auto, at []Atom) Auto {
		m := a.(marks)
		if s.exitCase(g, at) {
			m = m.set(ex)
		}
		m.twice = 0
		return m
	}
	r.End = func(g *Graph, n *Node, a Auto, w func() []string) {
		m := a.(marks)
		if normalEnd(n) && !m.has(cl) {
			why = "the goroutine that should close the listener can end without"
		}
	}
	c.run(g, k.entry, r)
	return true, why
}

func (s *stopT) listeners(c *C) {
	const (
		lOpen = iota
		lErr
		lExit
		lClosed
		lWatched
	)
	done := map[token.Pos]bool{}
	hit := func(g *Graph, n *Node) bool { o, sv, fx := openOf(n); return o || sv || fx }
	c.rootsReaching([]string{"znet"}, nil, hit, func(g *Graph, hits []*Node) {
		if !s.own(g.root.fn) {
			return
		}
		ent := map[*Node]bool{}
		for _, h := range hits {
			if !done[h.instr.Pos()] {
				done[h.instr.Pos()] = true
				ent[spawnEntry(g, h)] = true
			}
		}
		for entry := range ent {
			key := fnName(entry.fn())
			bad := map[string]bool{}
			rep := func(n *Node, k, why string) {
				if !bad[k] {
					bad[k] = true
					c.failN(k+"|"+key, n, why)
				}
			}
			tr := &track{key: key}
			tr.ev = func(g *Graph, n *Node) []int { return nil }
			var lastOpen *Node
			tr.step = func(g *Graph, n *Node, m marks) (marks, bool) {
				m.twice = 0
				o, sv, fx := openOf(n)
				switch {
				case fx:
					rep(n, "fixed", "a listener is opened that nothing can close")
					return m, false
				case o:
					lastOpen = n
					c.okN(n)
					return m.clear(lErr).clear(lClosed).clear(lExit).set(lOpen), true
				case sv:
					lastOpen = n
					if !m.has(lWatched) {
						rep(n, "unwatched", "the server serves until it is closed, and nothing closes it when the server is stopped")
						return m, false
					}
					c.okN(n)
					return m, true
				}
				if s.exitSeen(g, n) || s.exitSel(g, n) {
					m = m.set(lExit)
				}
				if closesListener(n) {
					if !m.has(lExit) && !m.has(lErr) {
						rep(n, "early", "the listener is closed although the server was not stopped")
						return m, false
					}
					m = m.set(lClosed)
				}
				if _, ok := n.instr.(*ssa.Go); ok && n.kind == KInstr {
					for _, k := range n.spawn {
						if is, why := s.watcher(c, g, k); is {
							if why != "" {
								rep(n, "watcher", why)
							}
							m = m.set(lWatched)
						}
					}
				}
				m.twice = 0
				return m, true
			}
			tr.edge = func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
				if s.exitCase(g, at) {
					m = m.set(lExit)
				}
				for _, a := range at {
					if v, isnil, ok := a.nilness(); ok && !isnil {
						w, _ := g.resolve1(v, tr.e)
						if ex, ok := g.trace(w).v.(*ssa.Extract); ok && ex.Index == 1 {
							if call, ok := ex.Tuple.(*ssa.Call); ok && call.Call.StaticCallee() != nil && strings.HasPrefix(call.Call.StaticCallee().Name(), "Listen") {
								m = m.set(lErr)
							}
						}
					}
				}
				m.twice = 0
				return m, true
			}
			tr.end = func(g *Graph, n *Node, m marks) string {
				if normalEnd(n) && m.has(lOpen) && !m.has(lErr) && !m.has(lClosed) && !m.has(lWatched) {
					_ = lastOpen
					return "a listener is opened and left open when the server is stopped"
				}
				return ""
			}
			c.track(g, entry, tr)
		}
	})
}

func (s *stopT) loops(c *C) {
	const (
		aErr = iota
		aOK
		aGone // the listener is known to be closed, or the server stopped
		aAcc
		aTemp
	)
	done := map[token.Pos]bool{}
	c.rootsReaching([]string{"znet"}, nil, func(g *Graph, n *Node) bool { return admission(g, n) == "accept" }, func(g *Graph, hits []*Node) {
		if !s.own(g.root.fn) {
			return
		}
		ent := map[*Node]bool{}
		for _, h := range hits {
			if !done[h.instr.Pos()] {
				done[h.instr.Pos()] = true
				ent[spawnEntry(g, h)] = true
			}
		}
		for entry := range ent {
			key := fnName(entry.fn())
			bad := map[string]bool{}
			rep := func(n *Node, k, why string) {
				if !bad[k] {
					bad[k] = true
					c.failN(k+"|"+key, n, why)
				}
			}
			ended := false
			var acc *Node
			tr := &track{key: key}
			tr.ev = func(g *Graph, n *Node) []int { return nil }
			tr.step = func(g *Graph, n *Node, m marks) (marks, bool) {
				m.twice = 0
				if admission(g, n) == "accept" {
					acc = n
					if m.has(aGone) && m.has(aErr) {
						rep(n, "spins", "the accept loop goes on after the listener was closed")
						return m, false
					}
					c.okN(n)
					return m.clear(aErr).clear(aOK).clear(aGone).clear(aTemp).set(aAcc), true
				}
				if s.exitSeen(g, n) || s.exitSel(g, n) {
					m = m.set(aGone)
				}
				return m, true
			}
			tr.edge = func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
				if s.exitCase(g, at) {
					m = m.set(aGone)
				}
				for _, a := range at {
					if v, isnil, ok := a.nilness(); ok {
						if ex, ok := g.trace(v).v.(*ssa.Extract); ok && ex.Index == 1 {
							if call, ok := ex.Tuple.(*ssa.Call); ok && isAdmissionCall(call) {
								if isnil {
									m = m.set(aOK)
								} else {
									m = m.set(aErr)
								}
							}
						}
						continue
					}
					if a.Op == token.EQL && closedErr(acc, a.SY+a.SX) {
						m = m.set(aGone)
					}
					if call, ok := g.norm(a.X).v.(*ssa.Call); ok && a.Op == 0 {
						nm := calleeName(call)
						if call.Call.IsInvoke() {
							nm = call.Call.Method.Name()
						}
						switch {
						case nm == "errors.Is" && a.Val && closedErr(acc, g.sym(VC{call.Call.Args[1], g.norm(a.X).c})):
							m = m.set(aGone)
						case nm == "strings.Contains" && a.Val && strings.Contains(g.sym(VC{call.Call.Args[1], g.norm(a.X).c}), "closed"):
							m = m.set(aGone)
						case nm == "Temporary" && !a.Val:
							m = m.set(aGone)
						}
					}
				}
				m.twice = 0
				return m, true
			}
			tr.end = func(g *Graph, n *Node, m marks) string {
				if !normalEnd(n) {
					return ""
				}
				switch {
				case m.has(aGone):
					ended = true
					return ""
				case m.has(aErr):
					ended = true
					return "an accept error ends the accept loop although the listener was not closed"
				case m.has(aAcc):
					return "the accept loop ends after a connection was accepted"
				}
				return ""
			}
			c.track(g, entry, tr)
			if !ended && acc != nil {
				rep(acc, "forever", "the accept loop never ends, also when the listener is closed")
			}
		}
	})
}

// closedErr: the error named by sym is what a closed listener reports to accept.
func closedErr(acc *Node, sym string) bool {
	if acc != nil {
		if sc := acc.instr.(ssa.CallInstruction).Common().StaticCallee(); sc != nil {
			if strings.Contains(sc.String(), "kcp") {
				return strings.Contains(sym, "ErrClosedPipe")
			}
			return strings.Contains(sym, "ErrClosed") && !strings.Contains(sym, "ErrClosedPipe")
		}
	}
	return strings.Contains(sym, "Closed")
}

func (s *stopT) start(c *C) {
	f := c.needMethod("znet", "Server", "Start")
	if f == nil {
		return
	}
	g := c.graph(f, nil)
	const (
		mMade = iota
		mListen
	)
	// made when the server is built?
	built := false
	for _, fn := range c.P.Roots("znet") {
		gg := c.graph(fn, nil)
		for _, n := range gg.nodes {
			st, ok := n.instr.(*ssa.Store)
			if !ok || n.kind != KInstr {
				continue
			}
			if nm, fl, b, ok := gg.fieldOf(VC{st.Addr, n.ctx}); ok && nm.Obj() == s.S.Obj() && fl == s.exit && gg.isFresh(b) {
				if _, mk := gg.trace(VC{st.Val, n.ctx}).v.(*ssa.MakeChan); mk {
					built = true
				}
			}
		}
	}
	tr := &track{key: "Start", once: true}
	tr.ev = func(g *Graph, n *Node) []int {
		if n.kind != KInstr || spawnOf(n) != nil {
			return nil
		}
		if st, ok := n.instr.(*ssa.Store); ok && g.isField(VC{st.Addr, n.ctx}, s.S, s.exit) {
			if _, mk := g.trace(VC{st.Val, n.ctx}).v.(*ssa.MakeChan); mk {
				return []int{mMade}
			}
			c.failN("exit|Start", n, "the exit channel is replaced by something else")
		}
		if _, ok := n.instr.(*ssa.Go); ok {
			for _, k := range n.spawn {
				if g.subtree(k, func(m *Node) bool { o, sv, fx := openOf(m); return o || sv || fx }) {
					return []int{mListen}
				}
			}
		}
		return nil
	}
	tr.on = func(g *Graph, n *Node, i int, m marks) string {
		if i == mListen && !m.has(mMade) && !built {
			return "a listener is started before the exit channel it waits for is made"
		}
		if i == mMade && m.has(mListen) {
			return "the exit channel is replaced after a listener was started: stopping does not reach the listener"
		}
		return ""
	}
	tr.end = func(g *Graph, n *Node, m marks) string {
		if normalEnd(n) && !m.has(mListen) {
			return "starting the server starts no listener"
		}
		return ""
	}
	c.track(g, g.entry, tr)
}

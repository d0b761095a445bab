package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", func(c *C) {
		H := c.needType("znet", "HeartbeatChecker")
		if H == nil {
			return
		}
		h := &beatT{T: H}
		h.interval = c.needField(H, "interval", "time.Duration")
		h.quit = c.needField(H, "quitChan", "")
		h.makeMsg = c.needField(H, "makeMsg", "ziface.HeartBeatMsgFunc")
		h.dead = c.needField(H, "onRemoteNotAlive", "ziface.OnRemoteNotAlive")
		h.msgID = c.needField(H, "msgID", "uint32")
		h.router = c.needField(H, "router", "ziface.IRouter")
		h.slices = c.needField(H, "routerSlices", "[]ziface.RouterHandler")
		h.conn = c.needField(H, "conn", "ziface.IConnection")
		h.beat = c.needField(H, "beatFunc", "ziface.HeartBeatFunc")
		ts := connKinds(c)

		c.Rule("clone", "A clone is a new checker with a quit channel of its own and every other setting of the original, field by field")
		h.clone(c)
		c.Rule("own", "A connection of a server gets a checker created for it and bound to it before it starts; a client's connection is bound to the client's checker; binding stores the connection in the checker and the checker in the connection")
		h.own(c, ts)
		c.atLeast(5, "bindings")
		c.Rule("tick", "On every tick of a ticker running at the configured interval the checker asks whether its connection is alive; if not it calls the not-alive callback with the connection, otherwise it sends the heartbeat, by the user's function if there is one, else the configured message; the quit signal, and only it, ends the checker")
		h.tick(c)
		c.Rule("quit", "Stopping the checker delivers the quit signal whatever the checker is doing")
		h.stop(c)
		c.Rule("alive", "A connection is alive exactly when it is not closed and its last activity is less than the configured maximum ago")
		for _, t := range ts {
			h.alive(c, t)
		}
		c.atLeast(3, "decisions")
		c.Rule("activity", "Receiving data stores the current time as the last activity, and so does starting the checker; a connection that has a checker starts it, and stops it when it ends")
		for _, t := range ts {
			h.activity(c, t)
		}
		c.atLeast(6, "activity updates")
		c.Rule("settings", "Each setter stores what it is given, and starting the heartbeat with options installs a checker with the given interval and every option that was given, and routes its message identifier to its handler")
		h.settings(c)
		c.atLeast(8, "settings")
	})
}

type beatT struct {
	T                                                                *types.Named
	interval, quit, makeMsg, dead, msgID, router, slices, conn, beat string
}

func isSyncField(t types.Type) bool {
	s := t.String()
	return strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "sync/atomic.") || strings.HasPrefix(s, "atomic.")
}

func (h *beatT) clone(c *C) {
	f := c.needMethod("znet", "HeartbeatChecker", "Clone")
	if f == nil {
		return
	}
	g := c.graph(f, nil)
	st := h.T.Underlying().(*types.Struct)
	reported := map[string]bool{}
	rep := func(n *Node, k, why string) {
		if !reported[k] {
			reported[k] = true
			c.failN(k+"|Clone", n, why)
		}
	}
	c.objPaths(g, h.T, nil, func(n *Node, s ostate, e env) (ostate, bool) {
		ret, ok := n.instr.(*ssa.Return)
		if !ok || n.kind != KInstr || n.ctx != g.root {
			return s, true
		}
		w, o := g.objOf(VC{ret.Results[0], n.ctx}, e)
		if o == g.psym(0) {
			rep(n, "same", "a clone is the checker itself: connections share it")
			return s, true
		}
		if _, ok := w.v.(*ssa.Alloc); !ok {
			c.undecided(n.posn(c.P))
			return s, true
		}
		for i := 0; i < st.NumFields(); i++ {
			fn := st.Field(i).Name()
			v, known := s.f[o+"|"+fn]
			want := g.psym(0) + "." + fn
			_, isch := st.Field(i).Type().Underlying().(*types.Chan)
			switch {
			case fn == h.conn || isSyncField(st.Field(i).Type()):
			case isch:
				if v == want {
					rep(n, fn, "a clone shares the channel "+fn+" with the original: stopping one stops another")
				} else if v == "0" {
					rep(n, fn, "a clone has no channel "+fn)
				} else {
					c.okN(n)
				}
			case !known || v == "?":
				c.undecided(n.posn(c.P) + " " + fn)
			case v == want:
				c.okN(n)
			case isSlice(st.Field(i).Type()) && v != "0":
				// a copy of the list
				if h.copied(g, n, o, fn) {
					c.okN(n)
				} else {
					c.undecided(n.posn(c.P) + " " + fn + " = " + v)
				}
			default:
				rep(n, fn, "a clone does not have the "+fn+" of the original but "+v)
			}
		}
		return s, true
	}, nil, nil)
	c.atLeast(1, "clones")
}

// copied: the list field of the object is filled from the same field of the
// receiver.
func (h *beatT) copied(g *Graph, at *Node, o, fn string) bool {
	for _, n := range g.nodes {
		ci, ok := n.instr.(ssa.CallInstruction)
		if !ok || n.kind != KInstr {
			continue
		}
		b, ok := ci.Common().Value.(*ssa.Builtin)
		if !ok || (b.Name() != "append" && b.Name() != "copy") || len(ci.Common().Args) < 2 {
			continue
		}
		if g.sym(VC{ci.Common().Args[1], n.ctx}) == g.psym(0)+"."+fn {
			return true
		}
	}
	return false
}

// derives: the value is computed from one that satisfies p.
func (g *Graph) derives(v VC, p func(v VC) bool) bool {
	seen := map[string]bool{}
	var walk func(v VC, d int) bool
	walk = func(v VC, d int) bool {
		if d > 12 || v.v == nil {
			return false
		}
		v = g.trace(v)
		k := vkey(v)
		if seen[k] {
			return false
		}
		seen[k] = true
		if p(v) {
			return true
		}
		in, ok := v.v.(ssa.Instruction)
		if !ok {
			return false
		}
		if al, ok := v.v.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) && walk(VC{st.Val, v.c}, d+1) {
					return true
				}
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, u := range *ia.Referrers() {
						if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(ia) && walk(VC{st.Val, v.c}, d+1) {
							return true
						}
					}
				}
			}
			return false
		}
		if call, ok := v.v.(*ssa.Call); ok {
			for _, k := range g.calls[callKey{v.c, call}] {
				for _, r := range k.rets {
					for _, x := range r.instr.(*ssa.Return).Results {
						if walk(VC{x, k}, d+1) {
							return true
						}
					}
				}
			}
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && walk(VC{*op, v.c}, d+1) {
				return true
			}
		}
		return false
	}
	return walk(v, 0)
}

func isMethodCall(n *Node, name string) (VC, bool) {
	if !isCallNode(n) {
		return VC{}, false
	}
	cc := n.instr.(ssa.CallInstruction).Common()
	if cc.IsInvoke() {
		return VC{cc.Value, n.ctx}, cc.Method.Name() == name
	}
	if sc := cc.StaticCallee(); sc != nil && sc.Signature.Recv() != nil && len(cc.Args) > 0 {
		return VC{cc.Args[0], n.ctx}, sc.Name() == name
	}
	return VC{}, false
}

func isIfaceNamed(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name
}

func (h *beatT) own(c *C, ts []*connT) {
	// binding
	if f := c.needMethod("znet", "HeartbeatChecker", "BindConn"); f != nil {
		g := c.graph(f, nil)
		told := false
		c.objPaths(g, h.T, nil, func(n *Node, s ostate, e env) (ostate, bool) {
			if r, ok := isMethodCall(n, "SetHeartBeat"); ok {
				a, _ := g.arg(n, 1)
				_, ao := g.objOf(a, e)
				if g.sym(r) != g.psym(1) || ao != g.psym(0) {
					c.failN("setbeat|BindConn", n, "binding gives the connection another checker, or gives it to another connection")
				}
				told = true
				s.marks = s.marks.set(0)
				s.marks.twice = 0
			}
			return s, true
		}, nil, func(n *Node, s ostate) {
			if !normalEnd(n) {
				return
			}
			if v := s.f[g.psym(0)+"|"+h.conn]; v != g.psym(1) {
				c.failF("bind|BindConn", f, "binding does not store the connection in the checker")
			} else if !s.has(0) {
				c.failF("bind2|BindConn", f, "binding does not store the checker in the connection")
			} else {
				c.ok(fnName(f))
			}
		})
		_ = told
	}
	for _, t := range ts {
		f := t.method(c, "SetHeartBeat")
		if f == nil {
			continue
		}
		g := c.graph(f, nil)
		c.objPaths(g, t.T, nil, func(n *Node, s ostate, e env) (ostate, bool) { return s, true }, nil, func(n *Node, s ostate) {
			if !normalEnd(n) {
				return
			}
			if v := s.f[g.psym(0)+"|"+t.hc]; v != g.psym(1) {
				c.failF("set|"+t.name, f, "the checker given to a connection is not stored in it")
			} else {
				c.ok(fnName(f))
			}
		})
	}
	// connections are started with a checker bound to them
	for _, own := range []string{"Server", "Client"} {
		S := c.needType("znet", own)
		if S == nil {
			return
		}
		hc := c.needField(S, "hc", "ziface.IHeartbeatChecker")
		found := false
		starts := func(g *Graph, n *Node) bool {
			ci, ok := n.instr.(ssa.CallInstruction)
			if !ok || n.kind == KAfter || n.kind == KGate {
				return false
			}
			cc := ci.Common()
			return cc.IsInvoke() && cc.Method.Name() == "Start" && isIfaceNamed(cc.Value.Type(), "IConnection")
		}
		c.rootsReaching([]string{"znet"}, nil, starts, func(g *Graph, hits []*Node) {
			r := g.root.fn.Signature.Recv()
			if r == nil || !typeIs(r.Type(), own) {
				return
			}
			entries := map[*Node]bool{}
			for _, x := range hits {
				if s := spawnOf(x); s != nil {
					entries[s.entry] = true
				} else {
					entries[g.entry] = true
				}
			}
			const (
				none = iota
				some
			)
			reported := map[string]bool{}
			rep := func(n *Node, k, why string) {
				if !reported[k+n.posn(c.P)] {
					reported[k+n.posn(c.P)] = true
					c.failN(k+"|"+own, n, why)
				}
			}
			for st := range entries {
				c.objPathsFrom(g, st, h.T, nil, func(n *Node, s ostate, e env) (ostate, bool) {
					if rv, ok := isMethodCall(n, "SetHeartBeat"); ok {
						a, _ := g.arg(n, 1)
						w, ao := g.objOf(a, e)
						_, ro := g.objOf(rv, e)
						bound := s.f[ao+"|"+h.conn]
						kind := "shared"
						if _, fresh := w.v.(*ssa.Alloc); fresh {
							kind = "own"
						} else if !g.isField(w, S, hc) {
							kind = "other"
						}
						if bound != ro && bound != "" {
							if v, _ := g.objOf(rv, e); g.sym(v) != bound {
								kind = "unbound"
							}
						}
						s = s.put("!"+ro, kind)
					}
					if starts(g, n) {
						found = true
						cc := n.instr.(ssa.CallInstruction).Common()
						_, ro := g.objOf(VC{cc.Value, n.ctx}, e)
						switch k := s.f["!"+ro]; {
						case s.has(none) && !s.has(some):
							c.okN(n)
						case k == "" && s.has(some):
							rep(n, "nobeat", "a connection is started without a heartbeat checker although heartbeats are configured")
						case k == "":
							rep(n, "nobeat", "a connection is started without looking whether heartbeats are configured")
						case k == "shared" && own == "Server":
							rep(n, "shared", "the connections of a server share one heartbeat checker")
						case k == "unbound":
							rep(n, "unbound", "the checker of a connection is bound to another connection")
						default:
							c.okN(n)
						}
					}
					return s, true
				}, func(n *Node, s ostate, at []Atom) (ostate, bool) {
					for _, a := range at {
						if v, isnil, ok := a.nilness(); ok && g.isField(v, S, hc) {
							if isnil {
								s.marks = s.marks.set(none)
							} else {
								s.marks = s.marks.set(some)
							}
							s.marks.twice = 0
						}
					}
					return s, true
				}, nil)
			}
		})
		if !found {
			c.missing(own + ": start of a connection")
		}
	}
}

func (c *C) objPathsFrom(g *Graph, st *Node, T *types.Named, sum map[string]map[string]string,
	f func(n *Node, s ostate, e env) (ostate, bool), edge func(n *Node, s ostate, at []Atom) (ostate, bool),
	end func(n *Node, s ostate)) {
	save := g.entry
	g.entry = st
	c.objPaths(g, T, sum, f, edge, end)
	g.entry = save
}

func (h *beatT) tick(c *C) {
	f := c.needMethod("znet", "HeartbeatChecker", "Start")
	if f == nil {
		return
	}
	g := c.graph(f, nil)
	const (
		tTick = iota
		tAlive
		tDead
		tNoConn
		tCb
		tBeat
		tUser   // user's beat function known to be set
		tNoUser // known not to be
		tQuit
		tNoCb
	)
	var loopAt *Node
	var entry *Node
	isWait := func(n *Node) bool {
		sel, ok := n.instr.(*ssa.Select)
		if !ok || n.kind != KInstr {
			return false
		}
		for _, s := range sel.States {
			if g.isTimerChan(VC{s.Chan, n.ctx}) {
				return true
			}
		}
		return false
	}
	for _, n := range g.nodes {
		if isWait(n) {
			loopAt = n
			if s := spawnOf(n); s != nil {
				entry = s.entry
			} else {
				entry = g.entry
			}
		}
	}
	if loopAt == nil {
		c.undecided("the loop of the checker")
		return
	}
	if spawnOf(loopAt) == nil {
		c.failN("sync|Start", loopAt, "starting the checker does not return: it runs in the caller")
	}
	// the interval
	sel := loopAt.instr.(*ssa.Select)
	quits := false
	for _, s := range sel.States {
		v := VC{s.Chan, loopAt.ctx}
		if g.isTimerChan(v) {
			if !g.derives(v, func(x VC) bool { return g.isField(x, h.T, h.interval) }) {
				c.failN("interval|Start", loopAt, "the checker does not tick at its interval")
			} else {
				ok := true
				g.derives(v, func(x VC) bool {
					if call, isc := x.v.(*ssa.Call); isc && strings.HasPrefix(calleeName(call), "time.") && len(call.Call.Args) == 1 {
						if !g.isField(VC{call.Call.Args[0], x.c}, h.T, h.interval) {
							ok = false
						}
					}
					return false
				})
				if !ok {
					c.failN("interval|Start", loopAt, "the checker ticks at another interval than the one configured")
				}
			}
			if !recurring(g, loopAt) {
				c.failN("oneshot|Start", loopAt, "the checker ticks only once")
			}
		}
		if g.isField(v, h.T, h.quit) {
			quits = true
		}
		if g.isDone(v) {
			quits = true
		}
	}
	if !quits {
		c.failN("noquit|Start", loopAt, "the checker does not wait for the quit signal")
	}
	reported := map[string]bool{}
	rep := func(n *Node, k, why string) {
		if !reported[k] {
			reported[k] = true
			c.failN(k+"|check", n, why)
		}
	}
	judge := func(n *Node, m marks) bool {
		if !m.has(tTick) {
			return true
		}
		switch {
		case m.has(tNoConn):
			c.okN(n)
		case !m.has(tAlive) && !m.has(tDead):
			rep(n, "unasked", "a tick passes without looking whether the connection is alive")
			return false
		case m.has(tDead) && m.has(tBeat):
			rep(n, "deadbeat", "a heartbeat is sent to a connection that is not alive")
			return false
		case m.has(tDead) && !m.has(tCb):
			rep(n, "silent", "a connection that is not alive is not reported to the callback")
			return false
		case m.has(tAlive) && m.has(tCb):
			rep(n, "falsedead", "a live connection is reported as not alive")
			return false
		case m.has(tAlive) && !m.has(tBeat):
			rep(n, "nobeat", "a live connection is not sent a heartbeat")
			return false
		default:
			c.okN(n)
		}
		return true
	}
	isConn := func(v VC) bool { return g.isField(v, h.T, h.conn) }
	tr := &track{key: "check"}
	tr.ev = func(g *Graph, n *Node) []int { return nil }
	tr.step = func(g *Graph, n *Node, m marks) (marks, bool) {
		m.twice = 0
		if isWait(n) {
			if m.has(tQuit) {
				rep(n, "goes on", "the checker goes on after the quit signal")
				return m, false
			}
			if !judge(n, m) {
				return m, false
			}
			return marks{}, true
		}
		switch {
		case fieldCall(g, n, h.T, h.dead, ""):
			a, _ := g.arg(n, 0)
			if !isConn(a) {
				rep(n, "otherconn", "the not-alive callback is called with something else than the connection of the checker")
			}
			if m.has(tQuit) {
				rep(n, "after", "the checker reports its connection after the quit signal")
			}
			m = m.set(tCb)
		case fieldCall(g, n, h.T, h.beat, ""):
			a, _ := g.arg(n, 0)
			if !isConn(a) {
				rep(n, "otherconn2", "the heartbeat function is called with something else than the connection of the checker")
			}
			m = m.set(tBeat)
		default:
			if r, ok := isMethodCall(n, "Stop"); ok && isConn(r) && m.has(tNoCb) {
				m = m.set(tCb)
			}
			for _, nm := range []string{"SendMsg", "SendBuffMsg"} {
				r, ok := isMethodCall(n, nm)
				if !ok || !isConn(r) {
					continue
				}
				id, _ := g.arg(n, 1)
				d, _ := g.arg(n, 2)
				if !g.isField(id, h.T, h.msgID) {
					rep(n, "msgid", "the heartbeat is sent with another identifier than the configured one")
				}
				w, _ := g.resolve1(d, tr.e)
				call, ok := g.trace(w).v.(*ssa.Call)
				if !ok {
					c.undecided(n.posn(c.P))
				} else if !g.isField(VC{call.Call.Value, g.trace(w).c}, h.T, h.makeMsg) {
					rep(n, "msg", "the heartbeat message is not the one the configured function makes")
				} else if len(call.Call.Args) != 1 || !isConn(VC{call.Call.Args[0], g.trace(w).c}) {
					rep(n, "msgconn", "the heartbeat message is made for something else than the connection of the checker")
				}
				if m.has(tUser) {
					rep(n, "default", "the default heartbeat is sent although the user gave a heartbeat function")
				} else if !m.has(tNoUser) {
					rep(n, "default", "the default heartbeat is sent without looking whether the user gave a heartbeat function")
				}
				m = m.set(tBeat)
			}
		}
		m.twice = 0
		return m, true
	}
	tr.edge = func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
		if s, k, x, ok := selCase(g, at); ok && s == sel {
			ch := VC{s.States[k].Chan, x}
			switch {
			case g.isTimerChan(ch):
				m = m.set(tTick)
			case g.isField(ch, h.T, h.quit) || g.isDone(ch):
				m = m.set(tQuit)
			}
		}
		for _, a := range at {
			if v, isnil, ok := a.nilness(); ok {
				switch {
				case isConn(v):
					if isnil {
						m = m.set(tNoConn)
					}
				case g.isField(v, h.T, h.beat):
					if isnil {
						m = m.set(tNoUser)
					} else {
						m = m.set(tUser)
					}
				case g.isField(v, h.T, h.dead) && isnil:
					m = m.set(tNoCb)
				}
			}
			if a.Op == 0 {
				if call, ok := g.trace(a.X).v.(*ssa.Call); ok && call.Call.IsInvoke() && call.Call.Method.Name() == "IsAlive" && isConn(VC{call.Call.Value, g.trace(a.X).c}) {
					if a.Val {
						m = m.set(tAlive)
					} else {
						m = m.set(tDead)
					}
				}
			}
		}
		m.twice = 0
		return m, true
	}
	tr.end = func(g *Graph, n *Node, m marks) string {
		if normalEnd(n) && m.has(tTick) && !m.has(tQuit) && !m.has(tDead) && !m.has(tNoConn) {
			rep(loopAt, "ends", "the checker ends although its connection lives on")
		}
		return ""
	}
	c.track(g, entry, tr)
	// a message that could not be sent does not break the rest: SendHeartBeatMsg reports it
}

func (h *beatT) stop(c *C) {
	f := c.needMethod("znet", "HeartbeatChecker", "Stop")
	if f == nil {
		return
	}
	g := c.graph(f, nil)
	needRoom := false
	isQ := func(v VC) bool { return g.isField(v, h.T, h.quit) }
	tr := &track{key: "stop"}
	var where *Node
	tr.ev = func(g *Graph, n *Node) []int {
		if n.kind != KInstr && n.kind != KDeferCall {
			return nil
		}
		switch x := n.instr.(type) {
		case *ssa.Send:
			if isQ(VC{x.Chan, n.ctx}) {
				return []int{0}
			}
		case *ssa.Select:
			for _, s := range x.States {
				if s.Dir == types.SendOnly && isQ(VC{s.Chan, n.ctx}) {
					if !x.Blocking {
						needRoom = true
						where = n
					}
					return []int{0}
				}
			}
		case ssa.CallInstruction:
			if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" && isQ(VC{x.Common().Args[0], n.ctx}) {
				return []int{0}
			}
			if x.Common().IsInvoke() == false && x.Common().StaticCallee() == nil {
				if t := x.Common().Value.Type().String(); t == "context.CancelFunc" {
					return []int{0}
				}
			}
		}
		return nil
	}
	tr.end = func(g *Graph, n *Node, m marks) string {
		if normalEnd(n) && !m.has(0) && !m.has(1) {
			return "stopping the checker gives no quit signal: it goes on with a connection that ended"
		}
		return ""
	}
	tr.edge = func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
		for _, a := range at {
			if v, isnil, ok := a.nilness(); ok && isnil && (g.isField(v, h.T, h.conn) || isQ(v)) {
				m = m.set(1)
			}
		}
		return m, true
	}
	c.track(g, g.entry, tr)
	if !needRoom {
		return
	}
	// a signal that is not waited for needs room in the channel
	for _, fn := range c.P.Roots("znet") {
		gg := c.graph(fn, nil)
		for _, n := range gg.nodes {
			st, ok := n.instr.(*ssa.Store)
			if !ok || n.kind != KInstr || !gg.isField(VC{st.Addr, n.ctx}, h.T, h.quit) {
				continue
			}
			mk, ok := gg.trace(VC{st.Val, n.ctx}).v.(*ssa.MakeChan)
			if !ok {
				continue
			}
			if k, ok := constInt(mk.Size); ok && k < 1 {
				c.failN("room|"+fnName(n.fn()), n, "the quit signal is given without waiting into a channel without room: it is lost while the checker is busy")
				_ = where
				return
			}
			c.okN(n)
		}
	}
}

// freshness of the last activity as decided by a comparison: 1 recent, -1 too
// long ago, 0 not about it.
func (h *beatT) recency(c *C, g *Graph, t *connT, a Atom) int {
	last := func(v VC) bool {
		return g.derives(v, func(x VC) bool {
			T, f, _, ok := g.fieldOf(x)
			return ok && T.Obj() == t.T.Obj() && strings.Contains(strings.ToLower(f), "activity")
		})
	}
	max := func(v VC) bool {
		return g.derives(v, func(x VC) bool {
			_, f, _, ok := g.fieldOf(x)
			return ok && f == "HeartbeatMax"
		})
	}
	now := func(v VC) bool {
		return g.derives(v, func(x VC) bool {
			call, ok := x.v.(*ssa.Call)
			return ok && (calleeName(call) == "time.Now" || calleeName(call) == "time.Since" || calleeName(call) == "time.Until")
		})
	}
	if a.Op != 0 {
		lx, ly, mx, my := last(a.X), last(a.Y), max(a.X), max(a.Y)
		switch {
		case lx && my && !mx && now(a.X):
			if neg := untilLike(g, a.X); neg {
				return 0
			}
			switch a.Op {
			case token.LSS, token.LEQ:
				return 1
			case token.GTR, token.GEQ:
				return -1
			}
		case ly && mx && !my && now(a.Y):
			if neg := untilLike(g, a.Y); neg {
				return 0
			}
			switch a.Op {
			case token.GTR, token.GEQ:
				return 1
			case token.LSS, token.LEQ:
				return -1
			}
		}
		return 0
	}
	call, ok := g.trace(a.X).v.(*ssa.Call)
	if !ok || len(call.Call.Args) != 2 {
		return 0
	}
	x, y := VC{call.Call.Args[0], g.trace(a.X).c}, VC{call.Call.Args[1], g.trace(a.X).c}
	r := 0
	switch calleeName(call) {
	case "(time.Time).After":
		r = 1
	case "(time.Time).Before":
		r = -1
	default:
		return 0
	}
	switch {
	case last(x) && max(x) && now(y) && !now(x): // last+max after now
	case last(y) && max(y) && now(x) && !now(y):
		r = -r
	default:
		return 0
	}
	if !a.Val {
		r = -r
	}
	return r
}

// untilLike: the duration is counted backwards (last minus now).
func untilLike(g *Graph, v VC) bool {
	back := false
	g.derives(v, func(x VC) bool {
		call, ok := x.v.(*ssa.Call)
		if !ok {
			return false
		}
		switch calleeName(call) {
		case "time.Until":
			back = true
		case "(time.Time).Sub":
			isNow := func(y VC) bool {
				k, ok := g.trace(y).v.(*ssa.Call)
				return ok && calleeName(k) == "time.Now"
			}
			if !isNow(VC{call.Call.Args[0], x.c}) && isNow(VC{call.Call.Args[1], x.c}) {
				back = true
			}
		}
		return false
	})
	return back
}

func (h *beatT) alive(c *C, t *connT) {
	f := t.method(c, "IsAlive")
	if f == nil {
		return
	}
	g := c.graph(f, nil)
	const (
		aClosed = iota
		aOpen
		aRecent
		aOld
	)
	reported := map[string]bool{}
	rep := func(n *Node, k, why string) {
		if !reported[k] {
			reported[k] = true
			c.failN(k+"|"+t.name, n, why)
		}
	}
	learn := func(at []Atom, m marks) marks {
		if set, _, ok := t.flagTest(g, at); ok {
			if set {
				m = m.set(aClosed)
			} else {
				m = m.set(aOpen)
			}
		} else if cl, ok := closedTest(g, at); ok {
			if cl {
				m = m.set(aClosed)
			} else {
				m = m.set(aOpen)
			}
		}
		for _, a := range at {
			switch h.recency(c, g, t, a) {
			case 1:
				m = m.set(aRecent)
			case -1:
				m = m.set(aOld)
			}
		}
		m.twice = 0
		return m
	}
	tr := &track{key: t.name}
	tr.ev = func(g *Graph, n *Node) []int { return nil }
	tr.step = func(g *Graph, n *Node, m marks) (marks, bool) {
		ret, ok := n.instr.(*ssa.Return)
		if !ok || n.kind != KInstr || n.ctx != g.root {
			return m, true
		}
		v := VC{ret.Results[0], n.ctx}
		for _, val := range []bool{true, false} {
			k, known := g.eval(v, tr.e)
			if known && k.k == 'c' && (k.s == "true") != val {
				continue
			}
			mm := m
			if !known {
				mm = learn(g.atoms(v, val, tr.e, 0), m)
				if mm == m {
					c.undecided(n.posn(c.P))
					return m, true
				}
			}
			switch {
			case val && mm.has(aClosed):
				rep(n, "closed", "a closed connection counts as alive")
			case val && mm.has(aOld):
				rep(n, "old", "a connection that has been silent for too long counts as alive")
			case val && !mm.has(aRecent):
				rep(n, "unasked", "a connection counts as alive whenever its last activity was")
			case val && !mm.has(aOpen):
				rep(n, "anyclosed", "a connection counts as alive without looking whether it is closed")
			case !val && mm.has(aRecent) && mm.has(aOpen) && !mm.has(aClosed):
				rep(n, "live", "a connection that was active recently counts as dead")
			case !val && !mm.has(aOld) && !mm.has(aClosed):
				rep(n, "dead", "a connection counts as dead whatever its state")
			default:
				c.okN(n)
			}
		}
		return m, true
	}
	tr.edge = func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) { return learn(at, m), true }
	c.track(g, g.entry, tr)
	// the unit of the maximum
	for _, n := range g.nodes {
		b, ok := n.instr.(*ssa.BinOp)
		if !ok || n.kind != KInstr || (b.Op != token.MUL && b.Op != token.QUO) {
			continue
		}
		isMax := func(v VC) bool {
			for i := 0; i < 3; i++ {
				w := g.trace(v)
				if cv, ok := w.v.(*ssa.Convert); ok {
					v = VC{cv.X, w.c}
					continue
				}
				_, f, _, ok := g.fieldOf(w)
				return ok && f == "HeartbeatMax"
			}
			return false
		}
		for i, x := range []ssa.Value{b.X, b.Y} {
			if isMax(VC{x, n.ctx}) {
				o := b.Y
				if i == 1 {
					o = b.X
				}
				if k, ok := constInt(o); ok {
					if b.Op != token.MUL || k != 1000000000 {
						rep(n, "unit", "the configured maximum silence is not taken as seconds")
					} else {
						c.okN(n)
					}
				}
			}
		}
	}
}

// marksActivity: the node stores the current time as the last activity.
func (h *beatT) marksActivity(g *Graph, t *connT, n *Node) (stores, isNow bool) {
	act := func(v VC) bool {
		T, f, _, ok := g.fieldOf(v)
		return ok && T.Obj() == t.T.Obj() && strings.Contains(strings.ToLower(f), "activity")
	}
	now := func(v VC) bool {
		return g.derives(v, func(x VC) bool {
			call, ok := x.v.(*ssa.Call)
			return ok && calleeName(call) == "time.Now"
		}) && !g.derives(v, func(x VC) bool {
			call, ok := x.v.(*ssa.Call)
			return ok && strings.HasPrefix(calleeName(call), "(time.Time).Add")
		})
	}
	if n.kind != KInstr && n.kind != KDeferCall {
		return false, false
	}
	if st, ok := n.instr.(*ssa.Store); ok && act(VC{st.Addr, n.ctx}) {
		return true, now(VC{st.Val, n.ctx})
	}
	if ci, ok := n.instr.(ssa.CallInstruction); ok {
		cc := ci.Common()
		sc := cc.StaticCallee()
		if sc != nil && (sc.Name() == "Store" || sc.Name() == "Swap" || strings.HasPrefix(sc.Name(), "Store")) && len(cc.Args) == 2 && act(VC{cc.Args[0], n.ctx}) {
			return true, now(VC{cc.Args[1], n.ctx})
		}
	}
	return false, false
}

func (h *beatT) activity(c *C, t *connT) {
	reported := map[string]bool{}
	rep := func(n *Node, k, why string) {
		if !reported[k] {
			reported[k] = true
			c.failN(k+"|"+t.name, n, why)
		}
	}
	const (
		rRead = iota
		rAct
		rErr
		rNone
		rNoBeat
		rBeat
		rStarted
		rStopped
	)
	// reading
	reads := func(g *Graph, n *Node) bool { op, _ := t.io(g, n); return op == "read" }
	done := map[token.Pos]bool{}
	c.rootsReaching([]string{"znet"}, nil, reads, func(g *Graph, hits []*Node) {
		entries := map[*Node]bool{}
		for _, x := range hits {
			if done[x.instr.Pos()] {
				continue
			}
			done[x.instr.Pos()] = true
			if s := spawnOf(x); s != nil {
				entries[s.entry] = true
			} else {
				entries[g.entry] = true
			}
		}
		readErr := func(v VC) bool {
			w := g.trace(v)
			ex, ok := w.v.(*ssa.Extract)
			if !ok || !isError(ex.Type()) {
				return false
			}
			call, ok := ex.Tuple.(*ssa.Call)
			if !ok {
				return false
			}
			for _, n := range hits {
				if n.instr == ssa.Instruction(call) {
					return true
				}
			}
			return false
		}
		for st := range entries {
			tr := &track{key: t.name}
			tr.ev = func(g *Graph, n *Node) []int { return nil }
			tr.step = func(g *Graph, n *Node, m marks) (marks, bool) {
				m.twice = 0
				if reads(g, n) {
					if m.has(rRead) && !m.has(rAct) && !m.has(rErr) && !m.has(rNone) && !m.has(rNoBeat) {
						rep(n, "unmarked", "data was received and the connection goes on without marking it alive")
						return m, false
					}
					c.okN(n)
					m = m.clear(rAct).clear(rErr).clear(rNone)
					return m.set(rRead), true
				}
				if st, now := h.marksActivity(g, t, n); st {
					if !now {
						rep(n, "nottime", "what is stored as the last activity is not the current time")
					}
					if !m.has(rRead) {
						return m, true
					}
					m = m.set(rAct)
				}
				m.twice = 0
				return m, true
			}
			tr.edge = func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
				if isnil, ok := t.nilField(g, at, t.hc); ok && isnil {
					m = m.set(rNoBeat)
				}
				for _, a := range at {
					if v, isnil, ok := a.nilness(); ok && !isnil && readErr(v) {
						m = m.set(rErr)
					}
					// n <= 0
					if (a.Op == token.LEQ || a.Op == token.EQL) && a.SY == "#0" || a.Op == token.LSS && a.SY == "#1" {
						x := g.trace(a.X)
						if ex, ok := x.v.(*ssa.Extract); ok {
							if call, ok := ex.Tuple.(*ssa.Call); ok {
								for _, hn := range hits {
									if hn.instr == ssa.Instruction(call) {
										m = m.set(rNone)
									}
								}
							}
						}
						if call, ok := x.v.(*ssa.Call); ok {
							if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
								m = m.set(rNone)
							}
						}
					}
				}
				m.twice = 0
				return m, true
			}
			c.track(g, st, tr)
		}
	})
	// start and end
	f := t.method(c, "Start")
	if f == nil {
		return
	}
	g := c.graph(f, nil)
	tr := &track{key: t.name}
	tr.ev = func(g *Graph, n *Node) []int { return nil }
	tr.step = func(g *Graph, n *Node, m marks) (marks, bool) {
		m.twice = 0
		if spawnOf(n) != nil {
			return m, true
		}
		if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr && g.isField(VC{st.Addr, n.ctx}, t.T, t.hc) && !m.has(rStopped) {
			rep(n, "dropped", "a connection loses its heartbeat checker before it was stopped")
			return m, true
		}
		switch {
		case fieldCall(g, n, t.T, t.hc, "Start"):
			if m.has(rStarted) {
				rep(n, "twice", "the heartbeat checker is started twice")
				return m, false
			}
			m = m.set(rStarted)
		case fieldCall(g, n, t.T, t.hc, "Stop"):
			m = m.set(rStopped)
		default:
			if st, now := h.marksActivity(g, t, n); st && now {
				m = m.set(rAct)
			}
			wait := false
			switch x := n.instr.(type) {
			case *ssa.UnOp:
				wait = x.Op == token.ARROW && g.isDone(VC{x.X, n.ctx})
			case *ssa.Select:
				for _, s := range x.States {
					wait = wait || g.isDone(VC{s.Chan, n.ctx})
				}
			}
			if wait && n.kind == KInstr {
				switch {
				case m.has(rNoBeat):
					c.okN(n)
				case !m.has(rStarted):
					rep(n, "nostart", "a connection with a heartbeat checker does not start it")
				case !m.has(rAct):
					rep(n, "noact", "the checker is started without marking the connection alive: the first tick takes it for dead")
				default:
					c.okN(n)
				}
				m = m.clear(rNoBeat)
			}
		}
		return m, true
	}
	tr.edge = func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
		if isnil, ok := t.nilField(g, at, t.hc); ok {
			if isnil {
				m = m.set(rNoBeat)
			} else {
				m = m.set(rBeat)
			}
		}
		if set, _, ok := t.flagTest(g, at); ok && set {
			m = m.set(rNoBeat) // ended before
		} else if cl, ok := closedTest(g, at); !ok {
		} else if cl {
			m = m.set(rNoBeat)
		}
		m.twice = 0
		return m, true
	}
	tr.end = func(g *Graph, n *Node, m marks) string {
		if normalEnd(n) && m.has(rStarted) && !m.has(rStopped) && !m.has(rNoBeat) {
			return "a connection ends and leaves its heartbeat checker running"
		}
		return ""
	}
	c.track(g, g.entry, tr)
}

func (h *beatT) settings(c *C) {
	// setters
	type set struct {
		m      string
		fields map[string]int
	}
	for _, x := range []set{
		{"SetOnRemoteNotAlive", map[string]int{h.dead: 1}},
		{"SetHeartbeatMsgFunc", map[string]int{h.makeMsg: 1}},
		{"SetHeartbeatFunc", map[string]int{h.beat: 1}},
		{"BindRouter", map[string]int{h.msgID: 1, h.router: 2}},
		{"BindRouterSlices", map[string]int{h.msgID: 1, h.slices: 2}},
	} {
		f := c.needMethod("znet", "HeartbeatChecker", x.m)
		if f == nil {
			continue
		}
		g := c.graph(f, nil)
		def, _ := pkgConst(c, "ziface", "HeartBeatDefaultMsgID")
		reported := false
		c.objPaths(g, h.T, nil, func(n *Node, s ostate, e env) (ostate, bool) { return s, true }, func(n *Node, s ostate, at []Atom) (ostate, bool) {
			for _, a := range at {
				if v, isnil, ok := a.nilness(); ok && isnil {
					if _, isp := g.trace(v).v.(*ssa.Parameter); isp {
						s.marks = s.marks.set(0)
					}
				}
				if lenZero(g, a) || (a.Op == token.LEQ && a.SY == "#0") {
					s.marks = s.marks.set(0)
				}
				if a.Op == token.EQL && a.SY == "#"+itoa(def) {
					s.marks = s.marks.set(0)
				}
				s.marks.twice = 0
			}
			return s, true
		}, func(n *Node, s ostate) {
			if !normalEnd(n) || reported {
				return
			}
			for fn, i := range x.fields {
				v, ok := s.f[g.psym(0)+"|"+fn]
				switch {
				case s.has(0):
					if ok {
						reported = true
						c.failF("unset|"+x.m, f, "nothing usable was given, and "+fn+" is changed all the same")
					}
				case !ok:
					reported = true
					c.failF("unset|"+x.m, f, "what is given is not stored in "+fn)
				case fn == h.slices:
					c.okN(n)
				case v != g.psym(i):
					reported = true
					c.failF("other|"+x.m, f, "something else than what is given is stored in "+fn+": "+v)
				default:
					c.okN(n)
				}
			}
		})
	}
	// a constructed checker
	for _, own := range []string{"Server", "Client"} {
		S := c.needType("znet", own)
		if S == nil {
			continue
		}
		hc := c.needField(S, "hc", "ziface.IHeartbeatChecker")
		for _, m := range []string{"StartHeartBeat", "StartHeartBeatWithOption"} {
			f := c.needMethod("znet", own, m)
			if f == nil {
				continue
			}
			h.install(c, S, hc, own, f)
		}
	}
}

func itoa(k int64) string {
	if k == 0 {
		return "0"
	}
	s := ""
	neg := k < 0
	if neg {
		k = -k
	}
	for ; k > 0; k /= 10 {
		s = string(rune('0'+k%10)) + s
	}
	if neg {
		s = "-" + s
	}
	return s
}

func (h *beatT) install(c *C, S *types.Named, hc, own string, f *ssa.Function) {
	g := c.graph(f, nil)
	key := own + "." + f.Name()
	reported := map[string]bool{}
	rep := func(k, why string) {
		if !reported[k] {
			reported[k] = true
			c.failF(k+"|"+key, f, why)
		}
	}
	opt := len(f.Params) > 2
	const (
		oNil = iota
		oMake
		oDead
		oRouter
		oID
		oSlices
	)
	mode := own == "Server"
	c.objPaths(g, h.T, nil, func(n *Node, s ostate, e env) (ostate, bool) {
		if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr && g.isField(VC{st.Addr, n.ctx}, S, hc) {
			_, o := g.objOf(VC{st.Val, n.ctx}, e)
			s = s.put("!hc", o)
		}
		for _, nm := range []string{"AddRouter", "AddRouterSlices"} {
			if _, ok := isMethodCall(n, nm); !ok {
				continue
			}
			a1, _ := g.arg(n, 1)
			a2, _ := g.arg(n, 2)
			want := h.router
			if nm == "AddRouterSlices" {
				want = h.slices
			}
			if g.isField(a1, h.T, h.msgID) && g.isField(a2, h.T, want) {
				_, _, b, _ := g.fieldOf(a1)
				_, o := g.objOf(b, e)
				s = s.put("!route", o+"/"+nm)
			} else {
				rep("route", "the heartbeat message is routed with another identifier or handler than the checker's")
			}
		}
		return s, true
	}, func(n *Node, s ostate, at []Atom) (ostate, bool) {
		for _, a := range at {
			if v, isnil, ok := a.nilness(); ok && isnil {
				if opt && g.sym(v) == g.psym(2) {
					s.marks = s.marks.set(oNil)
				}
				if _, fn, b, ok := g.fieldOf(v); ok && opt && g.sym(b) == g.psym(2) {
					switch fn {
					case "MakeMsg":
						s.marks = s.marks.set(oMake)
					case "OnRemoteNotAlive":
						s.marks = s.marks.set(oDead)
					case "Router":
						s.marks = s.marks.set(oRouter)
					}
				}
			}
			if lenZero(g, a) || (a.Op == token.LEQ && a.SY == "#0") {
				s.marks = s.marks.set(oSlices)
			}
			if a.Op == token.EQL && strings.HasPrefix(a.SY, "#") && strings.Contains(a.SX, "HeartBeatMsgID") {
				s.marks = s.marks.set(oID)
			}
			// the routing mode
			if a.Op == 0 {
				if T, fn, _, ok := g.fieldOf(a.X); ok && T.Obj() == S.Obj() && fn == "RouterSlicesMode" {
					v := "b"
					if a.Val {
						v = "s"
					}
					if s.f["!mode"] != "" && s.f["!mode"] != v {
						return s, false
					}
					s = s.put("!mode", v)
				}
			}
			s.marks.twice = 0
		}
		return s, true
	}, func(n *Node, s ostate) {
		if !normalEnd(n) {
			return
		}
		o := s.f["!hc"]
		if o == "" {
			rep("nohc", "the heartbeat is configured and no checker is installed")
			return
		}
		if v, ok := s.f[o+"|"+h.interval]; !ok {
			c.undecided(key)
			return
		} else if v != g.psym(1) {
			rep("interval", "the checker installed does not have the interval given: "+v)
		}
		r := strings.Split(s.f["!route"], "/")
		switch {
		case s.f["!route"] == "":
			rep("noroute", "the heartbeat message of the checker is not routed to its handler")
		case r[0] != o:
			rep("noroute", "the heartbeat message of another checker is routed")
		case mode && s.f["!mode"] == "s" && r[1] != "AddRouterSlices", mode && s.f["!mode"] == "b" && r[1] != "AddRouter":
			rep("mode", "the heartbeat handler is registered in the routing mode that is not in use")
		default:
			c.ok(key)
		}
		if !opt || s.has(oNil) {
			return
		}
		P := g.psym(2) + "."
		chk := func(field, option string, excused bool) {
			v := s.f[o+"|"+field]
			switch {
			case excused:
			case v == P+option:
				c.ok(key + " " + option)
			default:
				rep(option, "the option "+option+" does not reach the checker")
			}
		}
		chk(h.makeMsg, "MakeMsg", s.has(oMake))
		chk(h.dead, "OnRemoteNotAlive", s.has(oDead))
		if s.f["!mode"] != "s" {
			chk(h.router, "Router", s.has(oRouter) || s.has(oID))
			chk(h.msgID, "HeartBeatMsgID", s.has(oRouter) || s.has(oID))
		} else {
			chk(h.msgID, "HeartBeatMsgID", s.has(oSlices) || s.has(oID))
		}
	})
}

package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", func(c *C) {
		ts := connKinds(c)
		S := c.needType("znet", "Server")
		if S == nil {
			return
		}
		a := &admitT{S: S, ts: ts}
		a.auth = c.needField(S, "websocketAuth", "")
		a.cid = c.needField(S, "cID", "uint64")
		a.hits = map[string]int{}

		c.Rule("limit", "On every path to accepting or upgrading a connection, since the previous one, the number of registered connections was seen to be below the configured maximum, and the previously accepted connection was registered")
		c.Rule("auth", "On every path to a websocket upgrade the authentication callback either is not set or accepted the very request that is upgraded")
		c.Rule("ids", "The identifier given to an accepted connection is the result of an atomic increment of the server's counter, unaltered or offset by a constant, and the counter is changed nowhere else; the textual identifier is its decimal form; neither changes later")
		c.Rule("registered", "An accepted connection is built on the transport just accepted, and is in the connection manager before it is started")
		a.admissions(c)
		c.Rule("limit", "")
		c.atLeast(3, "admissions")
		c.Rule("registered", "")
		c.atLeast(3, "registrations")
		c.Rule("ids", "")
		a.counter(c)
		c.Rule("manager", "The manager files a connection under its own textual identifier, removes it under the same, and finds for an identifier the connection filed under it or reports an error")
		a.manager(c)
		c.atLeast(4, "manager operations")
	})
}

type admitT struct {
	S         *types.Named
	ts        []*connT
	auth, cid string
	hits      map[string]int
}

// admission: the node takes a new connection from a transport.
func admission(g *Graph, n *Node) string {
	if !isCallNode(n) || len(n.callees) > 0 {
		return ""
	}
	cc := n.instr.(ssa.CallInstruction).Common()
	nm := ""
	if cc.IsInvoke() {
		nm = cc.Method.Name()
	} else if sc := cc.StaticCallee(); sc != nil && sc.Signature.Recv() != nil {
		nm = sc.Name()
	}
	res := cc.Signature().Results()
	if res.Len() != 2 || !isError(res.At(1).Type()) {
		return ""
	}
	switch nm {
	case "Accept", "AcceptKCP", "AcceptTCP":
		return "accept"
	case "Upgrade":
		return "upgrade"
	}
	return ""
}

func (a *admitT) entries(c *C, f func(g *Graph, entry *Node)) {
	done := map[token.Pos]bool{}
	c.rootsReaching([]string{"znet"}, nil, func(g *Graph, n *Node) bool { return admission(g, n) != "" }, func(g *Graph, hits []*Node) {
		ent := map[*Node]bool{}
		for _, h := range hits {
			if done[h.instr.Pos()] {
				continue
			}
			done[h.instr.Pos()] = true
			if s := spawnOf(h); s != nil {
				ent[s.entry] = true
			} else {
				ent[g.entry] = true
			}
		}
		for e := range ent {
			f(g, e)
		}
	})
}

func (a *admitT) admissions(c *C) {
	const (
		room = iota
		pend // accepted, not registered
		authOK
		authNil
		authAsked
	)
	a.entries(c, func(g *Graph, entry *Node) {
		key := fnName(entry.fn())
		reported := map[string]bool{}
		rep := func(rule string, n *Node, k, why string) {
			if !reported[k+n.posn(c.P)] {
				reported[k+n.posn(c.P)] = true
				c.Rule(rule, "")
				c.failN(k+"|"+key, n, why)
			}
		}
		reg := func(n *Node) bool {
			r, ok := isMethodCall(n, "Add")
			return ok && hasMethods(r.v.Type(), "ClearConn", "Remove")
		}
		var authReq VC
		tr := &track{key: key}
		tr.ev = func(g *Graph, n *Node) []int { return nil }
		tr.step = func(g *Graph, n *Node, m marks) (marks, bool) {
			m.twice = 0
			if ad := admission(g, n); ad != "" {
				c.Rule("limit", "")
				if !m.has(room) {
					rep("limit", n, "limit", "a connection is accepted without having seen that there are fewer than the configured maximum")
				} else if m.has(pend) {
					rep("limit", n, "pending", "a connection is accepted before the previous one was registered: the limit can be exceeded")
					return m, false
				} else {
					c.okN(n)
				}
				if ad == "upgrade" {
					c.Rule("auth", "")
					switch {
					case m.has(authNil), m.has(authOK):
						if m.has(authOK) && authReq.v != nil {
							q, _ := g.arg(n, 2)
							if g.sym(q) != g.sym(authReq) {
								rep("auth", n, "request", "another request is upgraded than the one that was authenticated")
							}
						}
						c.okN(n)
					case m.has(authAsked):
						rep("auth", n, "refused", "a request is upgraded whatever the authentication callback said")
					default:
						rep("auth", n, "auth", "a request is upgraded without asking the authentication callback")
					}
				}
				m = m.clear(room).clear(pend).clear(authOK).clear(authNil).clear(authAsked)
				if ad == "accept" {
					m.x = "a"
				}
				return m, true
			}
			if reg(n) {
				m = m.clear(pend)
			}
			if r, ok := isMethodCall(n, "Close"); ok && len(n.callees) == 0 && fromAdmission(g, r) {
				m = m.clear(pend)
			}
			if fieldCall(g, n, a.S, a.auth, "") {
				authReq, _ = g.arg(n, 0)
				m = m.set(authAsked)
			}
			m.twice = 0
			return m, true
		}
		tr.edge = func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
			for _, x := range at {
				if v, isnil, ok := x.nilness(); ok {
					w := g.trace(v)
					if g.isField(w, a.S, a.auth) && isnil {
						m = m.set(authNil)
					}
					if call, ok := w.v.(*ssa.Call); ok && isnil && g.isField(VC{call.Call.Value, w.c}, a.S, a.auth) {
						m = m.set(authOK)
					}
					if ex, ok := w.v.(*ssa.Extract); ok && ex.Index == 1 {
						if call, ok := ex.Tuple.(*ssa.Call); ok && isnil && m.x == "a" && isAdmissionCall(call) {
							m = m.set(pend)
							m.x = ""
						}
					}
				}
				if a.roomTest(g, x) {
					m = m.set(room)
				}
			}
			m.twice = 0
			return m, true
		}
		c.track(g, entry, tr)
		for _, t := range a.ts {
			a.build(c, g, entry, t)
		}
	})
}

func isAdmissionCall(call *ssa.Call) bool {
	nm := ""
	if call.Call.IsInvoke() {
		nm = call.Call.Method.Name()
	} else if sc := call.Call.StaticCallee(); sc != nil {
		nm = sc.Name()
	}
	return nm == "Accept" || nm == "AcceptKCP" || nm == "AcceptTCP" || nm == "Upgrade"
}

func fromAdmission(g *Graph, v VC) bool {
	for i := 0; i < 6; i++ {
		w := g.trace(v)
		switch x := w.v.(type) {
		case *ssa.Extract:
			call, ok := x.Tuple.(*ssa.Call)
			return ok && x.Index == 0 && isAdmissionCall(call)
		case *ssa.MakeInterface:
			v = VC{x.X, w.c}
			continue
		}
		return false
	}
	return false
}

func hasMethods(t types.Type, names ...string) bool {
	for _, nm := range names {
		ok := false
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == nm {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// roomTest: the branch established that the number of connections is below the
// maximum.
func (a *admitT) roomTest(g *Graph, x Atom) bool {
	isMax := func(v VC) bool {
		for i := 0; i < 3; i++ {
			w := g.trace(v)
			if cv, ok := w.v.(*ssa.Convert); ok {
				v = VC{cv.X, w.c}
				continue
			}
			_, f, _, ok := g.fieldOf(w)
			return ok && f == "MaxConn"
		}
		return false
	}
	isLen := func(v VC) bool {
		w := g.trace(v)
		// the count itself, not something computed from it
		if b, ok := w.v.(*ssa.BinOp); ok {
			if _, isc := b.Y.(*ssa.Const); isc && (b.Op == token.SUB || b.Op == token.QUO || b.Op == token.SHR) {
				return false
			}
		}
		return g.derives(v, func(y VC) bool {
			T, f, _, ok := g.fieldOf(y)
			if ok && (T.Obj() == a.S.Obj() && strings.Contains(f, "ConnMgr") || T.Obj().Name() == "ConnManager") {
				return true
			}
			return false
		})
	}
	switch x.Op {
	case token.LSS:
		return isMax(x.Y) && isLen(x.X)
	case token.GTR:
		return isMax(x.X) && isLen(x.Y)
	}
	return false
}

// idOf classifies the identifier of a connection: "" fine, otherwise why not.
func (a *admitT) idOf(g *Graph, v VC) (why string, known bool) {
	for i := 0; i < 10; i++ {
		w := g.trace(v)
		switch x := w.v.(type) {
		case *ssa.Convert:
			if fixedWidth(x.Type()) < fixedWidth(x.X.Type()) {
				return "the identifier is cut down to " + x.Type().String() + ": identifiers repeat", true
			}
			v = VC{x.X, w.c}
			continue
		case *ssa.BinOp:
			_, cy := x.Y.(*ssa.Const)
			_, cx := x.X.(*ssa.Const)
			switch {
			case (x.Op == token.ADD || x.Op == token.SUB || x.Op == token.XOR) && cy:
				v = VC{x.X, w.c}
				continue
			case x.Op == token.ADD && cx:
				v = VC{x.Y, w.c}
				continue
			case (x.Op == token.AND || x.Op == token.REM || x.Op == token.SHR || x.Op == token.QUO) && cy:
				return "the identifier is computed so that identifiers repeat", true
			}
			return "", false
		case *ssa.Call:
			nm := calleeName(x)
			on := len(x.Call.Args) > 0 && g.isField(VC{x.Call.Args[0], w.c}, a.S, a.cid)
			switch {
			case on && (strings.HasPrefix(nm, "sync/atomic.Add") || strings.HasSuffix(nm, ").Add")):
				if k, ok := constInt(x.Call.Args[1]); ok && k != 0 {
					return "", true
				}
				return "the counter is not advanced by a constant", true
			case on && strings.Contains(nm, "Load"):
				return "the identifier is read from the counter apart from advancing it: two connections accepted at once get the same", true
			}
			return "", false
		case *ssa.UnOp:
			if x.Op == token.MUL && g.isField(w, a.S, a.cid) {
				return "the identifier is read from the counter without atomicity: two connections accepted at once get the same", true
			}
			return "", false
		case *ssa.Const:
			return "the identifier is a constant", true
		}
		if g.isField(w, a.S, a.cid) {
			return "the identifier is read from the counter without atomicity: two connections accepted at once get the same", true
		}
		return "", false
	}
	return "", false
}

func (a *admitT) build(c *C, g *Graph, entry *Node, t *connT) {
	var idF, strF string
	for _, f := range fieldNames(t.T) {
		switch {
		case strings.EqualFold(f, "connid"):
			idF = f
		case strings.EqualFold(f, "connidstr"):
			strF = f
		}
	}
	if idF == "" || strF == "" {
		c.missing(t.name + ": identifier fields")
		return
	}
	makes := false
	for _, n := range g.nodes {
		if al, ok := n.instr.(*ssa.Alloc); ok && n.kind == KInstr && spawnEntry(g, n) == entry {
			if p, ok := al.Type().Underlying().(*types.Pointer); ok {
				if nm, ok := p.Elem().(*types.Named); ok && nm.Obj() == t.T.Obj() {
					makes = true
				}
			}
		}
	}
	if !makes {
		return
	}
	key := t.name + "|" + fnName(entry.fn())
	reported := map[string]bool{}
	rep := func(rule string, n *Node, k, why string) {
		if !reported[k] {
			reported[k] = true
			c.Rule(rule, "")
			c.failN(k+"|"+key, n, why)
		}
	}
	starts := func(n *Node) bool {
		if n.kind != KInstr {
			return false
		}
		is := func(m *Node) bool {
			ci, ok := m.instr.(ssa.CallInstruction)
			if !ok || m.kind == KAfter {
				return false
			}
			cc := ci.Common()
			if cc.IsInvoke() {
				return cc.Method.Name() == "Start" && isIfaceNamed(cc.Value.Type(), "IConnection")
			}
			sc := cc.StaticCallee()
			return sc != nil && sc.Name() == "Start" && sc.Signature.Recv() != nil && typeIs(sc.Signature.Recv().Type(), t.name)
		}
		if is(n) {
			return true
		}
		if _, ok := n.instr.(*ssa.Go); ok {
			for _, k := range n.spawn {
				if g.subtree(k, is) {
					return true
				}
			}
		}
		return false
	}
	c.objPathsFrom(g, entry, t.T, nil, func(n *Node, s ostate, e env) (ostate, bool) {
		if al, ok := n.instr.(*ssa.Alloc); ok && n.kind == KInstr {
			if p, ok := al.Type().Underlying().(*types.Pointer); ok {
				if nm, ok := p.Elem().(*types.Named); ok && nm.Obj() == t.T.Obj() {
					_, o := g.objOf(VC{al, n.ctx}, e)
					s = s.put("!o", o)
					s = s.put("!added", "")
				}
			}
		}
		if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr {
			switch {
			case g.isField(VC{st.Addr, n.ctx}, t.T, idF):
				c.Rule("ids", "")
				if why, known := a.idOf(g, VC{st.Val, n.ctx}); !known {
					c.undecided(n.posn(c.P))
				} else if why != "" {
					rep("ids", n, "id", why)
				} else {
					c.okN(n)
				}
			case g.isField(VC{st.Addr, n.ctx}, t.T, t.conn):
				c.Rule("registered", "")
				w, _ := g.resolve1(VC{st.Val, n.ctx}, e)
				if fromAdmission(g, w) {
					c.okN(n)
				} else {
					c.undecided(n.posn(c.P))
				}
			}
		}
		if r, ok := isMethodCall(n, "Add"); ok && hasMethods(r.v.Type(), "ClearConn", "Remove") {
			v, _ := g.arg(n, 1)
			_, o := g.objOf(v, e)
			if s.f["!o"] == o && o != "" {
				// filed with its identifiers set
				id, ok1 := s.f[o+"|"+idF]
				str, ok2 := s.f[o+"|"+strF]
				c.Rule("ids", "")
				switch {
				case !ok1 || !ok2 || id == "?" || str == "?":
					c.undecided(n.posn(c.P))
				case id == "0" || str == "0":
					rep("ids", n, "unset", "a connection is registered before its identifiers are set")
				case decimalOf(str, id), decimalOf(str, o+"."+idF):
					c.okN(n)
				case strings.Contains(str, id) && strings.HasPrefix(str, "r"):
					c.undecided(n.posn(c.P))
				default:
					rep("ids", n, "text", "the textual identifier a connection is registered under is not the decimal form of its identifier: "+str)
				}
				s = s.put("!added", "y")
			}
		}
		if starts(n) && s.f["!o"] != "" {
			c.Rule("registered", "")
			if s.f["!added"] != "y" {
				rep("registered", n, "late", "an accepted connection is started before it is registered")
			} else {
				c.okN(n)
			}
			if v := s.f[s.f["!o"]+"|"+t.conn]; v == "0" {
				rep("registered", n, "noconn", "an accepted connection is started without its transport")
			}
		}
		return s, true
	}, nil, nil)
}

// decimalOf: the text is the decimal form of the number.
func decimalOf(str, id string) bool {
	for _, p := range []string{"strconv.FormatUint(" + id + ",#10)", "strconv.FormatInt(" + id + ",#10)", "strconv.Itoa(" + id + ")"} {
		if str == p {
			return true
		}
	}
	return false
}

// spawnEntry: the entry of the goroutine (or of the graph) a node belongs to.
func spawnEntry(g *Graph, n *Node) *Node {
	if s := spawnOf(n); s != nil {
		return s.entry
	}
	return g.entry
}

func (a *admitT) counter(c *C) {
	seen := map[token.Pos]bool{}
	for _, f := range c.P.Roots("znet") {
		g := c.graph(f, nil)
		for _, n := range g.nodes {
			if n.instr == nil || n.kind != KInstr || seen[n.instr.Pos()] {
				continue
			}
			switch x := n.instr.(type) {
			case *ssa.Store:
				nm, fn, b, ok := g.fieldOf(VC{x.Addr, n.ctx})
				if !ok {
					continue
				}
				if nm.Obj() == a.S.Obj() && fn == a.cid && !g.isFresh(b) {
					seen[n.instr.Pos()] = true
					c.failN("counter|"+fnName(n.fn()), n, "the identifier counter is set without atomicity, or set back: identifiers repeat")
				}
				for _, t := range a.ts {
					if nm.Obj() == t.T.Obj() && (strings.EqualFold(fn, "connid") || strings.EqualFold(fn, "connidstr")) && !g.isFresh(b) {
						seen[n.instr.Pos()] = true
						c.failN("changed|"+fnName(n.fn()), n, "the identifier of a connection changes while it is registered under the old one")
					}
				}
			case *ssa.Call:
				if len(x.Call.Args) > 0 && g.isField(VC{x.Call.Args[0], n.ctx}, a.S, a.cid) {
					nm := calleeName(x)
					if strings.Contains(nm, "Store") || strings.Contains(nm, "Swap") {
						seen[n.instr.Pos()] = true
						c.failN("counter|"+fnName(n.fn()), n, "the identifier counter is set back: identifiers repeat")
					}
				}
			}
		}
	}
	// the getters
	for _, t := range a.ts {
		for m, want := range map[string]string{"GetConnID": "connid", "GetConnIdStr": "connidstr"} {
			f := t.method(c, m)
			if f == nil {
				continue
			}
			g := c.graph(f, nil)
			for _, n := range g.nodes {
				ret, ok := n.instr.(*ssa.Return)
				if !ok || n.ctx != g.root || n.kind != KInstr {
					continue
				}
				_, fn, b, ok := g.fieldOf(VC{ret.Results[0], n.ctx})
				if !ok || g.sym(b) != g.psym(0) {
					if m == "GetConnIdStr" && strings.Contains(g.sym(VC{ret.Results[0], n.ctx}), "strconv.Format") {
						c.okN(n)
						continue
					}
					c.undecided(n.posn(c.P))
				} else if !strings.EqualFold(fn, want) {
					c.failN("getter|"+t.name+"."+m, n, "the identifier handed out is "+fn)
				} else {
					c.okN(n)
				}
			}
		}
	}
}

func (a *admitT) manager(c *C) {
	M := c.needType("znet", "ConnManager")
	if M == nil {
		return
	}
	// operations on the map of connections: name, key argument, value argument
	opOf := func(g *Graph, n *Node) (string, VC, VC) {
		if !isCallNode(n) {
			return "", VC{}, VC{}
		}
		for _, nm := range []string{"Set", "SetNX", "Get", "Remove", "Pop", "Has", "Clear"} {
			r, ok := isMethodCall(n, nm)
			if !ok || !g.isField(r, M, fieldNames(M)...) {
				continue
			}
			k, _ := g.arg(n, 1)
			v, _ := g.arg(n, 2)
			return nm, k, v
		}
		return "", VC{}, VC{}
	}
	ownKey := func(g *Graph, k VC) bool {
		s := g.sym(k)
		return s == g.psym(1)+".GetConnIdStr()" || decimalOf(s, g.psym(1)+".GetConnID()")
	}
	type want struct {
		m, op string
		key   func(g *Graph, k VC) bool
	}
	for _, w := range []want{
		{"Add", "Set", ownKey},
		{"Remove", "Remove", ownKey},
		{"Get", "Get", func(g *Graph, k VC) bool { return decimalOf(g.sym(k), g.psym(1)) }},
		{"Get2", "Get", func(g *Graph, k VC) bool { return g.sym(k) == g.psym(1) }},
	} {
		f := c.needMethod("znet", "ConnManager", w.m)
		if f == nil {
			continue
		}
		g := c.graph(f, &Policy{Dispatch: true, MaxImpls: 1, Inline: func(f *ssa.Function) bool { return fnRel(f) == "znet" }})
		reported := map[string]bool{}
		rep := func(n *Node, k, why string) {
			if !reported[k] {
				reported[k] = true
				c.failN(k+"|"+w.m, n, why)
			}
		}
		tr := &track{key: w.m}
		const (
			did = iota
			found
			absent
		)
		tr.ev = func(g *Graph, n *Node) []int { return nil }
		tr.step = func(g *Graph, n *Node, m marks) (marks, bool) {
			m.twice = 0
			op, k, v := opOf(g, n)
			switch {
			case op == "":
			case op == w.op || op == "Pop" && w.op == "Remove":
				if !w.key(g, k) {
					rep(n, "key", "the connection is looked up or filed under something else than its identifier: "+g.sym(k))
				} else {
					c.okN(n)
				}
				if op == "Set" && g.sym(v) != g.psym(1) {
					rep(n, "value", "something else than the connection is filed")
				}
				m = m.set(did)
			case op == "Get" || op == "Has":
			case op == "SetNX" && w.op == "Set":
				c.undecided(n.posn(c.P))
				m = m.set(did)
			default:
				rep(n, "op", "the manager's "+w.m+" does "+op+" on the table of connections")
			}
			if ret, ok := n.instr.(*ssa.Return); ok && n.kind == KInstr && n.ctx == g.root && len(ret.Results) == 2 {
				kk, _ := g.errAt(VC{ret.Results[1], n.ctx}, tr.e)
				rv, _ := g.objOf(VC{ret.Results[0], n.ctx}, tr.e)
				isVal := false
				if ex, ok := rv.v.(*ssa.Extract); ok && ex.Index == 0 {
					_, isVal = ex.Tuple.(*ssa.Call)
				}
				switch {
				case m.has(absent) && kk == 'n':
					rep(n, "absent", "no error is reported for an identifier without a connection")
				case m.has(found) && kk == 'N':
					rep(n, "found", "an error is reported although the connection was found")
				case m.has(found) && !isVal && kk == 'n':
					rep(n, "other", "something else than the connection found is returned")
				default:
					c.okN(n)
				}
			}
			m.twice = 0
			return m, true
		}
		tr.edge = func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
			for _, x := range at {
				if x.Op != 0 {
					continue
				}
				if ex, ok := g.trace(x.X).v.(*ssa.Extract); ok && ex.Index == 1 {
					if _, ok := ex.Tuple.(*ssa.Call); ok {
						if x.Val {
							m = m.set(found)
						} else {
							m = m.set(absent)
						}
					}
				}
			}
			m.twice = 0
			return m, true
		}
		tr.end = func(g *Graph, n *Node, m marks) string {
			if normalEnd(n) && !m.has(did) {
				return "the table of connections is left alone"
			}
			return ""
		}
		c.track(g, g.entry, tr)
	}
	// a connection removes itself
	for _, t := range a.ts {
		seen := map[token.Pos]bool{}
		c.rootsReaching([]string{"znet"}, nil, func(g *Graph, n *Node) bool { return fieldCall(g, n, t.T, t.mgr, "Remove") }, func(g *Graph, hits []*Node) {
			for _, n := range hits {
				if seen[n.instr.Pos()] {
					continue
				}
				seen[n.instr.Pos()] = true
				v, _ := g.arg(n, 1)
				r, _ := g.arg(n, 0)
				_, o := g.objOf(v, nil)
				if o != g.baseOf(r) {
					c.failN("other|"+t.name, n, "a connection that ends removes another one from the manager")
				} else {
					c.okN(n)
				}
			}
		})
	}
}

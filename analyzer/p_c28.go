package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C28", func(c *C) {
		Ts := c.P.implTypes("Inotify")
		if len(Ts) == 0 {
			c.Rule("key", "")
			c.missing("an implementation of Inotify")
			return
		}
		for _, T := range Ts {
			t := &notifyT{T: T}
			t.m = c.fieldLike(T, "connIdMap", "github.com/aceld/zinx/zutils.ShardLockMaps")
			if t.m == "" {
				c.Rule("key", "")
				c.missing("the notifier's registry")
				return
			}
			c.Rule("key", "Every operation on an identifier uses the registry under the same text, which different identifiers never share")
			t.keys(c)
			c.atLeast(4, "registry operations")
			c.Rule("register", "Registering always stores the given connection, deleting always removes the identifier, and asking reports what is registered")
			t.registry(c)
			c.atLeast(3, "registry paths")
			c.Rule("one", "Notifying an identifier sends the given message once to the connection found under it, and returns an error when there is none or when sending fails")
			t.one(c, "NotifyToConnByID", "SendMsg")
			t.one(c, "NotifyBuffToConnByID", "SendBuffMsg")
			c.atLeast(4, "notification paths")
			c.Rule("all", "Notifying everyone sends the given message once to every registered connection, whatever became of the others")
			t.all(c, "NotifyAll", "SendMsg")
			t.all(c, "NotifyBuffAll", "SendBuffMsg")
			c.atLeast(2, "broadcasts")
		}
	})
}

type notifyT struct {
	T *types.Named
	m string
}

// pol keeps the registry's operations whole.
func (t *notifyT) pol() *Policy {
	return &Policy{MaxImpls: -1, Inline: func(f *ssa.Function) bool { return defaultInline(f) && fnRel(f) == "znotify" }}
}

// op: the node calls a registry operation.
func (t *notifyT) op(g *Graph, n *Node) string {
	if !isCallNode(n) {
		return ""
	}
	sc := n.instr.(ssa.CallInstruction).Common().StaticCallee()
	if sc == nil || sc.Signature.Recv() == nil || fnRel(sc) != "zutils" {
		return ""
	}
	r, ok := g.arg(n, 0)
	if !ok || !g.isField(g.trace(r), t.T, t.m) {
		return ""
	}
	return sc.Name()
}

var keyed = map[string]bool{"Get": true, "Set": true, "SetNX": true, "Has": true, "Remove": true, "RemoveCb": true, "Pop": true}

func (t *notifyT) method(c *C, name string) *ssa.Function {
	f := c.P.methodOf(t.T, name)
	if f == nil {
		c.missing(t.T.Obj().Name() + "." + name)
	}
	return f
}

// keyShape: how the key is made from the identifier; wide reports that no part
// of it is lost.
func (t *notifyT) keyShape(g *Graph, v VC) (shape string, lossy, known bool) {
	id := g.psym(1)
	w := g.trace(v)
	if mi, ok := w.v.(*ssa.MakeInterface); ok {
		return t.keyShape(g, VC{mi.X, w.c})
	}
	if g.sym(w) == id {
		return "id", false, true
	}
	switch x := w.v.(type) {
	case *ssa.Convert:
		s, l, k := t.keyShape(g, VC{x.X, w.c})
		if isInt(x.Type()) && intSize(x.Type()) < intSize(x.X.Type()) {
			l = true
		}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && isInt(x.X.Type()) {
			l = true // string(rune): most integers become the same character
		}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			l = true
		}
		return "conv:" + x.Type().String() + "(" + s + ")", l, k
	case *ssa.BinOp:
		a, la, ka := t.keyShape(g, VC{x.X, w.c})
		if _, isk := x.Y.(*ssa.Const); isk && ka {
			switch x.Op {
			case token.REM, token.QUO, token.AND, token.SHR, token.SHL, token.OR, token.MUL, token.AND_NOT:
				return a + x.Op.String() + g.sym(VC{x.Y, w.c}), true, true
			case token.ADD, token.SUB, token.XOR:
				return a + x.Op.String() + g.sym(VC{x.Y, w.c}), la, true
			}
		}
		if k, isk := x.X.(*ssa.Const); isk && x.Op == token.ADD {
			b, lb, kb := t.keyShape(g, VC{x.Y, w.c})
			return g.sym(VC{k, w.c}) + "+" + b, lb, kb
		}
	case *ssa.Call:
		switch nm := calleeName(x); nm {
		case "strconv.FormatUint", "strconv.FormatInt":
			a, l, k := t.keyShape(g, VC{x.Call.Args[0], w.c})
			return nm + "(" + a + "," + g.sym(VC{x.Call.Args[1], w.c}) + ")", l, k
		case "strconv.Itoa":
			a, l, k := t.keyShape(g, VC{x.Call.Args[0], w.c})
			return nm + "(" + a + ")", l, k
		case "fmt.Sprint", "fmt.Sprintf":
			vs := g.variadic(VC{x.Call.Args[len(x.Call.Args)-1], w.c})
			if len(vs) == 1 {
				a, l, k := t.keyShape(g, vs[0])
				pre := ""
				if nm == "fmt.Sprintf" {
					pre = g.sym(VC{x.Call.Args[0], w.c}) + ","
				}
				return nm + "(" + pre + a + ")", l, k
			}
		}
	}
	return g.sym(w), false, false
}

func (t *notifyT) keys(c *C) {
	shapes := map[string]string{}
	for _, name := range []string{"HasIdConn", "SetNotifyID", "GetNotifyByID", "DelNotifyByID", "NotifyToConnByID", "NotifyBuffToConnByID"} {
		f := t.method(c, name)
		if f == nil {
			continue
		}
		g := c.graph(f, t.pol())
		for _, n := range g.nodes {
			op := t.op(g, n)
			if !keyed[op] {
				continue
			}
			k, _ := g.arg(n, 1)
			s, lossy, known := t.keyShape(g, k)
			switch {
			case lossy:
				c.failN("lossy|"+name, n, "different identifiers can get the same key")
			case !known:
				if !strings.Contains(g.sym(k), g.psym(1)) {
					c.failN("key|"+name, n, "the registry is used under a key that is not made from the given identifier")
				} else {
					c.undecided(n.posn(c.P) + " key " + s)
				}
			default:
				c.okN(n)
			}
			if known {
				shapes[s] = n.posn(c.P) + " " + name
			}
		}
	}
	if len(shapes) > 1 {
		var l []string
		for s, w := range shapes {
			l = append(l, s+" at "+w)
		}
		c.fail("shapes", "-", "-", "operations use different keys for the same identifier: "+strings.Join(l, "; "))
	}
}

func (t *notifyT) registry(c *C) {
	must := func(name, op, why string, val int) {
		f := t.method(c, name)
		if f == nil {
			return
		}
		g := c.graph(f, t.pol())
		c.track(g, g.entry, &track{key: name,
			ev: func(g *Graph, n *Node) []int {
				o := t.op(g, n)
				if o == op || op == "Remove" && o == "Pop" {
					return []int{0}
				}
				if o == "Set" || o == "SetNX" || o == "MSet" || o == "Remove" || o == "Pop" || o == "RemoveCb" || o == "Clear" {
					return []int{1}
				}
				return nil
			},
			on: func(g *Graph, n *Node, i int, m marks) string {
				if i == 1 && t.op(g, n) == "SetNX" {
					return "a connection is not registered when the identifier has an (old) one"
				}
				if i == 1 && (op == "Remove" || t.op(g, n) == "Clear" || t.op(g, n) == "MSet") {
					return "the registry is changed in another way than asked for"
				}
				if i == 0 && val > 0 {
					v, _ := g.arg(n, val)
					w := g.trace(v)
					if mi, ok := w.v.(*ssa.MakeInterface); ok {
						w = VC{mi.X, w.c}
					}
					if g.sym(w) != g.psym(val) {
						return "something else than the given connection is registered"
					}
				}
				return ""
			},
			end: func(g *Graph, n *Node, m marks) string {
				if normalEnd(n) && !m.has(0) {
					return why
				}
				if normalEnd(n) && m.has(1) && op == "Set" {
					return "the identifier is not left registered for the given connection"
				}
				return ""
			}})
	}
	must("SetNotifyID", "Set", "a path returns without having registered the connection", 2)
	must("DelNotifyByID", "Remove", "a path returns without having removed the identifier", 0)
	if f := t.method(c, "HasIdConn"); f != nil {
		g := c.graph(f, t.pol())
		t.returns(c, g, func(e env, s kv, res []VC) string {
			w := g.trace(res[0])
			if x, ok := w.v.(*ssa.Call); ok && strings.HasSuffix(calleeName(x), ".Has") {
				return "ok"
			}
			if ex, ok := w.v.(*ssa.Extract); ok && ex.Index == 1 {
				if x, ok := ex.Tuple.(*ssa.Call); ok && strings.HasSuffix(calleeName(x), ".Get") {
					return "ok"
				}
			}
			if u, ok := w.v.(*ssa.UnOp); ok && u.Op == token.NOT {
				if x, ok := g.trace(VC{u.X, w.c}).v.(*ssa.Call); ok && strings.HasSuffix(calleeName(x), ".Has") {
					return "says the opposite of what is registered"
				}
			}
			if a, ok := g.eval(res[0], e); ok && a.k == 'c' {
				if s.get("found") == "" {
					return "answers without having looked"
				}
				if (a.s == "true") != (s.get("found") == "y") {
					return "says the opposite of what is registered"
				}
				return "ok"
			}
			return "?"
		})
	}
	if f := t.method(c, "ConnNums"); f != nil {
		g := c.graph(f, t.pol())
		t.returns(c, g, func(e env, s kv, res []VC) string {
			if x, ok := g.trace(res[0]).v.(*ssa.Call); ok && strings.HasSuffix(calleeName(x), ".Count") {
				return "ok"
			}
			if _, ok := res[0].v.(*ssa.Const); ok {
				return "the number of registered connections is not counted"
			}
			if b, ok := g.trace(res[0]).v.(*ssa.BinOp); ok {
				_ = b
				return "the number of registered connections is altered"
			}
			return "?"
		})
	}
	if f := t.method(c, "GetNotifyByID"); f != nil {
		g := c.graph(f, t.pol())
		t.returns(c, g, func(e env, s kv, res []VC) string {
			k, _ := g.errAt(res[1], e)
			switch s.get("found") {
			case "n":
				if k == 'n' {
					return "an identifier nobody registered is found without an error"
				}
			case "y":
				if k == 'N' {
					return "a registered connection is reported missing"
				}
				if k == 'n' && !t.isFound(g, res[0], e) {
					return "something else than the registered connection is returned"
				}
			default:
				if k == 'n' {
					return "a connection is returned without having looked whether there is one"
				}
			}
			return "ok"
		})
	}
}

// isFound: the value is what the registry's Get returned.
func (t *notifyT) isFound(g *Graph, v VC, e env) bool {
	_, s := g.objOf(v, e)
	w, _ := g.objOf(v, e)
	_ = s
	if ex, ok := w.v.(*ssa.Extract); ok {
		if x, ok := ex.Tuple.(*ssa.Call); ok {
			return ex.Index == 0 && strings.HasSuffix(calleeName(x), ".Get")
		}
		if _, ok := ex.Tuple.(*ssa.Next); ok {
			return ex.Index == 2
		}
	}
	return false
}

// foundEdge records what a branch decided about the identifier being registered.
func (t *notifyT) foundEdge(g *Graph, at []Atom, s kv) kv {
	for _, a := range at {
		w := g.trace(a.X)
		isHas := false
		if ex, ok := w.v.(*ssa.Extract); ok && ex.Index == 1 {
			if x, ok := ex.Tuple.(*ssa.Call); ok && strings.HasSuffix(calleeName(x), ".Get") {
				isHas = true
			}
		}
		if x, ok := w.v.(*ssa.Call); ok && strings.HasSuffix(calleeName(x), ".Has") {
			isHas = true
		}
		if isHas && a.Op == 0 {
			s = s.put("found", map[bool]string{true: "y", false: "n"}[a.Val])
		}
		if v, isnil, ok := a.nilness(); ok && isnil {
			if ex, ok := g.trace(v).v.(*ssa.Extract); ok && ex.Index == 0 {
				if x, ok := ex.Tuple.(*ssa.Call); ok && strings.HasSuffix(calleeName(x), ".Get") {
					s = s.put("found", "n")
				}
			}
		}
	}
	return s
}

func (t *notifyT) returns(c *C, g *Graph, judge func(e env, s kv, res []VC) string) {
	bad := map[string]bool{}
	r := &Rule{Init: kv{}}
	r.Edge = func(g *Graph, n *Node, a Auto, at []Atom) Auto { return t.foundEdge(g, at, a.(kv)) }
	r.NodeE = func(g *Graph, n *Node, a Auto, e env) Auto {
		ret, ok := n.instr.(*ssa.Return)
		if !ok || n.ctx != g.root || n.kind != KInstr {
			return a
		}
		var res []VC
		for _, x := range ret.Results {
			v := VC{x, n.ctx}
			if w, ok := g.resolve1(v, e); ok {
				v = w
			}
			res = append(res, v)
		}
		switch why := judge(e, a.(kv), res); why {
		case "ok":
			c.okN(n)
		case "?":
			c.undecided(n.posn(c.P))
		default:
			if !bad[why] {
				bad[why] = true
				c.failN(g.root.fn.Name()+"|"+why, n, why)
			}
		}
		return a
	}
	c.run(g, g.entry, r)
}

// sends: the node sends a message to a connection.
func (t *notifyT) sends(n *Node) (name string) {
	for _, m := range []string{"SendMsg", "SendBuffMsg", "Send", "SendToQueue"} {
		if r, ok := isMethodCall(n, m); ok && typeIs(r.v.Type(), "IConnection") {
			return m
		}
	}
	return ""
}

func (t *notifyT) message(g *Graph, n *Node, id, data int) string {
	if g.argSym(n, 1) != g.psym(id) {
		return "another message identifier than the given one is sent"
	}
	if g.argSym(n, 2) != g.psym(data) {
		return "other data than the given is sent"
	}
	return ""
}

func (t *notifyT) one(c *C, name, send string) {
	f := t.method(c, name)
	if f == nil {
		return
	}
	g := c.graph(f, t.pol())
	bad := map[string]bool{}
	rep := func(n *Node, why string) {
		if !bad[why] {
			bad[why] = true
			c.failN(name+"|"+why, n, why)
		}
	}
	sendErr := func(v VC, e env) bool {
		w := g.trace(v)
		if r, ok := g.resolve1(v, e); ok {
			w = g.trace(r)
		}
		x, ok := w.v.(*ssa.Call)
		return ok && x.Call.IsInvoke() && x.Call.Method.Name() == send
	}
	r := &Rule{Init: kv{}}
	r.Edge = func(g *Graph, n *Node, a Auto, at []Atom) Auto {
		s := t.foundEdge(g, at, a.(kv))
		for _, x := range at {
			if v, isnil, ok := x.nilness(); ok && sendErr(v, nil) {
				s = s.put("err", map[bool]string{true: "n", false: "y"}[isnil])
			}
		}
		return s
	}
	r.NodeE = func(g *Graph, n *Node, a Auto, e env) Auto {
		s := a.(kv)
		if m := t.sends(n); m != "" {
			recv, _ := isMethodCall(n, m)
			switch {
			case m != send:
				rep(n, "the message is sent by "+m+" instead of "+send)
			case s.get("sent") != "":
				rep(n, "the message is sent twice")
				return nil
			case s.get("found") == "n":
				rep(n, "a message is sent although nobody is registered")
			case !t.isFound(g, recv, e):
				rep(n, "the message is sent to another connection than the registered one")
			default:
				if why := t.message(g, n, 2, 3); why != "" {
					rep(n, why)
				} else {
					c.okN(n)
				}
			}
			return s.put("sent", "1")
		}
		ret, ok := n.instr.(*ssa.Return)
		if !ok || n.ctx != g.root || n.kind != KInstr || len(ret.Results) != 1 {
			return s
		}
		k, _ := g.errAt(VC{ret.Results[0], n.ctx}, e)
		own := sendErr(VC{ret.Results[0], n.ctx}, e)
		switch {
		case s.get("sent") == "" && s.get("found") == "y":
			rep(n, "a registered connection is not notified")
		case s.get("sent") == "" && k == 'n':
			rep(n, "nothing is sent but no error is returned")
		case s.get("sent") != "" && s.get("err") == "y" && k == 'n':
			rep(n, "sending failed but no error is returned")
		case s.get("sent") != "" && s.get("err") == "" && !own && k != 'N':
			rep(n, "whether sending failed is not reported")
		case s.get("sent") != "" && s.get("err") == "n" && k == 'N':
			rep(n, "an error is returned although the message was sent")
		default:
			c.okN(n)
		}
		return s
	}
	c.run(g, g.entry, r)
	for _, n := range g.nodes {
		if spawnOf(n) != nil && t.sends(n) != "" || isGo(n) && func() bool {
			ci := n.instr.(ssa.CallInstruction).Common()
			return ci.IsInvoke() && ci.Method.Name() == send
		}() {
			rep(n, "the message is sent from another goroutine: the result is not reported")
		}
	}
}

func (t *notifyT) all(c *C, name, send string) {
	f := t.method(c, name)
	if f == nil {
		return
	}
	g := c.graph(f, &Policy{MaxImpls: -1})
	T := c.P.Type("zutils", "SingleShardMap")
	items := ""
	if T != nil {
		items = c.fieldLike(T, "items", "map[string]interface{}")
	}
	if items == "" {
		c.missing("shard items")
		return
	}
	isItems := func(v VC) bool { return g.isField(v, T, items) }
	bad := map[string]bool{}
	rep := func(n *Node, why string) {
		if !bad[why] {
			bad[why] = true
			c.failN(name+"|"+why, n, why)
		}
	}
	direct := false
	for _, n := range g.nodes {
		if s, ok := nextOf(n); ok && isItems(s) && spawnOf(n) == nil {
			direct = true
		}
	}
	visit := func(g *Graph, n *Node, e env) bool {
		m := t.sends(n)
		if m == "" {
			return false
		}
		recv, _ := isMethodCall(n, m)
		switch {
		case m != send:
			rep(n, "the message is sent by "+m+" instead of "+send)
		case direct && !t.isFound(g, recv, e):
			rep(n, "the message is sent to another connection than the one visited")
		default:
			if why := t.message(g, n, 1, 2); why != "" {
				rep(n, why)
			} else {
				c.okN(n)
			}
		}
		return true
	}
	if !direct {
		// over a copy: keys or items
		loops := 0
		for _, k := range []func(v VC) bool{
			func(v VC) bool {
				ch, ok := v.v.Type().Underlying().(*types.Chan)
				return ok && typeIs(ch.Elem(), "Tuple") && spawnOf(&Node{ctx: v.c}) == nil
			},
			func(v VC) bool {
				m, ok := v.v.Type().Underlying().(*types.Map)
				return ok && !isItems(v) && m.Key().String() == "string"
			},
		} {
			own := false
			for _, n := range g.nodes {
				if s, ok := nextOf(n); ok && k(s) && spawnOf(n) == nil && g.subtree(n.ctx, func(x *Node) bool { return t.sends(x) != "" }) {
					own = true
				}
			}
			if own {
				loops += c.drainAll(g, name, k, visit)
				break
			}
		}
		if loops == 0 {
			c.undecided(name + ": no loop over the registry recognised")
		}
		return
	}
	c.drainAll(g, name, isItems, visit)
	c.everyRound(g, name, shardKind, func(g *Graph, n *Node) bool {
		s, ok := nextOf(n)
		return ok && isItems(s)
	}, c.shardLimit(g))
	// it starts at all
	c.track(g, g.entry, &track{key: name, once: true,
		ev: func(g *Graph, n *Node) []int {
			if ia, ok := n.instr.(*ssa.Call); ok && n.kind == KInstr {
				if sc := ia.Call.StaticCallee(); sc != nil && fnRel(sc) == "zutils" && sc.Signature.Recv() != nil && hasAny(sc.Name(), "Iter", "Items", "Keys") {
					return []int{0}
				}
			}
			return nil
		},
		end: func(g *Graph, n *Node, m marks) string {
			if normalEnd(n) && n.kind == KExit && !m.has(0) && !m.has(1) {
				return "a path returns without having visited the registry"
			}
			return ""
		},
		edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
			for _, x := range at {
				if y, ok := g.trace(x.X).v.(*ssa.Call); ok && hasAny(calleeName(y), ".Count", ".IsEmpty", ".ConnNums") {
					m = m.set(1)
					m.twice = 0
				}
			}
			return m, true
		}})
}

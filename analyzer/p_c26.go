package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", func(c *C) {
		T := c.needType("zasync_op", "AsyncOpResult")
		if T == nil {
			return
		}
		a := &asyncT{T: T, pairs: map[string]map[string]bool{}, set: map[string]string{}}
		for i, st := 0, T.Underlying().(*types.Struct); i < st.NumFields(); i++ {
			f := st.Field(i)
			switch t := f.Type().Underlying().(type) {
			case *types.Signature:
				a.fn = f.Name()
			case *types.Interface:
				if typeIs(f.Type(), "IConnection") {
					a.conn = f.Name()
				} else if t.NumMethods() == 0 {
					a.obj = f.Name()
				}
			}
			if isMutex(f.Type()) {
				a.mutex = true
			}
		}
		c.Rule("claim", "The result and the callback are each written at most once, by the caller that won an atomic claim on the field's state, and are published by an atomic store after they were written")
		a.protocol(c)
		c.atLeast(4, "writes and reads of the result and the callback")
		c.Rule("handoff", "The callback is handed over only after an atomic claim that at most one caller wins, when both the result and the callback are known to be published, and whoever wins that claim does hand it over")
		c.atLeast(2, "hand-overs")
		c.Rule("complete", "Whoever publishes the result or the callback looks, after publishing, whether the other is there too, and if so takes part in the claim to hand the callback over")
		c.atLeast(2, "publications")
		c.Rule("worker", "The callback is handed over as the function of a request of the operation's own connection, which is queued for that connection's worker and called once, there")
		a.toWorker(c)
		c.atLeast(4, "steps from the hand-over to the call")
		c.Rule("same-id", "An operation is queued exactly once, in the caller's own flow, for the worker its identifier alone determines, at an index that exists for every identifier")
		a.ops(c)
		c.atLeast(3, "queued operations and worker indices")
		c.Rule("serial", "A worker is made and started once, and runs each operation it receives once, in its own flow, and survives its panics")
		a.workers(c)
		c.atLeast(3, "worker starts and operation runs")
	})
}

type asyncT struct {
	T             *types.Named
	fn, obj, conn string
	mutex         bool
	pairs         map[string]map[string]bool // data field -> flags claimed when it was written
	set           map[string]string          // flag -> published value
	claimed       map[string]string
}

// kv is a small immutable map used as automaton state.
type kv struct{ m map[string]string }

func (s kv) Key() string {
	ks := make([]string, 0, len(s.m))
	for k, v := range s.m {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}
func (s kv) get(k string) string { return s.m[k] }
func (s kv) put(k, v string) kv {
	if s.m[k] == v {
		return s
	}
	m := make(map[string]string, len(s.m)+1)
	for a, b := range s.m {
		m[a] = b
	}
	if v == "" {
		delete(m, k)
	} else {
		m[k] = v
	}
	return kv{m}
}

// atomicOp describes a sync/atomic operation on a field of T.
type atomicOp struct {
	op, field string
	args      []ssa.Value // without the address
}

func atomicFieldOp(g *Graph, v VC, T *types.Named) (atomicOp, bool) {
	call, ok := v.v.(*ssa.Call)
	if !ok || !strings.Contains(calleeName(call), "sync/atomic") || len(call.Call.Args) == 0 {
		return atomicOp{}, false
	}
	nm, f, _, ok := g.fieldOf(VC{call.Call.Args[0], v.c})
	if !ok || nm.Obj() != T.Obj() {
		return atomicOp{}, false
	}
	n := call.Call.StaticCallee().Name()
	for _, p := range []string{"CompareAndSwap", "Load", "Store", "Swap", "Add"} {
		if strings.HasPrefix(n, p) {
			return atomicOp{p, f, call.Call.Args[1:]}, true
		}
	}
	return atomicOp{}, false
}

// flagVal: the constant in a canonical form ("0" for false and 0).
func flagVal(v ssa.Value) string {
	k, ok := v.(*ssa.Const)
	if !ok {
		return "?"
	}
	if k.Value == nil {
		return "0"
	}
	if k.Value.Kind() == constant.Bool {
		if constant.BoolVal(k.Value) {
			return "1"
		}
		return "0"
	}
	return k.Value.ExactString()
}

func symVal(s string) string {
	switch s {
	case "#false":
		return "0"
	case "#true":
		return "1"
	}
	if strings.HasPrefix(s, "#") {
		return s[1:]
	}
	return "?"
}

// pol keeps the hand-over calls whole.
func (a *asyncT) pol() *Policy {
	return &Policy{Inline: func(f *ssa.Function) bool {
		return defaultInline(f) && fnRel(f) == "zasync_op"
	}}
}

// protocol walks every path of the methods of the result twice: first to learn
// which flag publishes which field, then to judge.
func (a *asyncT) protocol(c *C) {
	if a.fn == "" || a.obj == "" {
		c.missing("result and callback fields of AsyncOpResult")
		return
	}
	var roots []*ssa.Function
	for _, f := range c.P.Roots("zasync_op") {
		roots = append(roots, f)
	}
	any := false
	for pass := 0; pass < 2; pass++ {
		for _, f := range roots {
			if f.Signature.Recv() == nil || !typeIs(f.Signature.Recv().Type(), a.T.Obj().Name()) {
				continue
			}
			g := c.graph(f, a.pol())
			for _, n := range g.nodes {
				if call, ok := n.instr.(*ssa.Call); ok {
					if _, ok := atomicFieldOp(g, VC{call, n.ctx}, a.T); ok {
						any = true
					}
				}
			}
			if !any && a.mutex {
				continue
			}
			a.walk(c, g, pass == 1)
		}
	}
	if a.mutex {
		for _, r := range []string{"claim", "handoff", "complete"} {
			c.Rule(r, "")
			c.undecided("AsyncOpResult uses a mutex; only the atomic protocol is understood")
		}
		return
	}
	c.Rule("claim", "")
	for x, fs := range a.pairs {
		if len(fs) > 1 {
			c.fail("flags|"+x, c.P.pos(a.T.Obj().Pos()), "AsyncOpResult", "the field "+x+" is written under claims on different states: two callers can both write it")
		}
	}
}

func (a *asyncT) flagOf(x string) string {
	for f := range a.pairs[x] {
		return f
	}
	return ""
}

func (a *asyncT) walk(c *C, g *Graph, judge bool) {
	if a.mutex {
		judge = false
	}
	name := fnName(g.root.fn)
	seen := map[string]bool{}
	rep := func(rule string, n *Node, k, why string) {
		if judge && !seen[k+n.posn(c.P)] {
			seen[k+n.posn(c.P)] = true
			c.Rule(rule, "")
			c.failN(k+"|"+name, n, why)
		}
	}
	okay := func(rule string, n *Node) {
		if judge {
			c.Rule(rule, "")
			c.okN(n)
		}
	}
	published := func(s kv, x string) bool {
		f := a.flagOf(x)
		if f == "" {
			return false
		}
		if s.get("pub:"+f) != "" {
			return true
		}
		v := s.get("known:" + f)
		return v != "" && v == a.set[f]
	}
	openClaim := func(s kv) (string, bool) {
		for _, k := range sortedKeys(s.m) {
			if strings.HasPrefix(k, "claim:") && s.m["pub:"+k[6:]] == "" {
				return k[6:], true
			}
		}
		return "", false
	}
	r := &Rule{Init: kv{}}
	r.NodeE = func(g *Graph, n *Node, au Auto, e env) Auto {
		s := au.(kv)
		if n.kind != KInstr && n.kind != KDeferCall || n.instr == nil {
			return s
		}
		if judge && isCallNode(n) {
			cc := n.instr.(ssa.CallInstruction).Common()
			if !cc.IsInvoke() && cc.StaticCallee() == nil && g.isField(VC{cc.Value, n.ctx}, a.T, a.fn) {
				rep("worker", n, "direct", "the callback is called on whatever goroutine completes the operation, not on the connection's worker")
				return s.put("handed", "1")
			}
			if cc.IsInvoke() && cc.Method.Name() == "SendMsgToTaskQueue" || !cc.IsInvoke() && cc.StaticCallee() != nil && cc.StaticCallee().Name() == "SendMsgToTaskQueue" {
				if n.kind != KInstr || isGo(n) {
					return s
				}
				won := ""
				for _, k := range sortedKeys(s.m) {
					if strings.HasPrefix(k, "claim:") && k[6:] != a.flagOf(a.obj) && k[6:] != a.flagOf(a.fn) {
						won = k[6:]
					}
				}
				switch {
				case s.get("handed") != "":
					rep("handoff", n, "twice", "the callback is handed over twice on one path")
					return nil
				case won == "":
					rep("handoff", n, "unclaimed", "the callback is handed over without an atomic claim only one caller can win: it can run twice")
				case !published(s, a.obj):
					rep("handoff", n, "early", "the callback is handed over although the result is not known to be published")
				case !published(s, a.fn):
					rep("handoff", n, "unset", "the callback is handed over although it is not known to be published")
				default:
					okay("handoff", n)
				}
				a.handed(c, g, n, rep, okay)
				return s.put("handed", "1")
			}
		}
		switch x := n.instr.(type) {
		case *ssa.Store:
			nm, f, base, ok := g.fieldOf(VC{x.Addr, n.ctx})
			if !ok || nm.Obj() != a.T.Obj() || g.isFresh(base) {
				return s
			}
			if _, isFlag := a.set[f]; isFlag || a.isFlag(f) {
				rep("claim", n, "plain|"+f, "the state "+f+" is written without an atomic operation")
				return s
			}
			if f != a.obj && f != a.fn {
				return s
			}
			fl, ok := openClaim(s)
			if !ok {
				rep("claim", n, "unclaimed|"+f, f+" is written without having won an atomic claim on its state: a second caller can overwrite it, or it is written after it was published")
				return s
			}
			if a.pairs[f] == nil {
				a.pairs[f] = map[string]bool{}
			}
			a.pairs[f][fl] = true
			if judge && g.root.fn.Signature.Params().Len() == 1 && g.sym(VC{x.Val, n.ctx}) != g.psym(1) {
				rep("claim", n, "value|"+f, f+" is set to something else than the given value")
			}
			if judge && a.set[fl] != "" && a.set[fl] == s.get("claim:"+fl) {
				rep("claim", n, "order|"+f, "the claim on "+fl+" already says that "+f+" is published, before it is written")
			}
			okay("claim", n)
			return s.put("wrote:"+f, "1")
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return s
			}
			nm, f, base, ok := g.fieldOf(VC{x.X, n.ctx})
			if !ok || nm.Obj() != a.T.Obj() || g.isFresh(base) || f != a.obj && f != a.fn {
				return s
			}
			if _, isf := x.X.(*ssa.FieldAddr); !isf {
				return s
			}
			if judge && s.get("wrote:"+f) == "" && !published(s, f) {
				rep("claim", n, "read|"+f, f+" is read although it is not known to be published: it may be half-written or missing")
			} else {
				okay("claim", n)
			}
		case *ssa.Call:
			op, ok := atomicFieldOp(g, VC{x, n.ctx}, a.T)
			if !ok {
				return s
			}
			_, open := openClaim(s)
			switch op.op {
			case "Store":
				v := flagVal(op.args[0])
				if s.get("claim:"+op.field) == "" {
					rep("claim", n, "store|"+op.field, "the state "+op.field+" is overwritten by a caller that has not claimed it")
					return s
				}
				if v == "0" {
					rep("claim", n, "reset|"+op.field, "the state "+op.field+" is reset: the result can be set, or the callback handed over, a second time")
					return s
				}
				a.set[op.field] = v
				return s.put("pub:"+op.field, v)
			case "Load":
				if !open {
					s = s.put("ld:"+vkey(VC{x, n.ctx}), "1")
				}
			case "CompareAndSwap", "Swap":
				if !open {
					s = s.put("tried:"+op.field, "1")
				}
				if op.op == "Swap" && flagVal(op.args[0]) == "0" {
					rep("claim", n, "reset|"+op.field, "the state "+op.field+" is reset")
				}
				if op.op == "CompareAndSwap" && flagVal(op.args[1]) == "0" {
					rep("claim", n, "reset|"+op.field, "the state "+op.field+" is reset")
				}
			case "Add":
				if !open {
					s = s.put("tried:"+op.field, "1")
				}
			}
		}
		return s
	}
	r.Edge = func(g *Graph, n *Node, au Auto, at []Atom) Auto {
		s := au.(kv)
		for _, x := range at {
			if v, isnil, ok := x.nilness(); ok && isnil && g.isField(g.trace(v), a.T, a.fn) {
				s = s.put("nilfn", "1")
			}
			w := g.trace(x.X)
			op, ok := atomicFieldOp(g, w, a.T)
			if !ok {
				continue
			}
			f := op.field
			switch op.op {
			case "CompareAndSwap":
				if x.Op != 0 {
					continue
				}
				old, nw := flagVal(op.args[0]), flagVal(op.args[1])
				if !x.Val {
					s = s.put("lost:"+f, "1")
					continue
				}
				switch {
				case s.get("claim:"+f) != "" && old == s.get("claim:"+f):
					a.set[f] = nw
					s = s.put("pub:"+f, nw)
				case old == "0":
					s = s.put("claim:"+f, nw)
				}
			case "Swap":
				if x.Op == token.EQL && symVal(x.SY) == "0" || x.Op == 0 && !x.Val {
					s = s.put("claim:"+f, flagVal(op.args[0]))
				} else {
					s = s.put("lost:"+f, "1")
				}
			case "Add":
				if x.Op == token.EQL && symVal(x.SY) == flagVal(op.args[0]) {
					s = s.put("claim:"+f, flagVal(op.args[0]))
				} else {
					s = s.put("lost:"+f, "1")
				}
			case "Load":
				v, eq := "", true
				switch {
				case x.Op == 0 && x.Val:
					v = "1"
				case x.Op == 0:
					v = "0"
				case x.Op == token.EQL:
					v = symVal(x.SY)
				case x.Op == token.NEQ:
					v, eq = symVal(x.SY), false
				default:
					continue
				}
				// a published state stays
				if cur := s.get("pub:" + f); cur != "" && eq != (cur == v) {
					return nil
				}
				if cur := s.get("known:" + f); judge && cur != "" && cur == a.set[f] && eq != (cur == v) {
					return nil
				}
				if eq {
					s = s.put("known:"+f, v)
				}
				if s.get("ld:"+vkey(w)) != "" && (eq && v != a.set[f] || !eq && v == a.set[f]) {
					s = s.put("absent:"+f, "1")
				}
				if !eq && v == "0" || eq && v != "0" {
					s = s.put("lost:"+f, "1")
				}
			}
		}
		return s
	}
	r.End = func(g *Graph, n *Node, au Auto, w func() []string) {
		s := au.(kv)
		if !judge || !normalEnd(n) {
			return
		}
		end := func(rule, k, why string) {
			c.Rule(rule, "")
			c.failF(k+"|"+name, g.root.fn, why, w()...)
		}
		fo, ff := a.flagOf(a.obj), a.flagOf(a.fn)
		for _, p := range [][3]string{{fo, a.obj, ff}, {ff, a.fn, fo}} {
			f, x, other := p[0], p[1], p[2]
			if f == "" || s.get("claim:"+f) == "" {
				continue
			}
			if s.get("pub:"+f) == "" {
				end("claim", "unpublished|"+x, x+" is claimed but never published: the callback never runs")
				continue
			}
			if s.get("wrote:"+x) == "" {
				end("claim", "unwritten|"+x, x+" is published but was never written")
			}
			took := s.get("nilfn") != "" || s.get("absent:"+other) != ""
			for k := range s.m {
				if strings.HasPrefix(k, "tried:") && k[6:] != fo && k[6:] != ff {
					took = true
				}
			}
			c.Rule("complete", "")
			if !took {
				end("complete", "missed|"+x, "after "+x+" is published a path ends without looking whether the other half is there and claiming the hand-over: the callback never runs")
			} else {
				c.ok(name)
			}
		}
		for k := range s.m {
			if strings.HasPrefix(k, "claim:") && k[6:] != fo && k[6:] != ff && s.get("handed") == "" && s.get("nilfn") == "" {
				end("handoff", "undelivered", "the claim to hand the callback over is won but the callback is not handed over")
			}
		}
		// the setters must try
		switch g.root.fn.Name() {
		case "SetReturnedObj", "OnComplete":
			f, x := fo, a.obj
			if g.root.fn.Name() == "OnComplete" {
				f, x = ff, a.fn
			}
			if f != "" && s.get("claim:"+f) == "" && s.get("lost:"+f) == "" {
				end("complete", "ignored|"+x, "a path returns without having tried to set "+x)
			}
		}
	}
	c.run(g, g.entry, r)
	if judge && g.root.fn.Name() == "GetReturnedObj" {
		a.getter(c, g)
	}
}

// getter: the result, when it is there.
func (a *asyncT) getter(c *C, g *Graph) {
	c.Rule("claim", "")
	fo := a.flagOf(a.obj)
	bad := false
	r := &Rule{Init: kv{}}
	r.Edge = func(g *Graph, n *Node, au Auto, at []Atom) Auto {
		s := au.(kv)
		for _, x := range at {
			if op, ok := atomicFieldOp(g, g.trace(x.X), a.T); ok && op.op == "Load" && op.field == fo {
				v := symVal(x.SY)
				if x.Op == 0 {
					v = map[bool]string{true: "1", false: "0"}[x.Val]
				}
				if (x.Op == token.EQL || x.Op == 0) && v == a.set[fo] {
					s = s.put("set", "1")
				}
			}
		}
		return s
	}
	r.NodeE = func(g *Graph, n *Node, au Auto, e env) Auto {
		s := au.(kv)
		if ret, ok := n.instr.(*ssa.Return); ok && n.ctx == g.root && len(ret.Results) == 1 && s.get("set") != "" {
			v := VC{ret.Results[0], n.ctx}
			if w, ok := g.resolve1(v, e); ok {
				v = w
			}
			if !g.isField(g.trace(v), a.T, a.obj) && !strings.Contains(g.symAt(v, e), a.obj) {
				if !bad {
					bad = true
					c.failN("getter", n, "the result is there but something else is returned")
				}
			} else {
				c.okN(n)
			}
		}
		return s
	}
	c.run(g, g.entry, r)
}

func (a *asyncT) isFlag(f string) bool {
	for _, m := range a.pairs {
		if m[f] {
			return true
		}
	}
	return false
}

// handed judges what is handed over, and to whom.
func (a *asyncT) handed(c *C, g *Graph, n *Node, rep func(rule string, n *Node, k, why string), okay func(rule string, n *Node)) {
	q, _ := g.arg(n, 1)
	w := g.trace(q)
	call, ok := w.v.(*ssa.Call)
	if !ok || !strings.HasSuffix(calleeName(call), ".NewFuncRequest") || len(call.Call.Args) != 2 {
		c.Rule("worker", "")
		c.undecided(n.posn(c.P) + " request of unknown make")
		return
	}
	if !g.isField(VC{call.Call.Args[0], w.c}, a.T, a.conn) {
		rep("worker", n, "conn", "the callback's request does not belong to the operation's connection")
		return
	}
	fv := g.trace(VC{call.Call.Args[1], w.c})
	if !g.isField(fv, a.T, a.fn) {
		if mc, ok := fv.v.(*ssa.MakeClosure); ok {
			_ = mc
			c.Rule("worker", "")
			c.undecided(n.posn(c.P) + " callback wrapped in a closure")
			return
		}
		rep("worker", n, "func", "something else than the callback is handed over")
		return
	}
	h, _ := g.arg(n, 0)
	hv := g.trace(h)
	if hc, ok := hv.v.(*ssa.Call); ok && hc.Call.IsInvoke() && hc.Call.Method.Name() == "GetMsgHandler" {
		if !g.isField(VC{hc.Call.Value, hv.c}, a.T, a.conn) {
			rep("worker", n, "handler", "the callback is queued at another connection's workers")
			return
		}
	}
	okay("worker", n)
}

func sortedKeys(m map[string]string) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// toWorker: the request carries the connection and the function; its function
// is called by the worker.
func (a *asyncT) toWorker(c *C) {
	if f := c.needFunc("zasync_op", "NewAsyncOpResult"); f != nil && a.conn != "" {
		c.built(c.graph(f, nil), a.T, func(g *Graph, n *Node, s ostate, res string) {
			a.fieldIs(c, g, n, s, res, a.conn, g.psym(0), "the result is made for another connection than the given one")
		})
	}
	RF := c.needType("znet", "RequestFunc")
	if RF == nil {
		return
	}
	conn, fn := "", ""
	for i, st := 0, RF.Underlying().(*types.Struct); i < st.NumFields(); i++ {
		if typeIs(st.Field(i).Type(), "IConnection") {
			conn = st.Field(i).Name()
		}
		if _, ok := st.Field(i).Type().Underlying().(*types.Signature); ok {
			fn = st.Field(i).Name()
		}
	}
	if f := c.needFunc("znet", "NewFuncRequest"); f != nil {
		c.built(c.graph(f, nil), RF, func(g *Graph, n *Node, s ostate, res string) {
			a.fieldIs(c, g, n, s, res, conn, g.psym(0), "the request is made for another connection than the given one")
			a.fieldIs(c, g, n, s, res, fn, g.psym(1), "the request does not carry the given function")
		})
	}
	if f := c.needMethod("znet", "RequestFunc", "GetConnection"); f != nil {
		g := c.graph(f, nil)
		for _, n := range g.nodes {
			if ret, ok := n.instr.(*ssa.Return); ok && n.ctx == g.root && n.kind == KInstr {
				if !g.isField(g.trace(VC{ret.Results[0], n.ctx}), RF, conn) {
					c.failN("GetConnection", n, "the request names another connection than its own")
				} else {
					c.okN(n)
				}
			}
		}
	}
	if f := c.needMethod("znet", "RequestFunc", "CallFunc"); f != nil {
		g := c.graph(f, nil)
		c.track(g, g.entry, &track{key: "CallFunc",
			ev: func(g *Graph, n *Node) []int {
				if fieldCall(g, n, RF, fn, "") {
					return []int{0}
				}
				return nil
			},
			on: func(g *Graph, n *Node, i int, m marks) string {
				if isGo(n) || spawnOf(n) != nil {
					return "the function is run on a goroutine of its own, not on the worker"
				}
				if m.has(0) {
					return "the function is called twice"
				}
				return ""
			},
			edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
				for _, x := range at {
					if v, isnil, ok := x.nilness(); ok && isnil && g.isField(g.trace(v), RF, fn) {
						m = m.set(1)
					}
				}
				m.twice &^= 2
				return m, true
			},
			end: func(g *Graph, n *Node, m marks) string {
				if normalEnd(n) && !m.has(0) && !m.has(1) {
					return "the function is not called"
				}
				return ""
			}})
	}
	if f := c.needMethod("znet", "MsgHandle", "SendMsgToTaskQueue"); f != nil {
		queueSend(c, f)
	}
	if f := c.needMethod("znet", "MsgHandle", "StartOneWorker"); f != nil {
		workerLoop(c, f)
		g := c.graph(f, nil)
		// a function request is run as one
		c.track(g, g.entry, &track{key: "func-request", once: true,
			ev: func(g *Graph, n *Node) []int {
				if m, ok := isMethodCall(n, "CallFunc"); ok && m.v != nil {
					return []int{1}
				}
				return nil
			},
			step: func(g *Graph, n *Node, m marks) (marks, bool) {
				recv := false
				if u, ok := n.instr.(*ssa.UnOp); ok && n.kind == KInstr {
					recv = u.Op == token.ARROW && isReqChan(u.X.Type())
				}
				if _, ok := n.instr.(*ssa.Select); ok && n.kind == KInstr {
					recv = true
				}
				if recv {
					if m.has(0) && !m.has(1) {
						if m.x == "" {
							c.failN("func-request", n, "a function request is taken from the queue but its function is not called")
						}
						return m, false
					}
					m = m.clear(0).clear(1)
				}
				return m, true
			},
			edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
				if T, _, holds, ok := typeTest(g, at); ok && typeIs(T, "IFuncRequest") && holds {
					m = m.set(0)
					m.twice = 0
				}
				return m, true
			}})
		c.ok(fnName(f))
	}
}

func (a *asyncT) fieldIs(c *C, g *Graph, n *Node, s ostate, res string, field, want, why string) {
	if res == "" || field == "" {
		c.undecided(n.posn(c.P))
		return
	}
	got, ok := s.f[res+"|"+field]
	if !ok {
		c.undecided(n.posn(c.P) + " object not followed")
		return
	}
	if got != want {
		c.failN("field|"+field+"|"+fnName(g.root.fn), n, why)
		return
	}
	c.okN(n)
}

// ops: Process.
func (a *asyncT) ops(c *C) {
	f := c.needFunc("zasync_op", "Process")
	W := c.needType("zasync_op", "AsyncWorker")
	if f == nil || W == nil {
		return
	}
	q := ""
	for _, x := range fieldsByType(W, func(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }) {
		q = x
	}
	g := c.graph(f, nil)
	isQ := func(v VC) bool { return g.isField(g.trace(v), W, q) }
	isSend := func(n *Node) bool {
		ch, _, ok := sendOf(n)
		return ok && isQ(ch)
	}
	c.track(g, g.entry, &track{key: "Process",
		ev: func(g *Graph, n *Node) []int {
			if isSend(n) {
				return []int{0}
			}
			return nil
		},
		on: func(g *Graph, n *Node, i int, m marks) string {
			if m.has(0) {
				return "the operation is queued twice"
			}
			_, v, _ := sendOf(n)
			return a.sent(c, g, v)
		},
		edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
			for _, x := range at {
				if v, isnil, ok := x.nilness(); ok && isnil {
					w := g.trace(v)
					if g.sym(w) == g.psym(1) || g.isField(w, W, q) || typeIs(w.v.Type(), "AsyncWorker") {
						m = m.set(1)
					}
				}
			}
			if s, k, x, ok := selCase(g, at); ok && s.States[k].Dir == types.SendOnly && isQ(VC{s.States[k].Chan, x}) {
				m = m.set(0)
			}
			m.twice &^= 2
			return m, true
		},
		end: func(g *Graph, n *Node, m marks) string {
			if normalEnd(n) && n.kind == KExit && !m.has(0) && !m.has(1) {
				return "a path returns without having queued the operation: it is lost"
			}
			return ""
		}})
	for _, n := range g.nodes {
		if spawnOf(n) != nil && isSend(n) {
			c.failN("go", n, "the operation is queued from a goroutine of its own: a later one with the same identifier can overtake it")
		}
	}
	// the index: exists for every identifier, and depends on it alone
	idx := map[ssa.Value]bool{}
	bad := map[string]bool{}
	c.rangePaths(g, g.entry, func(n *Node, s rstate) {
		ia, ok := n.instr.(*ssa.IndexAddr)
		if !ok || n.kind != KInstr {
			return
		}
		p, ok := ia.X.Type().Underlying().(*types.Pointer)
		if !ok {
			return
		}
		arr, ok := p.Elem().Underlying().(*types.Array)
		if !ok {
			return
		}
		if _, ok := g.trace(VC{ia.X, n.ctx}).v.(*ssa.Global); !ok {
			return
		}
		r := s.val(g, VC{ia.Index, n.ctx})
		if r.lo < 0 || r.hi >= arr.Len() {
			if !bad[n.posn(c.P)] {
				bad[n.posn(c.P)] = true
				c.failN("range", n, "for some identifier the worker index is outside the array: the operation panics")
			}
			return
		}
		if !idx[ia.Index] {
			idx[ia.Index] = true
			c.okN(n)
			switch leaf := a.leaf(g, VC{ia.Index, n.ctx}, map[VC]bool{}); leaf {
			case "":
				c.okN(n)
			case "?":
				c.undecided(n.posn(c.P) + " origin of the index")
			default:
				c.failN("origin", n, "the worker an operation goes to depends on "+leaf+": operations with the same identifier can run on different workers")
			}
		}
	})
}

// leaf: what a number is computed from besides the first parameter and constants.
func (a *asyncT) leaf(g *Graph, v VC, busy map[VC]bool) string {
	w := g.trace(v)
	if busy[w] {
		return ""
	}
	busy[w] = true
	if g.sym(w) == g.psym(0) {
		return ""
	}
	all := func(vs ...ssa.Value) string {
		for _, x := range vs {
			if l := a.leaf(g, VC{x, w.c}, busy); l != "" {
				return l
			}
		}
		return ""
	}
	switch x := w.v.(type) {
	case *ssa.Const:
		return ""
	case *ssa.BinOp:
		return all(x.X, x.Y)
	case *ssa.Convert:
		return all(x.X)
	case *ssa.Phi:
		return all(x.Edges...)
	case *ssa.UnOp:
		if x.Op == token.SUB || x.Op == token.XOR {
			return all(x.X)
		}
		if x.Op == token.MUL {
			if gl, ok := g.trace(VC{x.X, w.c}).v.(*ssa.Global); ok {
				return "the variable " + gl.Name()
			}
			if al := g.trace(VC{x.X, w.c}); al.v != nil {
				if _, ok := al.v.(*ssa.Alloc); ok && len(g.stores[al]) > 0 {
					for _, st := range g.stores[al] {
						if l := a.leaf(g, st, busy); l != "" {
							return l
						}
					}
					return ""
				}
			}
		}
	case *ssa.Call:
		ks := g.calls[callKey{w.c, x}]
		if len(ks) > 0 {
			for _, k := range ks {
				for _, r := range k.rets {
					if l := a.leaf(g, VC{r.instr.(*ssa.Return).Results[0], k}, busy); l != "" {
						return l
					}
				}
			}
			return ""
		}
		nm := calleeName(x)
		if hasAny(nm, "rand.", "time.", "sync/atomic", "runtime.") {
			return nm
		}
	}
	return "?"
}

// sent: what is queued calls the given operation once.
func (a *asyncT) sent(c *C, g *Graph, v VC) string {
	w := g.trace(v)
	if g.sym(w) == g.psym(1) {
		return ""
	}
	mc, ok := w.v.(*ssa.MakeClosure)
	if !ok {
		c.undecided("queued operation of unknown make")
		return ""
	}
	body := mc.Fn.(*ssa.Function)
	var fv *ssa.FreeVar
	for i, b := range mc.Bindings {
		bw := g.trace(VC{b, w.c})
		if al, ok := bw.v.(*ssa.Alloc); ok {
			if st := g.stores[VC{al, bw.c}]; len(st) == 1 {
				bw = g.trace(st[0])
			}
		}
		if g.sym(bw) == g.psym(1) {
			fv = body.FreeVars[i]
		}
	}
	if fv == nil {
		return "something else than the given operation is queued"
	}
	isOp := func(h *Graph, n *Node) bool {
		ci, ok := n.instr.(ssa.CallInstruction)
		if !ok || n.kind == KAfter || n.kind == KGate || ci.Common().IsInvoke() || ci.Common().StaticCallee() != nil {
			return false
		}
		x := h.trace(VC{ci.Common().Value, n.ctx}).v
		if u, ok := x.(*ssa.UnOp); ok {
			x = h.trace(VC{u.X, n.ctx}).v
		}
		return x == fv
	}
	h := c.graph(body, nil)
	c.track(h, h.entry, &track{key: "queued operation",
		ev: func(h *Graph, n *Node) []int {
			if isOp(h, n) {
				return []int{0}
			}
			return nil
		},
		on: func(h *Graph, n *Node, i int, m marks) string {
			if isGo(n) {
				return "the operation is started on a goroutine of its own: the next one with the same identifier does not wait for it"
			}
			if m.has(0) {
				return "the operation is run twice"
			}
			return ""
		},
		end: func(h *Graph, n *Node, m marks) string {
			if normalEnd(n) && n.kind == KExit && !m.has(0) {
				return "the queued function does not run the operation"
			}
			return ""
		}})
	for _, n := range h.nodes {
		if spawnOf(n) != nil && isOp(h, n) {
			c.failN("spawned", n, "the operation is run on a goroutine of its own: the next one with the same identifier does not wait for it")
		}
	}
	return ""
}

// workers: one per queue, in order, surviving panics.
func (a *asyncT) workers(c *C) {
	W := c.needType("zasync_op", "AsyncWorker")
	f := c.needFunc("zasync_op", "Process")
	if W == nil || f == nil {
		return
	}
	q := ""
	for _, x := range fieldsByType(W, func(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }) {
		q = x
	}
	g := c.graph(f, nil)
	recvIn := func(x *Ctx) bool {
		return g.subtree(x, func(n *Node) bool {
			u, ok := n.instr.(*ssa.UnOp)
			return ok && u.Op == token.ARROW && g.isField(g.trace(VC{u.X, n.ctx}), W, q)
		})
	}
	once := func(n *Node) (VC, bool) {
		for x := n.ctx; x != nil; x = x.parent {
			if x.site != nil && isOnceDo(x.site) {
				return VC{x.site.Common().Args[0], x.parent}, true
			}
		}
		return VC{}, false
	}
	locks := false
	for _, n := range g.nodes {
		if _, ok := g.lockOp(n); ok {
			locks = true
		}
	}
	elem := func(v VC) (string, bool) {
		w := g.trace(v)
		ia, ok := w.v.(*ssa.IndexAddr)
		if !ok {
			return "", false
		}
		if _, ok := g.trace(VC{ia.X, w.c}).v.(*ssa.Global); !ok {
			return "", false
		}
		return g.sym(VC{ia.Index, w.c}), true
	}
	for _, n := range g.nodes {
		if n.kind != KInstr {
			continue
		}
		idx := ""
		if st, ok := n.instr.(*ssa.Store); ok && typeIs(st.Val.Type(), "AsyncWorker") {
			if i, ok := elem(VC{st.Addr, n.ctx}); ok {
				idx = i
			}
		}
		starts := false
		if isGo(n) {
			for _, s := range n.spawn {
				starts = starts || recvIn(s)
			}
		}
		if idx == "" && !starts {
			continue
		}
		what := "a worker is made"
		if starts {
			what = "a worker is started"
		}
		o, ok := once(n)
		if !ok {
			if locks {
				c.undecided(n.posn(c.P) + " worker made under a lock")
				continue
			}
			c.failN("once|"+what, n, what+" without sync.Once: two callers with the same identifier can each make one, and operations are lost or run concurrently")
			continue
		}
		if oi, ok := elem(o); ok && idx != "" && oi != idx {
			c.failN("once-index", n, "the worker of one index is made under the Once of another: it can be made twice, or never")
			continue
		} else if !ok && idx != "" {
			c.failN("once-shared", n, "workers of different indices share one Once: only the first is ever made")
			continue
		}
		c.okN(n)
	}
	// started once each
	c.track(g, g.entry, &track{key: "start",
		ev: func(g *Graph, n *Node) []int {
			if isGo(n) {
				for _, s := range n.spawn {
					if recvIn(s) {
						return []int{0}
					}
				}
			}
			return nil
		},
		on: func(g *Graph, n *Node, i int, m marks) string {
			if m.has(0) {
				return "a worker is started twice on one queue: its operations run concurrently"
			}
			return ""
		}})
	// the loop
	done := map[*ssa.Function]bool{}
	for _, s := range g.spawns {
		if !recvIn(s) || done[s.fn] {
			continue
		}
		done[s.fn] = true
		a.loop(c, g, s, W, q)
	}
	if len(done) == 0 {
		c.undecided("no worker loop found")
	}
}

func (a *asyncT) loop(c *C, g *Graph, x *Ctx, W *types.Named, q string) {
	recv := func(n *Node) bool {
		u, ok := n.instr.(*ssa.UnOp)
		return ok && n.kind == KInstr && u.Op == token.ARROW && g.isField(g.trace(VC{u.X, n.ctx}), W, q)
	}
	isTask := func(n *Node) bool {
		ci, ok := n.instr.(ssa.CallInstruction)
		if !ok || n.kind == KAfter || n.kind == KGate || ci.Common().IsInvoke() || ci.Common().StaticCallee() != nil {
			return false
		}
		w := g.trace(VC{ci.Common().Value, n.ctx})
		if ex, ok := w.v.(*ssa.Extract); ok {
			w = VC{ex.Tuple, w.c}
		}
		u, ok := w.v.(*ssa.UnOp)
		return ok && u.Op == token.ARROW
	}
	bad := map[string]bool{}
	rep := func(n *Node, k, why string) {
		if !bad[k] {
			bad[k] = true
			c.failN(k, n, why)
		}
	}
	tr := &track{key: "loop", once: true}
	tr.ev = func(g *Graph, n *Node) []int { return nil }
	tr.step = func(g *Graph, n *Node, m marks) (marks, bool) {
		switch {
		case recv(n):
			if m.has(0) && !m.has(1) {
				rep(n, "dropped", "an operation is taken from the queue but not run before the next is taken")
				return m, false
			}
			m = m.clear(0).clear(1).set(0)
		case isGo(n) && (isTask(n) || func() bool {
			for _, s := range n.spawn {
				if g.subtree(s, isTask) {
					return true
				}
			}
			return false
		}()):
			rep(n, "go", "an operation is run on a goroutine of its own: the next one does not wait for it")
			return m.set(1), true
		case isTask(n):
			if m.has(1) {
				rep(n, "twice", "an operation is run twice")
				return m, false
			}
			c.okN(n)
			m = m.set(1)
		}
		return m, true
	}
	tr.edge = func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
		for _, y := range at {
			if v, isnil, ok := y.nilness(); ok && isnil {
				w := g.trace(v)
				if ex, ok := w.v.(*ssa.Extract); ok {
					w = VC{ex.Tuple, w.c}
				}
				if u, ok := w.v.(*ssa.UnOp); ok && u.Op == token.ARROW {
					m = m.clear(0)
				}
			}
			if y.Op == 0 && !y.Val {
				if ex, ok := g.trace(y.X).v.(*ssa.Extract); ok {
					if u, ok := ex.Tuple.(*ssa.UnOp); ok && u.Op == token.ARROW {
						m = m.clear(0)
					}
				}
			}
		}
		return m, true
	}
	c.track(g, x.entry, tr)
	// a panicking operation does not end the worker
	safe := false
	for _, n := range g.nodes {
		if ch, v, ok := sendOf(n); ok && g.isField(g.trace(ch), W, q) {
			if mc, ok := g.trace(v).v.(*ssa.MakeClosure); ok {
				safe = safe || recoversAlways0(mc.Fn.(*ssa.Function))
			}
		}
		if isTask(n) && spawnOf(n) == x && n.ctx != x && recoversAlways0(n.fn()) {
			safe = true
		}
	}
	if !safe {
		c.failF("panic", x.fn, "a panic of one operation ends its worker: later operations of the same identifier never run")
	} else {
		c.ok(fnName(x.fn))
	}
}

// recoversAlways0: the function defers a recover before anything else can panic.
func recoversAlways0(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok && b.Index == 0 && deferRecovers(d) {
				return true
			}
			if ci, ok := in.(*ssa.Call); ok && ci.Call.StaticCallee() == nil {
				if _, bi := ci.Call.Value.(*ssa.Builtin); !bi {
					return false
				}
			}
		}
	}
	return false
}

// built runs f at every return of the root with the contents of the T returned
// first.
func (c *C) built(g *Graph, T *types.Named, f func(g *Graph, n *Node, s ostate, obj string)) {
	c.objPaths(g, T, nil, func(n *Node, s ostate, e env) (ostate, bool) {
		if ret, ok := n.instr.(*ssa.Return); ok && n.ctx == g.root && len(ret.Results) > 0 {
			v := VC{ret.Results[0], n.ctx}
			if mi, ok := g.trace(v).v.(*ssa.MakeInterface); ok {
				v = VC{mi.X, g.trace(v).c}
			}
			_, o := g.objOf(v, e)
			f(g, n, s, o)
		}
		return s, true
	}, nil, nil)
}

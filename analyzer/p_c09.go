package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sendOf: the channel and value of a plain send.
func sendOf(n *Node) (ch, val VC, ok bool) {
	if n.kind != KInstr {
		return
	}
	if s, iss := n.instr.(*ssa.Send); iss {
		return VC{s.Chan, n.ctx}, VC{s.X, n.ctx}, true
	}
	return
}

// queueElem: the value is an element of a handler's task queues; the index.
func queueElem(g *Graph, v VC) (string, bool) {
	ix, ok := queueIndex(g, v)
	if !ok {
		return "", false
	}
	return g.sym(ix), true
}

func queueIndex(g *Graph, v VC) (VC, bool) {
	v = g.trace(v)
	if u, ok := v.v.(*ssa.UnOp); ok && u.Op == token.MUL {
		v = g.trace(VC{u.X, v.c})
	}
	var base, idx ssa.Value
	switch x := v.v.(type) {
	case *ssa.IndexAddr:
		base, idx = x.X, x.Index
	case *ssa.Index:
		base, idx = x.X, x.Index
	default:
		return VC{}, false
	}
	if _, f, _, ok := g.fieldOf(VC{base, v.c}); !ok || f != "TaskQueue" {
		return VC{}, false
	}
	return VC{idx, v.c}, true
}

// runsRequest: a call that runs the handlers of a request.
func runsRequest(g *Graph, n *Node) (VC, bool) {
	if !isCallNode(n) && !isGo(n) {
		return VC{}, false
	}
	switch nm := g.callName(n); {
	case strings.HasPrefix(nm, "iface:IRequest.") || strings.HasPrefix(nm, "iface:IFuncRequest."):
		switch nm[strings.LastIndex(nm, ".")+1:] {
		case "Call", "RouterSlicesNext", "CallFunc":
			v, _ := g.arg(n, 0)
			return v, true
		}
	}
	return VC{}, false
}

func isGo(n *Node) bool {
	_, ok := n.instr.(*ssa.Go)
	return ok && n.kind == KInstr
}

// unrouted: the branch decided that nothing is registered for the message.
func unrouted(g *Graph, at []Atom) bool {
	for _, a := range at {
		if a.Op == 0 && !a.Val && strings.HasPrefix(a.SX, "has(") && hasAny(a.SX, ".Apis[", ".Apis[") {
			return true
		}
		if a.Op == 0 && !a.Val {
			x := g.norm(a.X)
			if ex, ok := x.v.(*ssa.Extract); ok && ex.Index == 1 {
				if l, ok := ex.Tuple.(*ssa.Lookup); ok {
					if m, ok := l.X.Type().Underlying().(*types.Map); ok && m.Key().String() == "uint32" {
						return true
					}
				}
				if call, ok := ex.Tuple.(*ssa.Call); ok && strings.Contains(calleeName(call), "GetHandlers") {
					return true
				}
			}
		}
		if v, isnil, ok := a.nilness(); ok && isnil {
			t := g.trace(v)
			if _, ok := t.v.(*ssa.Lookup); ok {
				return true
			}
			if ex, ok := t.v.(*ssa.Extract); ok {
				if _, ok := ex.Tuple.(*ssa.Lookup); ok {
					return true
				}
				if call, ok := ex.Tuple.(*ssa.Call); ok && strings.Contains(calleeName(call), "GetHandlers") {
					return true
				}
			}
		}
	}
	return false
}

func init() {
	register("C09", func(c *C) {
		MH := c.needType("znet", "MsgHandle")
		if MH == nil {
			return
		}
		c.Rule("own-queue", "Handing a request to the workers puts exactly that request, once and before returning, on the queue indexed by the worker of the request's own connection")
		if f := c.needMethod("znet", "MsgHandle", "SendMsgToTaskQueue"); f != nil {
			queueSend(c, f)
		}
		c.atLeast(1, "queue sends")
		c.Rule("dispatch", "The dispatching interceptor queues a request exactly once, in the reader's own flow, when there is a worker pool, and otherwise runs it exactly once")
		if f := c.needMethod("znet", "MsgHandle", "Intercept"); f != nil {
			dispatchOnce(c, f)
		}
		c.Rule("serial", "A worker runs each request it receives exactly once, in its own flow, before it receives the next")
		if f := c.needMethod("znet", "MsgHandle", "StartOneWorker"); f != nil {
			workerLoop(c, f)
		}
		c.Rule("one-worker", "Each worker is started once, with its own fresh queue at its own index, and the pool starts one for every index below its size")
		workerStart(c, MH)
		c.atLeast(2, "worker starts")
		c.Rule("reader", "A reader runs the chain once for every request it makes, in its own flow, frame after frame from the first to the last")
		for _, T := range connTypes(c) {
			if f := c.P.methodOf(T, "StartReader"); f != nil {
				readerLoop(c, T, f)
			} else {
				c.missing(T.Obj().Name() + ".StartReader")
			}
		}
		c.atLeast(6, "requests made by readers")
		c.Rule("assigned", "A connection's worker is stored before its reader starts, is not changed while it runs, and is a worker that exists")
		for _, T := range connTypes(c) {
			workerAssigned(c, T)
		}
		c.atLeast(6, "worker assignments")
		c.Rule("chain", "Between the reader and the dispatching interceptor no goroutine is started")
		for _, q := range [][2]string{{"MsgHandle", "Execute"}, {"chainBuilder", "Execute"}} {
			if f := c.P.Method("znet", q[0], q[1]); f != nil {
				noGo(c, f)
			}
		}
		if T := c.P.implTypes("IChain"); len(T) > 0 {
			for _, t := range T {
				for _, m := range []string{"Proceed", "ProceedWithIMessage"} {
					if f := c.P.methodOf(t, m); f != nil {
						noGo(c, f)
					}
				}
			}
		}
		for _, t := range c.P.implTypes("IDecoder") {
			if f := c.P.methodOf(t, "Intercept"); f != nil {
				noGo(c, f)
			}
		}
		c.atLeast(4, "chain functions")
	})
}

func noGo(c *C, f *ssa.Function) {
	g := c.graph(f, &Policy{NoSpawn: true})
	bad := false
	for _, n := range g.nodes {
		if isGo(n) {
			bad = true
			c.failN("go|"+fnName(n.fn()), n, "a request's way to its worker goes through a goroutine of its own: later requests can overtake it")
		}
	}
	if !bad {
		c.ok(fnName(f))
	}
}

func queueSend(c *C, f *ssa.Function) {
	g := c.graph(f, nil)
	req := g.psym(1)
	want := req + ".GetConnection().GetWorkerID()"
	n := 0
	judge := func(nd *Node, ch, val VC) string {
		idx, ok := queueElem(g, ch)
		if !ok {
			return ""
		}
		n++
		if idx != want {
			return "the request is queued for worker " + idx + ", not for the worker of its connection"
		}
		if g.sym(val) != req {
			return "something else than the given request is queued"
		}
		return ""
	}
	c.track(g, g.entry, &track{key: "SendMsgToTaskQueue",
		ev: func(g *Graph, n *Node) []int {
			if ch, _, ok := sendOf(n); ok {
				if _, isq := queueElem(g, ch); isq {
					return []int{0}
				}
			}
			return nil
		},
		on: func(g *Graph, n *Node, i int, m marks) string {
			ch, v, _ := sendOf(n)
			if m.has(0) {
				return "the request is queued twice"
			}
			return judge(n, ch, v)
		},
		edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
			if s, k, x, ok := selCase(g, at); ok && s.States[k].Dir == types.SendOnly {
				if _, isq := queueElem(g, VC{s.States[k].Chan, x}); isq {
					if why := judge(n, VC{s.States[k].Chan, x}, VC{s.States[k].Send, x}); why != "" {
						c.failN("SendMsgToTaskQueue|select", n, why)
					}
					m = m.set(0)
				}
			}
			return m, true
		},
		end: func(g *Graph, n *Node, m marks) string {
			if n.kind == KExit && !m.has(0) {
				return "a path returns without having queued the request: it is dropped"
			}
			return ""
		}})
	for _, s := range g.spawns {
		for _, nd := range g.nodes {
			if spawnOf(nd) == s {
				if ch, _, ok := sendOf(nd); ok {
					if _, isq := queueElem(g, ch); isq {
						n++
						c.failN("SendMsgToTaskQueue|go", nd, "the request is queued from a goroutine of its own: a later request can overtake it")
					}
				}
			}
		}
	}
	if n == 0 {
		c.undecided("SendMsgToTaskQueue: no send on TaskQueue recognised")
	}
}

func dispatchOnce(c *C, f *ssa.Function) {
	g := c.graph(f, nil)
	// 0 queued in own flow, 1 run in own flow or spawned, 2 excused, 3 pool, 4 no pool
	pool := func(a Atom) (bool, bool) {
		if _, fl, _, ok := g.fieldOf(a.X); !ok || fl != "WorkerPoolSize" {
			return false, false
		}
		if a.SY != "#0" && a.SY != "#1" {
			return false, false
		}
		switch {
		case a.Op == token.GTR && a.SY == "#0", a.Op == token.NEQ && a.SY == "#0", a.Op == token.GEQ && a.SY == "#1":
			return true, true
		case a.Op == token.LEQ && a.SY == "#0", a.Op == token.EQL && a.SY == "#0", a.Op == token.LSS && a.SY == "#1":
			return false, true
		}
		return false, false
	}
	spawnRuns := func(n *Node) bool {
		if _, ok := runsRequest(g, n); ok {
			return true
		}
		for _, s := range n.spawn {
			for _, x := range g.nodes {
				if spawnOf(x) == s {
					if _, ok := runsRequest(g, x); ok {
						return true
					}
				}
			}
		}
		return false
	}
	c.track(g, g.entry, &track{key: "Intercept",
		ev: func(g *Graph, n *Node) []int {
			if ch, _, ok := sendOf(n); ok {
				if _, isq := queueElem(g, ch); isq {
					return []int{0}
				}
			}
			if isGo(n) {
				if spawnRuns(n) {
					return []int{1}
				}
				return nil
			}
			if _, ok := runsRequest(g, n); ok {
				return []int{1}
			}
			return nil
		},
		on: func(g *Graph, n *Node, i int, m marks) string {
			if m.has(0) || m.has(1) {
				return "a request is queued or run twice"
			}
			if i == 1 && (m.has(3) || m.has(5) && !m.has(4)) {
				return "a request is run outside its worker although there is a worker pool"
			}
			if i == 0 && m.has(4) {
				return "a request is queued although there is no worker"
			}
			return ""
		},
		edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
			for _, a := range at {
				if _, fl, _, ok := g.fieldOf(a.X); ok && fl == "WorkerPoolSize" {
					m = m.set(5)
				}
				if p, ok := pool(a); ok {
					if p {
						m = m.set(3)
					} else {
						m = m.set(4)
					}
				}
				if _, isnil, ok := a.nilness(); ok && isnil {
					m = m.set(2)
				}
			}
			if s, k, x, ok := selCase(g, at); ok && s.States[k].Dir == types.SendOnly {
				if _, isq := queueElem(g, VC{s.States[k].Chan, x}); isq {
					m = m.set(0)
				}
			}
			if T, _, holds, ok := typeTest(g, at); ok && !holds && typeIs(T, "IRequest") {
				m = m.set(2)
			}
			if unrouted(g, at) {
				m = m.set(2)
			}
			m.twice = 0
			return m, true
		},
		end: func(g *Graph, n *Node, m marks) string {
			if n.kind != KExit || m.has(2) || m.has(0) || m.has(1) {
				return ""
			}
			return "a request neither reaches a worker nor is run: it is dropped"
		}})
}

// workerLoop: exactly one synchronous run per received request.
func workerLoop(c *C, f *ssa.Function) {
	g := c.graph(f, nil)
	isRecv := func(n *Node) bool {
		if n.kind != KInstr || spawnOf(n) != nil {
			return false
		}
		switch x := n.instr.(type) {
		case *ssa.UnOp:
			return x.Op == token.ARROW && isReqChan(x.X.Type())
		case *ssa.Select:
			for _, s := range x.States {
				if s.Dir == types.RecvOnly && isReqChan(s.Chan.Type()) {
					return true
				}
			}
		}
		return false
	}
	recvs := 0
	for _, n := range g.nodes {
		if isRecv(n) {
			recvs++
		}
		if isGo(n) {
			hit := false
			if _, ok := runsRequest(g, n); ok {
				hit = true
			}
			for _, s := range n.spawn {
				for _, x := range g.nodes {
					if spawnOf(x) == s {
						if _, ok := runsRequest(g, x); ok {
							hit = true
						}
					}
				}
			}
			if hit {
				c.failN("StartOneWorker|go", n, "a worker runs requests in goroutines of their own: two requests of one connection run at once")
			}
		}
	}
	if recvs == 0 {
		c.undecided("StartOneWorker: no receive of requests recognised")
		return
	}
	// marks: 0 a request is pending, 1 it was run, 2 excused
	finish := func(m marks) string {
		if m.has(0) && !m.has(1) && !m.has(2) {
			return "a received request is not run: it is dropped"
		}
		return ""
	}
	c.track(g, g.entry, &track{key: "StartOneWorker", once: true,
		ev: func(g *Graph, n *Node) []int {
			if isRecv(n) {
				return []int{0}
			}
			if spawnOf(n) == nil {
				if _, ok := runsRequest(g, n); ok && !isGo(n) {
					return []int{1}
				}
			}
			return nil
		},
		step: func(g *Graph, n *Node, m marks) (marks, bool) {
			if isRecv(n) {
				if why := finish(m); why != "" {
					c.failN("StartOneWorker|dropped", n, why)
				}
				m = m.clear(0).clear(1).clear(2)
			}
			return m, true
		},
		on: func(g *Graph, n *Node, i int, m marks) string {
			if i != 1 {
				return ""
			}
			v, _ := runsRequest(g, n)
			if m.has(1) {
				return "a received request is run twice"
			}
			if t := g.trace(v); recvChan(t.v) == nil {
				return "the worker runs something else than the request it received"
			}
			return ""
		},
		edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
			for _, a := range at {
				if a.Op == 0 && !a.Val {
					x := g.norm(a.X)
					if ex, ok := x.v.(*ssa.Extract); ok && ex.Index == 1 && recvChanOK(ex) {
						m = m.set(2) // the queue was closed
					}
				}
				if v, isnil, ok := a.nilness(); ok && isnil && recvChan(g.trace(v).v) != nil {
					m = m.set(2)
				}
			}
			if s, k, _, ok := selCase(g, at); ok && !(s.States[k].Dir == types.RecvOnly && isReqChan(s.States[k].Chan.Type())) {
				m = m.set(2)
			}
			if T, _, holds, ok := typeTest(g, at); ok && !holds && typeIs(T, "IRequest") {
				m = m.set(2)
			}
			if unrouted(g, at) {
				m = m.set(2)
			}
			m.twice = 0
			return m, true
		},
		end: func(g *Graph, n *Node, m marks) string { return finish(m) }})
}

func isReqChan(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	return ok && typeIs(ch.Elem(), "IRequest")
}

// recvChanOK: the value is the "ok" of a receive.
func recvChanOK(ex *ssa.Extract) bool {
	switch t := ex.Tuple.(type) {
	case *ssa.UnOp:
		return t.Op == token.ARROW
	case *ssa.Select:
		return true
	}
	return false
}

// workerStart: every go statement that starts a worker loop.
func workerStart(c *C, MH *types.Named) {
	isStart := func(g *Graph, n *Node) bool {
		if !isGo(n) {
			return false
		}
		for _, f := range n.fns {
			if f.Name() == "StartOneWorker" {
				return true
			}
		}
		return false
	}
	c.rootsReaching([]string{"znet"}, func() *Policy { return &Policy{NoSpawn: true} }, isStart, func(g *Graph, hits []*Node) {
		for _, n := range hits {
			id := g.argSym(n, 1)
			ch, _ := g.arg(n, 2)
			ct := g.trace(ch)
			// the store of the queue the worker gets
			var st *Node
			for _, m := range g.nodes {
				s, ok := m.instr.(*ssa.Store)
				if !ok || m.kind != KInstr || m.ctx != n.ctx {
					continue
				}
				ix, ok := queueElem(g, VC{s.Addr, m.ctx})
				if !ok || ix != id {
					continue
				}
				if _, mk := g.trace(VC{s.Val, m.ctx}).v.(*ssa.MakeChan); mk {
					st = m
				}
			}
			ix, isq := queueElem(g, ch)
			_, mk := ct.v.(*ssa.MakeChan)
			switch {
			case isq && ix != id:
				c.failN("queue|"+fnName(n.fn()), n, "worker "+id+" is started on the queue of worker "+ix)
				continue
			case !isq && !mk:
				c.undecided(n.posn(c.P))
				continue
			case st == nil:
				c.failN("fresh|"+fnName(n.fn()), n, "the worker is started without a fresh queue stored at its index")
				continue
			case mk && g.trace(VC{st.instr.(*ssa.Store).Val, st.ctx}) != ct:
				c.failN("queue|"+fnName(n.fn()), n, "the worker is started on another channel than the one stored at its index")
				continue
			}
			c.okN(n)
			if inLoop(n.instr.Block()) {
				poolLoop(c, g, n)
			}
		}
		// one start per fresh queue
		c.track(g, g.entry, &track{key: "start",
			ev: func(g *Graph, n *Node) []int {
				if isStart(g, n) {
					return []int{1}
				}
				return nil
			},
			step: func(g *Graph, n *Node, m marks) (marks, bool) {
				if s, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr {
					if _, isq := queueElem(g, VC{s.Addr, n.ctx}); isq {
						if m.has(0) && !m.has(1) {
							c.failN("unserved|"+fnName(n.fn()), n, "a queue is created without a worker that serves it")
						}
						m = m.clear(0).clear(1).set(0)
					}
				}
				return m, true
			},
			on: func(g *Graph, n *Node, i int, m marks) string {
				if m.has(1) {
					return "two workers serve the same queue"
				}
				if !m.has(0) {
					return "the worker is started before its queue is created"
				}
				return ""
			},
			end: func(g *Graph, n *Node, m marks) string {
				if n.kind == KExit && m.has(0) && !m.has(1) {
					return "a queue is created without a worker that serves it"
				}
				return ""
			}})
	})
}

func poolLoop(c *C, g *Graph, n *Node) {
	idx, _ := g.arg(n, 1)
	t := g.trace(idx)
	for {
		if cv, ok := t.v.(*ssa.Convert); ok {
			t = g.trace(VC{cv.X, t.c})
			continue
		}
		break
	}
	if _, ok := t.v.(*ssa.Extract); ok {
		return // a key of a map: not a counted loop
	}
	k, ok := counterOf(t.v)
	if !ok {
		c.undecided(n.posn(c.P))
		return
	}
	if !k.upFromZero() {
		if i, isc := constInt(k.init); isc && k.step == 1 && i+k.add == 0 && k.cont == token.LEQ {
			c.failN("pool|"+fnName(n.fn()), n, "the pool starts a worker with an index that equals its size")
			return
		}
		if i, isc := constInt(k.init); isc && (i+k.add != 0 && k.step == 1 || k.step != 1 && k.step != -1) {
			c.failN("pool|"+fnName(n.fn()), n, "the pool does not start a worker for every index below its size")
			return
		}
		c.undecided(n.posn(c.P))
		return
	}
	l := g.linEval(VC{k.limit, t.c}, nil)
	for s, v := range l {
		if strings.HasSuffix(s, ".WorkerPoolSize") && v == 1 {
			if d, isc := l.minus(lv(s)).isConst(); isc && d != 0 {
				c.failN("pool|"+fnName(n.fn()), n, "the pool does not start exactly one worker for every index below its size")
				return
			}
		}
	}
	c.okN(n)
}

// readerLoop: every request made from received bytes runs the chain once.
func readerLoop(c *C, T *types.Named, f *ssa.Function) {
	g := c.graph(f, nil)
	isExec := func(g *Graph, n *Node) bool {
		return (isCallNode(n) || isGo(n)) && strings.HasSuffix(g.callName(n), "IMsgHandle.Execute")
	}
	isReq := func(n *Node) bool {
		if !isCallNode(n) {
			return false
		}
		nm := g.callName(n)
		return nm == "znet.GetRequest" || nm == "znet.NewRequest" && n.ctx.fn.Name() != "GetRequest"
	}
	execs, reqs := 0, 0
	for _, n := range g.nodes {
		if isExec(g, n) && (n.kind == KInstr || n.kind == KDeferCall) {
			execs++
			if isGo(n) || spawnOf(n) != nil {
				c.failN(T.Obj().Name()+"|go", n, "the reader runs the chain in a goroutine of its own: later requests can overtake it")
			}
		}
		if isReq(n) {
			reqs++
		}
	}
	if execs == 0 {
		c.failF(T.Obj().Name()+"|never", f, "the reader never passes a request on")
		return
	}
	if reqs == 0 {
		c.undecided(fnName(f) + ": requests are made in an unknown way")
		return
	}
	// exact alternation
	type st = marks
	bad := map[string]bool{}
	r := &Rule{Init: st{}}
	say := func(n *Node, why string) {
		if !bad[why] {
			bad[why] = true
			c.failN(T.Obj().Name()+"|"+why, n, why)
		}
	}
	r.Node = func(g *Graph, n *Node, a Auto) Auto {
		m := a.(st)
		if spawnOf(n) != nil {
			return m
		}
		if isReq(n) {
			if m.has(0) {
				say(n, "a request is made and dropped: the chain is not run for it")
			}
			m = marks{}.set(0)
		}
		if isExec(g, n) {
			if !m.has(0) {
				say(n, "the chain is run twice for one request")
			}
			m = marks{}
		}
		return m
	}
	r.End = func(g *Graph, n *Node, a Auto, w func() []string) {
		if a.(st).has(0) && n.kind == KExit {
			say(g.root.entry, "a request is made and dropped: the reader ends before the chain is run for it")
		}
	}
	c.run(g, g.entry, r)
	if len(bad) == 0 {
		for i := 0; i < reqs; i++ {
			c.ok(fnName(f))
		}
	}
	// frames in order
	for _, n := range g.nodes {
		if !isReq(n) {
			continue
		}
		mv, _ := g.arg(n, 1)
		frameOrder(c, g, n, mv)
	}
}

// frameOrder: when the message is built from an element of a list of frames,
// the list is walked from its first element to its last.
func frameOrder(c *C, g *Graph, n *Node, msg VC) {
	var elem VC
	found := false
	for _, m := range g.nodes {
		if m.ctx != n.ctx || m.instr == nil || m.kind != KInstr {
			continue
		}
		if u, ok := m.instr.(*ssa.UnOp); ok && u.Op == token.MUL {
			if ia, ok := u.X.(*ssa.IndexAddr); ok && ia.X.Type().String() == "[][]byte" {
				if t := g.trace(msg); usesValue(g, t, VC{u, m.ctx}, 0) {
					elem, found = VC{ia, m.ctx}, true
				}
			}
		}
	}
	if !found {
		return
	}
	ia := elem.v.(*ssa.IndexAddr)
	k, ok := counterOf(ia.Index)
	if !ok {
		c.undecided(n.posn(c.P))
		return
	}
	if x, isl := isLen(k.limit); isl && k.upFromZero() && x == ia.X {
		c.okN(n)
		return
	}
	if k.step == 1 && k.cont == token.LSS || k.step == -1 {
		c.failN("order|"+fnName(n.fn()), n, "the frames of one read are not handled one after another from the first to the last")
		return
	}
	c.undecided(n.posn(c.P))
}

// usesValue: v is computed from x (through call arguments, conversions and
// slices).
func usesValue(g *Graph, v, x VC, d int) bool {
	if d > 6 || v.v == nil {
		return false
	}
	v = g.trace(v)
	if v == x {
		return true
	}
	switch t := v.v.(type) {
	case *ssa.MakeInterface:
		return usesValue(g, VC{t.X, v.c}, x, d+1)
	case *ssa.Slice:
		return usesValue(g, VC{t.X, v.c}, x, d+1)
	case *ssa.Call:
		for _, a := range t.Call.Args {
			if usesValue(g, VC{a, v.c}, x, d+1) {
				return true
			}
		}
	case *ssa.Alloc:
		for _, m := range g.nodes {
			if s, ok := m.instr.(*ssa.Store); ok && m.kind == KInstr {
				a := g.trace(VC{s.Addr, m.ctx})
				if fa, ok := a.v.(*ssa.FieldAddr); ok && g.trace(VC{fa.X, a.c}) == v && usesValue(g, VC{s.Val, m.ctx}, x, d+1) {
					return true
				}
			}
		}
	}
	return false
}

// workerAssigned: the field GetWorkerID reads.
func workerAssigned(c *C, T *types.Named) {
	get := c.P.methodOf(T, "GetWorkerID")
	start := c.P.methodOf(T, "Start")
	if get == nil || start == nil {
		c.missing(T.Obj().Name() + ".GetWorkerID/Start")
		return
	}
	gg := c.graph(get, nil)
	field := ""
	for _, r := range gg.root.rets {
		res := r.instr.(*ssa.Return).Results[0]
		v := VC{res, gg.root}
		if call, ok := gg.trace(v).v.(*ssa.Call); ok && atomicOn(gg, gg.trace(v), "") {
			v = VC{call.Call.Args[0], gg.trace(v).c}
		}
		_, f, _, ok := gg.fieldOf(v)
		if !ok {
			c.failF(T.Obj().Name()+"|GetWorkerID", get, "the connection's worker is not the one that was stored for it")
			return
		}
		field = f
	}
	name := T.Obj().Name()
	store := func(g *Graph, n *Node) (VC, bool) {
		if n.kind != KInstr {
			return VC{}, false
		}
		if s, ok := n.instr.(*ssa.Store); ok && g.isField(VC{s.Addr, n.ctx}, T, field) {
			if _, isfa := g.trace(VC{s.Addr, n.ctx}).v.(*ssa.FieldAddr); isfa {
				return VC{s.Val, n.ctx}, true
			}
		}
		if call, ok := n.instr.(*ssa.Call); ok && strings.Contains(calleeName(call), "sync/atomic.Store") && g.isField(VC{call.Call.Args[0], n.ctx}, T, field) {
			return VC{call.Call.Args[1], n.ctx}, true
		}
		return VC{}, false
	}
	startsReader := func(g *Graph, n *Node) bool {
		if !isGo(n) {
			return false
		}
		for _, f := range n.fns {
			if f.Name() == "StartReader" {
				return true
			}
		}
		for _, s := range n.spawn {
			for _, x := range g.ctxs {
				if x.fn.Name() == "StartReader" && ctxIn(x, s) {
					return true
				}
			}
		}
		return false
	}
	g := c.graph(start, nil)
	c.track(g, g.entry, &track{key: name + ".Start",
		ev: func(g *Graph, n *Node) []int {
			if _, ok := store(g, n); ok && spawnOf(n) == nil {
				return []int{0}
			}
			if startsReader(g, n) {
				return []int{1}
			}
			return nil
		},
		on: func(g *Graph, n *Node, i int, m marks) string {
			if i == 0 && m.has(1) {
				return "the connection's worker changes while its reader runs"
			}
			if i == 1 && !m.has(0) {
				return "the reader starts before the connection has a worker"
			}
			return ""
		}})
	for _, n := range g.nodes {
		if v, ok := store(g, n); ok {
			workerValue(c, g, n, v)
		}
	}
	// no other store on a connection in use
	for _, f := range c.P.Roots("znet") {
		if f == start {
			continue
		}
		h := c.graph(f, nil)
		for _, n := range h.nodes {
			if _, ok := store(h, n); ok {
				_, _, b, _ := h.fieldOf(VC{n.instr.(*ssa.Store).Addr, n.ctx})
				if h.isFresh(b) || ctxHas(n.ctx, start) {
					continue
				}
				c.failN(name+"|reassigned|"+fnName(f), n, "the connection's worker can change while its reader runs")
			}
		}
	}
}

func ctxIn(x, anc *Ctx) bool {
	for ; x != nil; x = x.parent {
		if x == anc {
			return true
		}
	}
	return false
}

func ctxHas(x *Ctx, f *ssa.Function) bool {
	for ; x != nil; x = x.parent {
		if x.fn == f {
			return true
		}
	}
	return false
}

// workerValue: every value a worker id may take names a worker that exists.
func workerValue(c *C, g *Graph, n *Node, v VC) {
	seen := map[VC]bool{}
	var walk func(v VC, depth int)
	walk = func(v VC, depth int) {
		v = g.trace(v)
		if seen[v] || depth > 12 {
			return
		}
		seen[v] = true
		switch x := v.v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(VC{e, v.c}, depth+1)
			}
			return
		case *ssa.Convert:
			walk(VC{x.X, v.c}, depth+1)
			return
		case *ssa.Call:
			for _, k := range g.calls[callKey{v.c, x}] {
				for _, r := range k.rets {
					if ret := r.instr.(*ssa.Return); len(ret.Results) > 0 {
						walk(VC{ret.Results[0], k}, depth+1)
					}
				}
			}
			return
		case *ssa.UnOp:
			if x.Op == token.MUL {
				a := g.trace(VC{x.X, v.c})
				if _, ok := a.v.(*ssa.Alloc); ok {
					for _, s := range g.stores[a] {
						walk(s, depth+1)
					}
					return
				}
			}
		case *ssa.Const:
			c.okN(n)
			return
		case *ssa.Extract:
			if nx, ok := x.Tuple.(*ssa.Next); ok && x.Index == 1 {
				_ = nx
				c.okN(n)
				return
			}
		case *ssa.BinOp:
			l := g.linEval(v, nil)
			for s, k := range l {
				if k == 1 && strings.Contains(s, "%") && strings.HasSuffix(s, ".WorkerPoolSize)") {
					if d, isc := l.minus(lv(s)).isConst(); isc && d != 0 {
						c.failN("range|"+fnName(v.c.fn), n, "a connection can be assigned a worker that does not exist")
						return
					}
					c.okN(n)
					return
				}
			}
			if x.Op == token.REM {
				if l := g.linEval(VC{x.Y, v.c}, nil); len(l) > 1 || strings.Contains(l.String(), "len(") && strings.Contains(l.String(), "TaskQueue") {
					for s := range l {
						if strings.HasSuffix(s, ".WorkerPoolSize") || strings.HasSuffix(s, ".TaskQueue)") {
							c.failN("range|"+fnName(v.c.fn), n, "a connection can be assigned a worker that does not exist")
							return
						}
					}
				}
			}
		}
		c.undecided(n.posn(c.P))
	}
	walk(v, 0)
}

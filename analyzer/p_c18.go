package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", func(c *C) {
		ts := connKinds(c)
		c.Rule("exclusive", "Every write or flush to the transport of a TCP or websocket connection happens with a lock of that connection held exclusively, the same lock at every such place (a KCP session orders whole writes itself)")
		for _, t := range ts {
			if !t.selfLocking() {
				wireLocks(c, t)
			}
		}
		c.atLeast(2, "locked writes")
		c.Rule("order", "Where frames are buffered, a direct write to the transport comes after a flush of the buffer in the same critical section, with nothing buffered in between")
		c.Rule("report", "A sending function writes the bytes it was given once, whole, and reports success only on paths on which that write succeeded")
		for _, t := range ts {
			wireWrites(c, t)
		}
		c.atLeast(3, "transport writes")
		c.Rule("packed", "A message is packed with exactly the identifier and data given, what is sent is the packed result, and a failure to pack is returned and nothing is sent")
		for _, t := range ts {
			for _, m := range []string{"SendMsg", "SendBuffMsg"} {
				if f := t.method(c, m); f != nil {
					wirePacked(c, t, f)
				}
			}
		}
		c.atLeast(6, "packing functions")
		c.Rule("queue", "The writer writes each datum it receives from the queue, that datum, once, itself and before it receives the next one")
		c.Rule("flush", "What the writer buffers is flushed before it waits again, or on a recurring tick")
		for _, t := range ts {
			wireQueue(c, t)
		}
		c.Rule("queue", "")
		c.atLeast(3, "queue receptions")
	})
}

// selfLocking: the transport's Write is atomic by itself.
func (t *connT) selfLocking() bool {
	s := t.T.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == t.conn {
			return strings.Contains(s.Field(i).Type().String(), "kcp")
		}
	}
	return false
}

func wireOut(op string) bool { return op == "write" || op == "bufwrite" || op == "flush" }

func wireLocks(c *C, t *connT) {
	type site struct {
		n   *Node
		cls map[string]bool
	}
	var sites []site
	bad := map[token.Pos]bool{}
	lp := &lockPass{c: c, orders: map[[2]string]string{}, lockSites: map[token.Pos]bool{}}
	lp.onNode = func(g *Graph, n *Node, h held) {
		op, _ := t.io(g, n)
		if !wireOut(op) {
			return
		}
		recv, _ := g.arg(n, 0)
		if _, _, b, ok := g.fieldOf(recv); ok && g.isFresh(b) {
			return
		}
		base := g.baseOf(recv)
		cls := map[string]bool{}
		shared := ""
		for _, l := range h.m {
			if l.base != base {
				continue
			}
			if l.mode == 'W' {
				cls[l.cls] = true
			} else {
				shared = l.cls
			}
		}
		if len(cls) == 0 {
			if !bad[n.instr.Pos()] {
				bad[n.instr.Pos()] = true
				why := "bytes go to the transport without an exclusive lock: frames of two senders can interleave"
				if shared != "" {
					why += " (" + shared + " is only held shared)"
				}
				c.failN("unlocked|"+t.name+"|"+fnName(n.fn()), n, why)
			}
			return
		}
		sites = append(sites, site{n, cls})
	}
	lp.onProblem = func(g *Graph, n *Node, kind, lock string, path []string) {}
	lp.sweep(c.P.Roots("znet"), nil)
	if len(sites) == 0 {
		if len(bad) == 0 {
			c.missing(t.name + ": writes to the transport")
		}
		return
	}
	all := map[string]int{}
	for _, s := range sites {
		for l := range s.cls {
			all[l]++
		}
	}
	for _, s := range sites {
		c.okN(s.n)
	}
	for _, k := range all {
		if k == len(sites) {
			return
		}
	}
	// the lock most of them use; the others are reported
	best := ""
	for l, k := range all {
		if best == "" || k > all[best] || (k == all[best] && l < best) {
			best = l
		}
	}
	for _, s := range sites {
		if !s.cls[best] {
			c.failN("otherlock|"+t.name+"|"+fnName(s.n.fn()), s.n, "bytes go to the transport under another lock than "+best+", which the other writes hold: frames can interleave")
			return
		}
	}
}

const (
	wFlushed = iota // buffer flushed in this critical section, nothing buffered since
	wWrote          // the data was written
	wErrNil         // ... and the write succeeded
	wErr            // ... or failed
	wPend           // written into the buffer since the last flush
	wClosed
	wEmpty
	wPackOK
	wFErr // an earlier transport operation failed
)

// ioErr: the value is the error of the transport operation of a node.
func (t *connT) ioErr(g *Graph, v VC) string {
	w := g.trace(v)
	ex, ok := w.v.(*ssa.Extract)
	var call *ssa.Call
	if ok {
		call, _ = ex.Tuple.(*ssa.Call)
	} else {
		call, _ = w.v.(*ssa.Call)
	}
	if call == nil {
		return ""
	}
	for _, n := range g.nodes {
		if n.instr == ssa.Instruction(call) && n.ctx == w.c && n.kind == KInstr {
			op, _ := t.io(g, n)
			return op
		}
	}
	return ""
}

func wireWrites(c *C, t *connT) {
	buffered := false
	c.rootsReaching([]string{"znet"}, nil, func(g *Graph, n *Node) bool {
		op, _ := t.io(g, n)
		if op == "bufwrite" {
			buffered = true
		}
		return false
	}, nil)
	hit := func(g *Graph, n *Node) bool {
		op, _ := t.io(g, n)
		return wireOut(op)
	}
	c.rootsReaching([]string{"znet"}, nil, hit, func(g *Graph, hits []*Node) {
		f := g.root.fn
		recv := f.Signature.Recv()
		own := recv != nil && typeIs(recv.Type(), t.name)
		// a function that is given the bytes to send
		giv := -1
		direct := false
		for _, h := range hits {
			direct = direct || spawnOf(h) == nil
		}
		own = own && direct
		if own && f.Signature.Results().Len() == 1 && isError(f.Signature.Results().At(0).Type()) && f.Signature.Params().Len() == 1 && isBytes(f.Signature.Params().At(0).Type()) {
			giv = 1
		}
		msg := own && giv < 0 && f.Signature.Results().Len() == 1 && isError(f.Signature.Results().At(0).Type()) && f.Signature.Params().Len() > 1
		flushOnly := own && giv < 0 && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && isError(f.Signature.Results().At(0).Type())
		key := t.name + "." + f.Name()
		reported := map[string]bool{}
		rep := func(rule string, n *Node, k, why string) {
			if !reported[k] {
				reported[k] = true
				c.Rule(rule, "")
				c.failN(k+"|"+key, n, why)
			}
		}
		starts := []*Node{g.entry}
		for _, s := range g.spawns {
			starts = append(starts, s.entry)
		}
		for si, st := range starts {
			judge := si == 0
			tr := &track{key: key}
			tr.ev = func(g *Graph, n *Node) []int { return nil }
			tr.step = func(g *Graph, n *Node, m marks) (marks, bool) {
				m.twice = 0
				if l, ok := g.lockOp(n); ok && (l.op == "Unlock" || l.op == "RUnlock" || l.op == "Lock" || l.op == "RLock") {
					m = m.clear(wFlushed)
				}
				op, di := t.io(g, n)
				switch op {
				case "flush":
					m = m.set(wFlushed).clear(wPend)
					if flushOnly {
						m = m.set(wWrote)
					}
					return m, true
				case "bufwrite":
					m = m.clear(wFlushed).set(wPend)
				case "write":
					if buffered && t.bufw != "" {
						if !m.has(wFlushed) {
							rep("order", n, "unflushed", "a frame is written past the buffer, which may hold earlier bytes: frames interleave or change order")
						} else {
							c.Rule("order", "")
							c.okN(n)
						}
					}
				default:
					if ret, ok := n.instr.(*ssa.Return); ok && n.kind == KInstr && n.ctx == g.root && judge && (giv > 0 || flushOnly || msg) {
						k, v := g.errAt(VC{ret.Results[0], n.ctx}, tr.e)
						c.Rule("report", "")
						what := "write"
						if flushOnly {
							what = "flush"
						}
						switch {
						case k == 'N':
							c.okN(n)
						case k == 0 && t.ioErr(g, v) != "" && (flushOnly || t.ioErr(g, v) != "flush" || m.has(wErrNil)):
							c.okN(n) // the outcome itself
						case k == 0 && (t.ioErr(g, v) == "flush" && m.has(wFErr) || t.ioErr(g, v) != "" && m.has(wErr)):
							c.okN(n)
						case k == 0 && t.ioErr(g, v) == "" && !(isPackErr(g, v) && m.has(wPackOK)):
							if !m.has(wErrNil) {
								c.undecided(n.posn(c.P))
							}
						case m.has(wErr) || m.has(wFErr):
							rep("report", n, "failed", "a failed "+what+" is reported as success")
						case !m.has(wWrote) && m.has(wEmpty):
						case !m.has(wWrote):
							rep("report", n, "notsent", "success is reported although nothing was sent")
						case !m.has(wErrNil):
							rep("report", n, "unchecked", "success is reported whatever the "+what+" said")
						default:
							c.okN(n)
						}
					}
					return m, true
				}
				if giv < 0 || !judge {
					m = m.set(wWrote).clear(wErr).clear(wErrNil)
					return m, true
				}
				// the data
				c.Rule("report", "")
				v, _ := g.arg(n, di)
				w, _ := g.resolve1(v, tr.e)
				w = g.trace(w)
				switch {
				case g.sym(w) == g.psym(1):
					if m.has(wWrote) && !m.has(wErr) {
						rep("report", n, "twice", "the data is written twice")
						return m, false
					}
					c.okN(n)
				default:
					if sl, ok := w.v.(*ssa.Slice); ok {
						b, _ := g.resolve1(VC{sl.X, w.c}, tr.e)
						if g.sym(g.trace(b)) == g.psym(1) && !(sl.Low == nil && sl.High == nil) && !loops(n) {
							rep("report", n, "part", "only a part of the data is written")
							return m, false
						}
					}
					if loops(n) {
						c.undecided(n.posn(c.P))
					} else if k, isc := w.v.(*ssa.Const); isc && k != nil {
						rep("report", n, "other", "something else than the data given is written")
					} else {
						c.undecided(n.posn(c.P))
					}
				}
				m = m.set(wWrote)
				m.twice = 0
				m = m.clear(wErr).clear(wErrNil)
				return m, true
			}
			tr.edge = func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
				for _, a := range at {
					if v, isnil, ok := a.nilness(); ok {
						w, _ := g.resolve1(v, tr.e)
						if isPackErr(g, w) && isnil {
							m = m.set(wPackOK)
						}
						switch t.ioErr(g, w) {
						case "":
						case "flush":
							if flushOnly {
								if isnil {
									m = m.set(wErrNil)
								} else {
									m = m.set(wErr)
								}
							} else if !isnil {
								m = m.set(wFErr)
							}
						default:
							if isnil {
								m = m.set(wErrNil).clear(wErr)
							} else {
								m = m.set(wErr).clear(wErrNil)
							}
						}
					}
					if lenZero(g, a) {
						m = m.set(wEmpty)
					}
				}
				m.twice = 0
				return m, true
			}
			c.track(g, st, tr)
		}
	})
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// lenZero: the branch decided that something has no elements.
func lenZero(g *Graph, a Atom) bool {
	if call, ok := g.trace(a.X).v.(*ssa.Call); ok {
		if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && a.SY == "#0" && a.Op == token.EQL {
			return true
		}
	}
	if v, isnil, ok := a.nilness(); ok && isnil && isBytes(v.v.Type()) {
		return true
	}
	return false
}

// loops: the node can be reached again from itself.
func loops(n *Node) bool {
	seen := map[*Node]bool{}
	st := []*Node{n}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		for _, e := range x.succ {
			if e.to == n {
				return true
			}
			if !seen[e.to] {
				seen[e.to] = true
				st = append(st, e.to)
			}
		}
	}
	return false
}

// isPackErr: the value is the error of a call of Pack.
func isPackErr(g *Graph, v VC) bool {
	ex, ok := g.trace(v).v.(*ssa.Extract)
	if !ok || ex.Index != 1 {
		return false
	}
	call, ok := ex.Tuple.(*ssa.Call)
	return ok && call.Call.IsInvoke() && call.Call.Method.Name() == "Pack"
}

func isPackCall(g *Graph, n *Node) bool {
	if !isCallNode(n) {
		return false
	}
	cc := n.instr.(ssa.CallInstruction).Common()
	return cc.IsInvoke() && cc.Method.Name() == "Pack" && cc.Signature().Params().Len() == 1
}

func wirePacked(c *C, t *connT, f *ssa.Function) {
	g := c.graph(f, nil)
	key := t.name + "." + f.Name()
	M := c.needType("zpack", "Message")
	if M == nil {
		return
	}
	reported := map[string]bool{}
	rep := func(n *Node, k, why string) {
		if !reported[k] {
			reported[k] = true
			c.failN(k+"|"+key, n, why)
		}
	}
	var ID, Len, Data string
	st := M.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch {
		case isBytes(st.Field(i).Type()) && strings.EqualFold(st.Field(i).Name(), "data"):
			Data = st.Field(i).Name()
		case strings.EqualFold(st.Field(i).Name(), "id"):
			ID = st.Field(i).Name()
		case strings.Contains(strings.ToLower(st.Field(i).Name()), "len"):
			Len = st.Field(i).Name()
		}
	}
	if ID == "" || Len == "" || Data == "" {
		c.missing("Message fields")
		return
	}
	packed := false
	const (
		pPacked = iota
		pErr
		pOK
	)
	var cur env
	isPacked := func(v VC, e env) (bool, bool) {
		w, _ := g.resolve1(v, e)
		w = g.trace(w)
		ex, ok := w.v.(*ssa.Extract)
		if !ok {
			_, isp := w.v.(*ssa.Parameter)
			_, issl := w.v.(*ssa.Slice)
			return false, isp || issl
		}
		call, ok := ex.Tuple.(*ssa.Call)
		return ok && ex.Index == 0 && call.Call.IsInvoke() && call.Call.Method.Name() == "Pack", true
	}
	out := func(n *Node, v VC, s ostate, e env) {
		if !s.has(pPacked) {
			rep(n, "raw", "data is sent that was not packed")
			return
		}
		if ok, known := isPacked(v, e); !ok {
			if known {
				rep(n, "other", "what is sent is not the packed message")
			} else {
				c.undecided(n.posn(c.P))
			}
			return
		}
		if !s.has(pOK) {
			rep(n, "packerr", "data is sent although packing may have failed")
			return
		}
		c.okN(n)
	}
	c.objPaths(g, M, nil, func(n *Node, s ostate, e env) (ostate, bool) {
		cur = e
		if isPackCall(g, n) {
			if s.has(pPacked) && !loops(n) {
				c.undecided(n.posn(c.P))
			}
			packed = true
			v, _ := g.arg(n, 1)
			_, o := g.objOf(v, e)
			id, ok1 := s.f[o+"|"+ID]
			ln, ok2 := s.f[o+"|"+Len]
			d, ok3 := s.f[o+"|"+Data]
			if !ok1 || !ok2 || !ok3 {
				c.undecided(n.posn(c.P) + " " + o)
			} else {
				if id != g.psym(1) {
					rep(n, "id", "the message is packed with another identifier than the one given: "+id)
				}
				if d != g.psym(2) {
					rep(n, "data", "the message is packed with other data than the data given: "+d)
				}
				if !strings.Contains(ln, "len("+g.psym(2)+")") || strings.ContainsAny(strings.ReplaceAll(ln, g.psym(2), ""), "+-*/") {
					rep(n, "length", "the message is packed with another length than that of the data given: "+ln)
				}
				c.okN(n)
			}
			s.marks = s.marks.set(pPacked)
			s.marks.twice = 0
		}
		if op, di := t.io(g, n); op == "write" || op == "bufwrite" {
			v, _ := g.arg(n, di)
			out(n, v, s, e)
		}
		if sd, ok := n.instr.(*ssa.Send); ok && n.kind == KInstr && g.isField(VC{sd.Chan, n.ctx}, t.T, t.queue) {
			out(n, VC{sd.X, n.ctx}, s, e)
		}
		if sel, ok := n.instr.(*ssa.Select); ok && n.kind == KInstr {
			for _, x := range sel.States {
				if x.Dir == types.SendOnly && g.isField(VC{x.Chan, n.ctx}, t.T, t.queue) {
					out(n, VC{x.Send, n.ctx}, s, e)
				}
			}
		}
		if ret, ok := n.instr.(*ssa.Return); ok && n.kind == KInstr && n.ctx == g.root && len(ret.Results) == 1 {
			k, _ := g.errAt(VC{ret.Results[0], n.ctx}, e)
			if s.has(pErr) && k == 'n' {
				rep(n, "silent", "a failure to pack is reported as success")
			}
		}
		return s, true
	}, func(n *Node, s ostate, at []Atom) (ostate, bool) {
		for _, a := range at {
			if v, isnil, ok := a.nilness(); ok {
				w, _ := g.resolve1(v, cur)
				if isPackErr(g, w) {
					if isnil {
						s.marks = s.marks.set(pOK)
					} else {
						s.marks = s.marks.set(pErr)
					}
				}
			}
		}
		s.marks.twice = 0
		return s, true
	}, nil)
	if !packed {
		c.undecided(key + ": no packing")
	}
}

func wireQueue(c *C, t *connT) {
	hit := func(g *Graph, n *Node) bool {
		switch x := n.instr.(type) {
		case *ssa.Select:
			for _, s := range x.States {
				if s.Dir == types.RecvOnly && g.isField(VC{s.Chan, n.ctx}, t.T, t.queue) {
					return true
				}
			}
		case *ssa.UnOp:
			return x.Op == token.ARROW && g.isField(VC{x.X, n.ctx}, t.T, t.queue)
		}
		return false
	}
	found := false
	doneAt := map[token.Pos]bool{}
	c.rootsReaching([]string{"znet"}, nil, hit, func(g *Graph, hits []*Node) {
		// one start per function or goroutine the receptions are in
		starts := map[*Node]bool{}
		for _, h := range hits {
			if doneAt[h.instr.Pos()] {
				continue
			}
			doneAt[h.instr.Pos()] = true
			if s := spawnOf(h); s != nil {
				starts[s.entry] = true
			} else {
				starts[g.entry] = true
			}
		}
		for st := range starts {
			found = true
			wireWriter(c, t, g, st, hit)
		}
	})
	c.Rule("queue", "")
	if !found {
		c.missing(t.name + ": reception from the queue")
	}
}

func wireWriter(c *C, t *connT, g *Graph, st *Node, recvs func(g *Graph, n *Node) bool) {
	const (
		have   = 10 + iota // a datum was received and not yet written
		tick               // a tick was taken and no flush done since
		noTick             // the select waited on has no recurring tick
	)
	reported := map[string]bool{}
	rep := func(rule string, n *Node, k, why string) {
		if !reported[k+n.posn(c.P)] {
			reported[k+n.posn(c.P)] = true
			c.Rule(rule, "")
			c.failN(k+"|"+t.name+"|"+fnName(n.fn()), n, why)
		}
	}
	drop := func(n *Node, m marks) bool {
		if m.has(have) && !m.has(wClosed) && !m.has(wFErr) && !m.has(wEmpty) {
			rep("queue", n, "dropped", "a datum received from the queue is not written (by the writer itself) before the next one is received or the writer goes on")
			return true
		}
		return false
	}
	tr := &track{key: t.name}
	tr.ev = func(g *Graph, n *Node) []int { return nil }
	isDatum := func(v VC, e env) bool {
		w, _ := g.resolve1(v, e)
		w = g.trace(w)
		switch x := w.v.(type) {
		case *ssa.Extract:
			switch y := x.Tuple.(type) {
			case *ssa.Select:
				return x.Index >= 2
			case *ssa.UnOp:
				return y.Op == token.ARROW && x.Index == 0 && g.isField(VC{y.X, w.c}, t.T, t.queue)
			}
		case *ssa.UnOp:
			return x.Op == token.ARROW && g.isField(VC{x.X, w.c}, t.T, t.queue)
		}
		return false
	}
	tr.step = func(g *Graph, n *Node, m marks) (marks, bool) {
		m.twice = 0
		if n.kind == KInstr && recvs(g, n) {
			if drop(n, m) {
				return m, false
			}
			c.Rule("flush", "")
			if m.has(tick) {
				rep("flush", n, "tick", "the tick that should flush what is buffered does not")
				return m, false
			}
			if m.has(wPend) {
				if !recurring(g, n) {
					rep("flush", n, "never", "the writer waits for more with bytes left in the buffer, and nothing flushes them")
					return m, false
				}
				c.okN(n)
			}
			m = m.clear(have).clear(wClosed).clear(wFErr).clear(wEmpty).clear(wErr)
			if u, ok := n.instr.(*ssa.UnOp); ok {
				c.Rule("queue", "")
				c.okN(n)
				_ = u
				m = m.set(have)
			}
			return m, true
		}
		op, di := t.io(g, n)
		switch op {
		case "flush":
			m = m.clear(wPend).clear(tick)
		case "write", "bufwrite":
			v, _ := g.arg(n, di)
			switch {
			case !isDatum(v, tr.e):
				w, _ := g.resolve1(v, tr.e)
				if _, sl := g.trace(w).v.(*ssa.Slice); sl && !loopsWithin(n) {
					rep("queue", n, "part", "the writer writes only a part of what it received")
					return m, false
				}
				c.undecided(n.posn(c.P))
			case !m.has(have):
				rep("queue", n, "again", "a datum received from the queue is written a second time")
				return m, false
			}
			m = m.clear(have)
			if op == "bufwrite" {
				m = m.set(wPend)
			}
		}
		return m, true
	}
	tr.edge = func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
		if sel, k, x, ok := selCase(g, at); ok {
			s := sel.States[k]
			switch {
			case s.Dir == types.RecvOnly && g.isField(VC{s.Chan, x}, t.T, t.queue):
				m = m.set(have)
				c.Rule("queue", "")
				c.okN(n)
			case s.Dir == types.RecvOnly && g.isTimerChan(VC{s.Chan, x}) && m.has(wPend):
				m = m.set(tick)
			case g.isDone(VC{s.Chan, x}):
				m = m.set(wClosed)
			}
		}
		if set, _, ok := t.flagTest(g, at); ok {
			if set {
				m = m.set(wClosed)
			}
		} else if cl, ok := closedTest(g, at); ok && cl {
			m = m.set(wClosed)
		}
		for _, a := range at {
			if a.Op == 0 && !a.Val {
				x := g.trace(a.X)
				if ex, ok := x.v.(*ssa.Extract); ok && ex.Index == 1 {
					switch y := ex.Tuple.(type) {
					case *ssa.Select:
						m = m.clear(have)
					case *ssa.UnOp:
						if y.Op == token.ARROW {
							m = m.clear(have)
						}
					}
				}
			}
			if v, isnil, ok := a.nilness(); ok {
				w, _ := g.resolve1(v, tr.e)
				if op := t.ioErr(g, w); op != "" && !isnil {
					m = m.set(wFErr).clear(wPend).clear(tick)
				}
			}
			if lenZero(g, a) {
				m = m.set(wEmpty)
			}
		}
		m.twice = 0
		return m, true
	}
	tr.end = func(g *Graph, n *Node, m marks) string {
		if normalEnd(n) {
			drop(g.root.entry, m)
		}
		return ""
	}
	c.track(g, st, tr)
}

// loopsWithin: the write repeats without a reception in between.
func loopsWithin(n *Node) bool {
	seen := map[*Node]bool{}
	st := []*Node{n}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		for _, e := range x.succ {
			if e.to == n {
				return true
			}
			if seen[e.to] {
				continue
			}
			seen[e.to] = true
			if e.to.kind == KInstr {
				if _, ok := e.to.instr.(*ssa.Select); ok {
					continue
				}
				if u, ok := e.to.instr.(*ssa.UnOp); ok && u.Op == token.ARROW {
					continue
				}
			}
			st = append(st, e.to)
		}
	}
	return false
}

// recurring: the select has a case on a ticker, a fresh timer, or a timer that
// is reset.
func recurring(g *Graph, n *Node) bool {
	sel, ok := n.instr.(*ssa.Select)
	if !ok {
		return false
	}
	for _, s := range sel.States {
		if s.Dir != types.RecvOnly {
			continue
		}
		ch := g.trace(VC{s.Chan, n.ctx})
		if !g.isTimerChan(ch) {
			continue
		}
		if _, ok := ch.v.(*ssa.Call); ok {
			return true // time.After or time.Tick
		}
		T, _, base, ok := g.fieldOf(ch)
		if !ok {
			continue
		}
		if T.Obj().Name() == "Ticker" {
			return true
		}
		// a Timer: created in the loop, or reset somewhere
		b := g.trace(base)
		for _, m := range g.nodes {
			if isCallNode(m) && g.callName(m) == "(*time.Timer).Reset" {
				return true
			}
			if m.instr != nil && m.kind == KInstr {
				if v, ok := m.instr.(ssa.Value); ok && v == b.v && m.ctx == b.c && loops(m) {
					return true
				}
			}
		}
	}
	return false
}

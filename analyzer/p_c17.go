package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", func(c *C) {
		ts := connKinds(c)
		c.Rule("create", "The queue of a connection is created only inside a sync.Once, or with a lock held exclusively after seeing that there is none; together with it exactly one writer is started, and a writer is started nowhere else")
		for _, t := range ts {
			queueCreate(c, t)
		}
		c.atLeast(3, "queue creations")
		c.Rule("send", "Every send into the queue happens after the queue was created, is bounded by a timer or does not wait at all, and follows a look at whether the connection is closed; where the queue is ever closed, look and send are one critical section of the lock under which it is closed")
		c.Rule("close", "The queue is closed at most once, only when there is one, with a lock held exclusively, and before that lock is released the connection is marked closed")
		for _, t := range ts {
			queueUse(c, t)
		}
		c.Rule("send", "")
		c.atLeast(3, "sends into a queue")
		c.Rule("report", "A queued send returns no error only when the data was put into the queue; on a closed connection every send returns an error and touches neither queue nor socket")
		for _, t := range ts {
			for _, m := range []string{"SendToQueue", "SendBuffMsg", "Send", "SendMsg"} {
				if f := t.method(c, m); f != nil {
					sendReport(c, t, f)
				}
			}
		}
		c.atLeast(12, "sending functions")
	})
}

// inOnce: the node runs inside a sync.Once.Do of the same object.
func inOnce(n *Node) bool {
	for x := n.ctx; x != nil; x = x.parent {
		if x.site != nil && isOnceDo(x.site) {
			return true
		}
	}
	return false
}

// isWriter: the goroutine body receives from the queue.
func (t *connT) isWriter(g *Graph, k *Ctx) bool {
	return g.subtree(k, func(m *Node) bool {
		switch x := m.instr.(type) {
		case *ssa.Select:
			for _, s := range x.States {
				if s.Dir == types.RecvOnly && g.isField(VC{s.Chan, m.ctx}, t.T, t.queue) {
					return true
				}
			}
		case *ssa.UnOp:
			return x.Op == token.ARROW && g.isField(VC{x.X, m.ctx}, t.T, t.queue)
		}
		return false
	})
}

// qstate: what a path knows about the queue.
type qstate struct {
	marks
	h held
}

func (s qstate) Key() string { return s.marks.Key() + s.h.Key() }

const (
	qMade   = iota // created on this path
	qWriter        // writer started on this path
	qNil           // seen to be nil since the lock was taken
	qSome          // known to exist
	qOpen          // connection seen open (since the lock was taken, if one is held)
	qClosed        // connection seen closed
	qShut          // queue closed on this path
	qFlag          // closed flag set on this path
	qFree          // connection seen open, at some time
)

func (t *connT) objLocks(h held, mode byte) []string {
	var out []string
	for _, l := range h.m {
		if strings.HasPrefix(l.cls, t.name+".") || strings.Contains(l.cls, "."+t.name+".") || strings.Contains(l.cls, t.name) {
			if mode == 0 || l.mode == mode {
				out = append(out, l.cls)
			}
		}
	}
	return out
}

// queuePaths runs f with lock and queue knowledge along every path from the
// entry and every goroutine of g.
func (t *connT) queuePaths(c *C, g *Graph, start *Node, f func(n *Node, s qstate, e env) (qstate, bool), end func(n *Node, s qstate)) {
	r := &Rule{Init: qstate{}}
	r.NodeE = func(g *Graph, n *Node, a Auto, e env) Auto {
		s := a.(qstate)
		if l, ok := g.lockOp(n); ok {
			switch l.op {
			case "Lock", "RLock":
				mode := byte('W')
				if l.op == "RLock" {
					mode = 'R'
				}
				s.h = s.h.with(l.name, heldLock{mode: mode, cls: l.cls, base: l.base})
				// what was seen before may have changed
				if len(t.objLocks(held{map[string]heldLock{"": {cls: l.cls, mode: mode}}}, 0)) > 0 {
					s.marks = s.marks.clear(qNil).clear(qOpen)
				}
			case "Unlock", "RUnlock":
				if s2, ok := f(n, s, e); ok {
					s = s2
				} else {
					return nil
				}
				s.h = s.h.without(l.name)
				if len(t.objLocks(held{map[string]heldLock{"": {cls: l.cls}}}, 0)) > 0 {
					s.marks = s.marks.clear(qNil).clear(qOpen)
				}
				return s
			}
		}
		s, ok := f(n, s, e)
		if !ok {
			return nil
		}
		if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr && g.isField(VC{st.Addr, n.ctx}, t.T, t.queue) {
			if _, mk := g.trace(VC{st.Val, n.ctx}).v.(*ssa.MakeChan); mk {
				s.marks = s.marks.set(qMade).set(qSome).clear(qNil)
			}
		}
		if isCallNode(n) && isOnceDo(n.instr.(ssa.CallInstruction)) {
			// either way the queue exists afterwards, if the once is the one that makes it
			for _, k := range n.callees {
				if g.subtree(k, func(m *Node) bool {
					st, ok := m.instr.(*ssa.Store)
					return ok && m.kind == KInstr && g.isField(VC{st.Addr, m.ctx}, t.T, t.queue)
				}) {
					s.marks = s.marks.set(qSome)
				}
			}
		}
		if t.setsFlag(g, n) {
			s.marks = s.marks.set(qFlag)
		}
		s.marks.twice = 0
		return s
	}
	r.Edge = func(g *Graph, n *Node, a Auto, at []Atom) Auto {
		s := a.(qstate)
		if isnil, ok := t.nilField(g, at, t.queue); ok {
			if isnil {
				if s.has(qMade) {
					return nil
				}
				s.marks = s.marks.set(qNil)
			} else {
				s.marks = s.marks.set(qSome)
			}
		}
		if isnil, ok := t.nilField(g, at, t.ctx); ok && isnil {
			return nil // set by every constructor
		}
		if set, won, ok := t.flagTest(g, at); ok {
			switch {
			case won:
				s.marks = s.marks.set(qFlag)
			case set:
				s.marks = s.marks.set(qClosed)
			default:
				s.marks = s.marks.set(qOpen).set(qFree)
			}
		} else if cl, ok := closedTest(g, at); ok {
			if cl {
				s.marks = s.marks.set(qClosed)
			} else {
				s.marks = s.marks.set(qOpen).set(qFree)
			}
		}
		if sel, k, x, ok := selCase(g, at); ok {
			if g.isDone(VC{sel.States[k].Chan, x}) {
				s.marks = s.marks.set(qClosed)
			}
			if t.selGraph == g && sel.States[k].Dir == types.SendOnly && g.isField(VC{sel.States[k].Chan, x}, t.T, t.queue) {
				s.marks = s.marks.set(t.selSent)
			}
		}
		s.marks.twice = 0
		return s
	}
	if end != nil {
		r.End = func(g *Graph, n *Node, a Auto, w func() []string) { end(n, a.(qstate)) }
	}
	c.run(g, start, r)
}

func queueCreate(c *C, t *connT) {
	made := map[string]bool{}
	hit := func(g *Graph, n *Node) bool {
		if st, ok := n.instr.(*ssa.Store); ok {
			return g.isField(VC{st.Addr, n.ctx}, t.T, t.queue)
		}
		if _, ok := n.instr.(*ssa.Go); ok && n.kind == KInstr {
			for _, k := range n.spawn {
				if t.isWriter(g, k) {
					return true
				}
			}
		}
		return false
	}
	once := map[token.Pos]bool{}
	c.rootsReaching([]string{"znet"}, nil, hit, func(g *Graph, hits []*Node) {
		starts := []*Node{g.entry}
		for _, s := range g.spawns {
			starts = append(starts, s.entry)
		}
		for _, st := range starts {
			reported := map[string]bool{}
			rep := func(n *Node, k, why string) {
				if !reported[k+n.posn(c.P)] {
					reported[k+n.posn(c.P)] = true
					c.failN(k+"|"+t.name+"|"+fnName(n.fn()), n, why)
				}
			}
			t.queuePaths(c, g, st, func(n *Node, s qstate, e env) (qstate, bool) {
				if s0, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr && g.isField(VC{s0.Addr, n.ctx}, t.T, t.queue) {
					_, _, base, _ := g.fieldOf(VC{s0.Addr, n.ctx})
					v := g.trace(VC{s0.Val, n.ctx})
					if k, isc := v.v.(*ssa.Const); isc && k.Value == nil {
						if !g.isFresh(base) {
							rep(n, "dropped", "the queue of a connection is taken away: a second one is created later")
						}
						return s, true
					}
					if _, mk := v.v.(*ssa.MakeChan); !mk {
						c.undecided(n.posn(c.P))
						return s, true
					}
					switch {
					case g.isFresh(base):
						c.okN(n)
					case inOnce(n):
						once[n.instr.Pos()] = true
						c.okN(n)
					case s.has(qMade):
						rep(n, "twice", "the queue is created twice")
						return s, false
					case len(t.objLocks(s.h, 'W')) == 0:
						rep(n, "nolock", "the queue is created without a lock held exclusively: two senders create two queues with a writer each")
					case !s.has(qNil):
						rep(n, "nocheck", "the queue is created although there may already be one")
					default:
						c.okN(n)
					}
					made[t.name] = true
					s.marks = s.marks.clear(qWriter)
				}
				if _, ok := n.instr.(*ssa.Go); ok && n.kind == KInstr {
					for _, k := range n.spawn {
						if t.isWriter(g, k) {
							switch {
							case s.has(qWriter):
								rep(n, "writers", "a second writer is started for the same queue")
								return s, false
							case !s.has(qMade) && !inOnce(n):
								rep(n, "stray", "a writer is started although the queue was not created just now")
							default:
								c.okN(n)
							}
							s.marks = s.marks.set(qWriter)
						}
					}
				}
				return s, true
			}, func(n *Node, s qstate) {
				if s.has(qMade) && !s.has(qWriter) && normalEnd(n) {
					rep(g.root.entry, "nowriter", "a queue is created without a writer for it")
				}
			})
		}
	})
	if len(once) > 1 {
		c.undecided(t.name + ": the queue is created under a once in several places")
	}
	if !made[t.name] {
		c.undecided(t.name + ": queue creation")
	}
}

type qsend struct {
	n     *Node
	locks map[string]byte
}

func queueUse(c *C, t *connT) {
	isQ := func(g *Graph, v VC) bool { return g.isField(v, t.T, t.queue) }
	sendOn := func(g *Graph, n *Node) (bool, *ssa.Select) {
		if n.kind != KInstr {
			return false, nil
		}
		switch x := n.instr.(type) {
		case *ssa.Send:
			return isQ(g, VC{x.Chan, n.ctx}), nil
		case *ssa.Select:
			for _, s := range x.States {
				if s.Dir == types.SendOnly && isQ(g, VC{s.Chan, n.ctx}) {
					return true, x
				}
			}
		}
		return false, nil
	}
	hit := func(g *Graph, n *Node) bool {
		if ch, ok := closeOf(n); ok && isQ(g, ch) {
			return true
		}
		ok, _ := sendOn(g, n)
		return ok
	}
	closeLocks := map[string]bool{}
	var closers []*Node
	type obs struct {
		n    *Node
		s    qstate
		sel  *ssa.Select
		root string
		g    *Graph
	}
	var sends []obs
	reported := map[string]bool{}
	rep := func(n *Node, k, why string) {
		if !reported[k+n.posn(c.P)] {
			reported[k+n.posn(c.P)] = true
			c.failN(k+"|"+t.name+"|"+fnName(n.fn()), n, why)
		}
	}
	c.Rule("close", "")
	c.rootsReaching([]string{"znet"}, nil, hit, func(g *Graph, hits []*Node) {
		starts := []*Node{g.entry}
		for _, s := range g.spawns {
			starts = append(starts, s.entry)
		}
		for _, st := range starts {
			t.queuePaths(c, g, st, func(n *Node, s qstate, e env) (qstate, bool) {
				if ch, ok := closeOf(n); ok && (n.kind == KInstr || n.kind == KDeferCall) && isQ(g, ch) {
					ls := t.objLocks(s.h, 'W')
					switch {
					case s.has(qShut):
						rep(n, "twice", "the queue is closed twice")
						return s, false
					case !s.has(qSome):
						rep(n, "nil", "a queue that was never created is closed, which panics")
					case len(ls) == 0:
						rep(n, "nolock", "the queue is closed without a lock held exclusively: a concurrent send panics")
					case !s.has(qOpen) && !s.has(qFlag):
						rep(n, "again", "the queue is closed without checking that the connection was not closed before")
					default:
						c.okN(n)
					}
					closers = append(closers, n)
					cur := map[string]bool{}
					for _, l := range ls {
						cur[l] = true
					}
					if len(closers) == 1 {
						closeLocks = cur
					} else {
						for l := range closeLocks {
							if !cur[l] {
								delete(closeLocks, l)
							}
						}
					}
					s.marks = s.marks.set(qShut)
					return s, true
				}
				if l, ok := g.lockOp(n); ok && l.op == "Unlock" && s.has(qShut) && !s.has(qFlag) && contains(t.objLocks(s.h, 'W'), l.cls) {
					rep(n, "flag", "the lock is released after closing the queue while the connection still looks open: the next send panics")
					return s, false
				}
				if ok, sel := sendOn(g, n); ok {
					sends = append(sends, obs{n, s, sel, fnName(g.root.fn), g})
				}
				return s, true
			}, nil)
		}
	})
	c.Rule("send", "")
	for _, o := range sends {
		n, s := o.n, o.s
		switch {
		case !s.has(qSome):
			rep(n, "uncreated", "data can be sent into a queue that was never created, and waits for good or is lost")
			continue
		case !s.has(qFree):
			rep(n, "unchecked", "data is queued without looking whether the connection is closed")
			continue
		}
		bounded := false
		if o.sel != nil {
			bounded = !o.sel.Blocking
			for _, st := range o.sel.States {
				if st.Dir == types.RecvOnly && o.g.isTimerChan(VC{st.Chan, n.ctx}) {
					bounded = true
				}
			}
		}
		if !bounded {
			rep(n, "unbounded", "a send into a full queue waits without a bound")
			continue
		}
		if len(closers) > 0 {
			okl := false
			for _, l := range t.objLocks(s.h, 0) {
				okl = okl || closeLocks[l]
			}
			if !okl {
				rep(n, "race", "data is sent into the queue without the lock under which it is closed: a send on a closed channel panics")
				continue
			}
			if !s.has(qOpen) {
				rep(n, "stale", "the connection was seen open before the lock was taken; the queue may be closed by now")
				continue
			}
		}
		c.okN(n)
	}
}

// sendReport: the error a sending function returns.
func sendReport(c *C, t *connT, f *ssa.Function) {
	g := c.graph(f, nil)
	key := t.name + "." + f.Name()
	reported := map[string]bool{}
	rep := func(n *Node, k, why string) {
		if !reported[k] {
			reported[k] = true
			c.failN(k+"|"+key, n, why)
		}
	}
	const sent = 20
	isQ := func(v VC) bool { return g.isField(v, t.T, t.queue) }
	r := func(n *Node, s qstate, e env) (qstate, bool) {
		if spawnOf(n) != nil {
			return s, true
		}
		if op, _ := t.io(g, n); op == "write" || op == "bufwrite" {
			if s.has(qClosed) {
				rep(n, "dead", "data is written although the connection is closed")
			}
			if !s.has(qFree) {
				rep(n, "unchecked", "data is written without looking whether the connection is closed")
			}
			s.marks = s.marks.set(sent)
		}
		if sd, ok := n.instr.(*ssa.Send); ok && n.kind == KInstr && isQ(VC{sd.Chan, n.ctx}) {
			s.marks = s.marks.set(sent)
		}
		if ret, ok := n.instr.(*ssa.Return); ok && n.kind == KInstr && n.ctx == g.root && len(ret.Results) == 1 {
			k, _ := g.errAt(VC{ret.Results[0], n.ctx}, e)
			switch {
			case k == 'N':
				c.okN(n)
			case s.has(qClosed) && k == 'n':
				rep(n, "silent", "sending on a closed connection reports success")
			case k == 'n' && !s.has(sent):
				rep(n, "lost", "a send reports success although the data was neither queued nor written")
			default:
				c.okN(n)
			}
		}
		return s, true
	}
	// the send case of a select
	t.queuePathsSel(c, g, g.entry, r, sent)
}

// queuePathsSel is queuePaths that also notes the taken send case of a select.
func (t *connT) queuePathsSel(c *C, g *Graph, start *Node, f func(n *Node, s qstate, e env) (qstate, bool), sent int) {
	t.selSent, t.selGraph = sent, g
	t.queuePaths(c, g, start, f, nil)
	t.selGraph = nil
}

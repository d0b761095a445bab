package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type lockProblem struct {
	n    *Node
	kind string
	lock string
	path []string
}

type lockWorld struct {
	lp    *lockPass
	probs []lockProblem
	waits []lockProblem
}

var lockWorlds = map[string]*lockWorld{}

// lockWorldOf sweeps every entry point of the given packages once: held locks
// along every path, panics of user callbacks included.
func lockWorldOf(c *C, rels ...string) *lockWorld {
	key := strings.Join(rels, ",")
	if w, ok := lockWorlds[key]; ok {
		for f := range w.lp.c.funcs {
			c.funcs[f] = true
		}
		return w
	}
	sub := &C{P: c.P, tier: c.tier, oblig: map[string]int{}, ruleTx: map[string]string{}, stats: c.stats, funcs: c.funcs}
	w := &lockWorld{lp: &lockPass{c: sub, orders: map[[2]string]string{}, lockSites: map[token.Pos]bool{}}}
	w.lp.want = func(T *types.Named, field string) bool {
		return T.Obj().Pkg() != nil && inRepo(T.Obj().Pkg().Path())
	}
	seen := map[string]bool{}
	w.lp.onProblem = func(g *Graph, n *Node, kind, lock string, path []string) {
		k := kind + lock + n.posn(g.P)
		if !seen[k] {
			seen[k] = true
			w.probs = append(w.probs, lockProblem{n, kind, lock, path})
		}
	}
	w.lp.atEnd = func(g *Graph, n *Node, h held, wit func() []string) {
		for k, l := range h.m {
			kind := "still held when the function returns"
			if n.kind == KPanicRoot {
				kind = "still held when a panic of a callback leaves the function"
			}
			kk := kind + k + fnName(g.root.fn)
			if !seen[kk] {
				seen[kk] = true
				w.probs = append(w.probs, lockProblem{g.root.entry, kind, l.cls, wit()})
			}
		}
	}
	w.lp.onNode = func(g *Graph, n *Node, h held) {
		if len(h.m) == 0 || n.instr == nil {
			return
		}
		what, ch := blocking(g, n)
		if what == "" || boundedWait(g, n, ch) {
			return
		}
		for _, l := range h.m {
			k := "wait" + l.cls + n.posn(g.P)
			if !seen[k] {
				seen[k] = true
				w.waits = append(w.waits, lockProblem{n, what, l.cls, nil})
			}
		}
	}
	roots := c.P.Roots(rels...)
	w.lp.sweep(roots, userCall)
	lockWorlds[key] = w
	return w
}

func init() {
	register("C03", func(c *C) {
		c.Rule("balanced", "On every path from every exported function, goroutine body and callback of the library (panics of user callbacks included), a lock is released exactly once in the mode it was taken, is never taken again by the goroutine that holds it, and none is held at the end")
		w := lockWorldOf(c)
		for p := range w.lp.lockSites {
			c.ok(c.P.pos(p))
		}
		for _, p := range w.probs {
			c.failN(p.kind+"|"+p.lock+"|"+fnName(p.n.fn()), p.n, p.lock+": "+p.kind, p.path...)
		}
		c.atLeast(60, "lock operations")
		c.Rule("order", "The relation 'acquired while holding' between locks is acyclic over the whole library")
		lockOrder(c, w.lp.orders)
		c.Rule("noblock", "No goroutine waits on a channel, a wait group or the network without a bound while holding a lock that a caller of the library needs")
		for _, p := range w.waits {
			c.failN("wait|"+p.lock+"|"+fnName(p.n.fn()), p.n, p.kind+" while holding "+p.lock+": everyone who needs the lock waits as long")
		}
		if len(w.waits) == 0 {
			c.ok("no unbounded wait under a lock")
		}
	})
}

func lockOrder(c *C, orders map[[2]string]string) {
	adj := map[string][]string{}
	for k := range orders {
		adj[k[0]] = append(adj[k[0]], k[1])
	}
	var keys []string
	for k := range orders {
		keys = append(keys, k[0]+"\x00"+k[1])
	}
	sort.Strings(keys)
	reach := func(from, to string) bool {
		seen := map[string]bool{}
		st := []string{from}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if x == to {
				return true
			}
			if seen[x] {
				continue
			}
			seen[x] = true
			st = append(st, adj[x]...)
		}
		return false
	}
	for _, k := range keys {
		p := strings.Split(k, "\x00")
		w := orders[[2]string{p[0], p[1]}]
		if reach(p[1], p[0]) {
			c.fail(p[0]+"<"+p[1], w, "", fmt.Sprintf("%s is acquired while %s is held, and elsewhere the other way round", p[1], p[0]))
		} else {
			c.ok(p[0] + " < " + p[1])
		}
	}
}

// boundedWait: the wait cannot last: the channel was made here with room for
// what is sent, a sleep of the caller's own, or there is another way out of it.
func boundedWait(g *Graph, n *Node, ch VC) bool {
	if ch.v == nil {
		return g.callName(n) == "time.Sleep"
	}
	// a channel made for this one operation, whose other end is the operation
	for i := 0; i < 8; i++ {
		ch = g.trace(ch)
		switch x := ch.v.(type) {
		case *ssa.MakeChan:
			return true
		case *ssa.MakeSlice, *ssa.Alloc:
			return true
		case *ssa.UnOp:
			ch = VC{x.X, ch.c}
		case *ssa.IndexAddr:
			ch = VC{x.X, ch.c}
		default:
			return false
		}
	}
	return false
}

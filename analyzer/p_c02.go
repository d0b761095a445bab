package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", func(c *C) {
		T := c.needType("zutils", "SingleShardMap")
		M := c.needType("zutils", "ShardLockMaps")
		if T == nil || M == nil {
			return
		}
		items := c.needField(T, "items", "map[string]interface{}")
		if items == "" {
			return
		}
		w := lockWorldOf(c)
		c.Rule("guarded", "Every access to a shard's items holds that shard's lock, exclusively for writes")
		c.guarded(w.lp, T, items, nil)
		c.atLeast(15, "accesses to shard items")

		c.Rule("sameshard", "Every operation on a key works on the shard selected by the hash of that very key, with the same selection everywhere")
		sel := map[string]string{}
		for _, f := range c.P.Roots("zutils", "znet") {
			g := c.graph(f, nil)
			for _, n := range g.nodes {
				m, ok := mapOpOf(n)
				if !ok || m.key.v == nil || !g.isField(m.m, T, items) {
					continue
				}
				_, _, base, _ := g.fieldOf(m.m)
				b, k := g.sym(base), g.sym(m.key)
				if strings.HasPrefix(k, "iter0("+b+".") || strings.HasPrefix(k, "iter1("+b+".") {
					c.okN(n)
					continue
				}
				i := strings.Index(b, ".Sum("+k+")")
				if i < 0 {
					c.failN("select|"+fnName(n.fn()), n, "a key is used on a shard that was not selected by hashing that key")
					continue
				}
				j := strings.Index(b, "[")
				norm := strings.ReplaceAll(b[j:], ".Sum("+k+")", ".Sum(K)")
				norm = strings.ReplaceAll(norm, b[:strings.Index(b, ".shards")+1], "M.")
				sel[norm] = n.posn(c.P) + " " + n.stack()
				c.okN(n)
			}
		}
		if len(sel) > 1 {
			var l []string
			for k, v := range sel {
				l = append(l, k+" at "+v)
			}
			c.fail("selection", "-", "-", fmt.Sprintf("operations select the shard of a key in %d different ways: %v", len(sel), l))
		}
		c.atLeast(8, "keyed shard accesses")

		c.Rule("atomic", "An operation that looks at a key and then changes it does both in one critical section")
		for _, f := range c.P.Roots("zutils") {
			g := c.graph(f, nil)
			shardAtomic(c, g, T, items)
		}

		c.Rule("results", "Get, Has and Pop report what the shard held; Set always stores, Remove and Pop always delete; SetNX stores exactly when the key is absent and says so; RemoveCb deletes only what the callback approved")
		shardResults(c, M, T, items)
		c.Rule("iterate", "Iteration visits the items of a shard only while holding its lock and hands out every shard: the snapshot's channels exist before the snapshot is released and are closed after the last item")
		shardIter(c, M)
	})
}

// shardAtomic: after a key was read under a lock that has been released since,
// it may be written only after being read again.
func shardAtomic(c *C, g *Graph, T *types.Named, items string) {
	bad := map[string]bool{}
	any := false
	r := &Rule{Init: marks{}}
	r.Node = func(g *Graph, n *Node, a Auto) Auto {
		m := a.(marks)
		if l, ok := g.lockOp(n); ok {
			if strings.HasSuffix(l.op, "Unlock") && strings.HasPrefix(m.x, "in:") {
				m.x = "out:" + m.x[3:]
			}
			return m
		}
		op, ok := mapOpOf(n)
		if !ok || op.key.v == nil || !g.isField(op.m, T, items) {
			return m
		}
		k := g.sym(op.key)
		any = true
		switch op.kind {
		case "get":
			m.x = "in:" + k
		case "set", "del":
			if m.x == "out:"+k {
				if !bad[n.posn(c.P)] {
					bad[n.posn(c.P)] = true
					c.failN("split|"+fnName(n.fn()), n, "the key was looked up in an earlier critical section of the same operation, so another goroutine may have changed it in between")
				}
			} else {
				c.okN(n)
			}
		}
		return m
	}
	c.run(g, g.entry, r)
	_ = any
}

func shardResults(c *C, M, T *types.Named, items string) {
	isItems := func(g *Graph) func(m mapOp) bool {
		return func(m mapOp) bool { return g.isField(m.m, T, items) }
	}
	if f := c.needMethod("zutils", "ShardLockMaps", "Get"); f != nil {
		g := c.graph(f, nil)
		lookupRule(c, g, "Get", isItems(g), g.psym(1))
	}
	if f := c.needMethod("zutils", "ShardLockMaps", "Pop"); f != nil {
		g := c.graph(f, nil)
		lookupRule(c, g, "Pop", isItems(g), g.psym(1))
	}
	shape := func(name string, t *track) {
		f := c.needMethod("zutils", "ShardLockMaps", name)
		if f == nil {
			return
		}
		g := c.graph(f, nil)
		t.key = name
		t.ev = func(g *Graph, n *Node) []int {
			op, ok := mapOpOf(n)
			if !ok || !g.isField(op.m, T, items) {
				return nil
			}
			switch op.kind {
			case "set":
				return []int{0}
			case "del":
				return []int{1}
			}
			return nil
		}
		if t.edge == nil {
			t.edge = func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
				for _, a := range at {
					if a.Op == 0 && strings.HasPrefix(a.SX, "has(") {
						if a.Val {
							m = m.set(3)
						} else {
							m = m.set(2)
						}
					}
				}
				m.twice = 0
				return m, true
			}
		}
		c.track(g, g.entry, t)
	}
	shape("Set", &track{
		on: func(g *Graph, n *Node, i int, m marks) string {
			op, _ := mapOpOf(n)
			if i != 0 || g.sym(op.key) != g.psym(1) || g.sym(op.val) != g.psym(2) {
				return "does something else than storing the given value under the given key"
			}
			return ""
		},
		end: func(g *Graph, n *Node, m marks) string {
			if !m.has(0) {
				return "a path returns without storing"
			}
			return ""
		}})
	shape("Remove", &track{
		on: func(g *Graph, n *Node, i int, m marks) string {
			op, _ := mapOpOf(n)
			if i != 1 || g.sym(op.key) != g.psym(1) {
				return "does something else than deleting the given key"
			}
			return ""
		},
		end: func(g *Graph, n *Node, m marks) string {
			if !m.has(1) && !m.has(2) {
				return "a path returns without deleting the key"
			}
			return ""
		}})
	shape("Pop", &track{
		on: func(g *Graph, n *Node, i int, m marks) string {
			op, _ := mapOpOf(n)
			if i != 1 || g.sym(op.key) != g.psym(1) {
				return "does something else than deleting the given key"
			}
			return ""
		},
		end: func(g *Graph, n *Node, m marks) string {
			if !m.has(1) && !m.has(2) {
				return "a path returns without deleting the key"
			}
			return ""
		}})
	// SetNX: stored <=> absent <=> true
	boolOp := func(name string, absentMeans func(m marks, res string) string, onEv func(g *Graph, n *Node, i int, m marks) string) {
		f := c.needMethod("zutils", "ShardLockMaps", name)
		if f == nil {
			return
		}
		g := c.graph(f, nil)
		bad := map[string]bool{}
		decided := 0
		r := &Rule{Init: marks{}}
		r.NodeE = func(g *Graph, n *Node, a Auto, e env) Auto {
			m := a.(marks)
			if op, ok := mapOpOf(n); ok && g.isField(op.m, T, items) {
				i := -1
				switch op.kind {
				case "set":
					i = 0
				case "del":
					i = 1
				}
				if i >= 0 {
					if why := onEv(g, n, i, m); why != "" && !bad[why] {
						bad[why] = true
						c.failN(name+"|"+why, n, why)
					}
					m = m.set(i)
				}
			}
			if ret, ok := n.instr.(*ssa.Return); ok && n.kind == KInstr && n.ctx == g.root && len(ret.Results) == 1 {
				s := g.symAt(VC{ret.Results[0], n.ctx}, e)
				if why := absentMeans(m, s); why != "" {
					if !bad[why] {
						bad[why] = true
						c.failN(name+"|"+why, n, why)
					}
				} else {
					decided++
					c.okN(n)
				}
			}
			m.twice = 0
			return m
		}
		r.Edge = func(g *Graph, n *Node, a Auto, at []Atom) Auto {
			m := a.(marks)
			for _, x := range at {
				if x.Op == 0 && strings.HasPrefix(x.SX, "has(") {
					if x.Val {
						m = m.set(3)
					} else {
						m = m.set(2)
					}
				} else if x.Op == 0 {
					if call, ok := g.trace(x.X).v.(*ssa.Call); ok && call.Call.StaticCallee() == nil && !call.Call.IsInvoke() {
						if x.Val {
							m = m.set(4)
						} else {
							m = m.set(5)
						}
					}
				}
			}
			m.twice = 0
			return m
		}
		c.run(g, g.entry, r)
	}
	boolOp("SetNX", func(m marks, s string) string {
		switch {
		case s == "#true" && !m.has(0):
			return "reports success without having stored the value"
		case s == "#false" && m.has(0):
			return "reports failure after having stored the value"
		case m.has(2) && !m.has(0):
			return "does not store although the key is absent"
		case s != "#true" && s != "#false":
			return "the result does not tell whether the value was stored"
		}
		return ""
	}, func(g *Graph, n *Node, i int, m marks) string {
		op, _ := mapOpOf(n)
		if i != 0 || g.sym(op.key) != g.psym(1) || g.sym(op.val) != g.psym(2) {
			return "does something else than storing the given value under the given key"
		}
		if !m.has(2) {
			return "stores without having seen that the key is absent"
		}
		return ""
	})
	boolOp("RemoveCb", func(m marks, s string) string {
		switch {
		case m.has(4) && m.has(3) && !m.has(1):
			return "an approved key is not deleted"
		}
		return ""
	}, func(g *Graph, n *Node, i int, m marks) string {
		op, _ := mapOpOf(n)
		if i != 1 || g.sym(op.key) != g.psym(1) {
			return "does something else than deleting the given key"
		}
		if !m.has(4) {
			return "deletes a key the callback did not approve"
		}
		return ""
	})
	if f := c.needMethod("zutils", "ShardLockMaps", "Has"); f != nil {
		g := c.graph(f, nil)
		r := &Rule{Init: marks{}}
		bad := false
		r.Edge = func(g *Graph, n *Node, a Auto, at []Atom) Auto {
			m := a.(marks)
			for _, x := range at {
				if x.Op == 0 && strings.HasPrefix(x.SX, "has(") {
					m.x = fmt.Sprint(x.Val)
				}
			}
			return m
		}
		r.NodeE = func(g *Graph, n *Node, a Auto, e env) Auto {
			m := a.(marks)
			if ret, ok := n.instr.(*ssa.Return); ok && n.kind == KInstr && n.ctx == g.root {
				s := g.symAt(VC{ret.Results[0], n.ctx}, e)
				if !(strings.HasPrefix(s, "has(") && strings.HasSuffix(s, "["+g.psym(1)+"])")) && (m.x == "" || s != "#"+m.x) {
					if !bad {
						c.failN("Has", n, "does not report whether the key is present")
					}
					bad = true
				} else {
					c.okN(n)
				}
			}
			return m
		}
		c.run(g, g.entry, r)
	}
}

// shardIter: the goroutine that fills a snapshot channel creates it before it
// signals the waiting caller, and closes it after its loop.
func shardIter(c *C, M *types.Named) {
	f := c.needMethod("zutils", "ShardLockMaps", "IterBuffered")
	if f == nil {
		return
	}
	g := c.graph(f, nil)
	for _, s := range g.spawns {
		closes, sends, done := false, false, false
		for _, n := range g.nodes {
			if n.ctx != s {
				continue
			}
			if g.callName(n) == "builtin:close" {
				closes = true
			}
			if _, ok := n.instr.(*ssa.Send); ok {
				sends = true
			}
			if g.callName(n) == "(*sync.WaitGroup).Done" {
				done = true
			}
		}
		if !sends {
			continue
		}
		c.track(g, s.entry, &track{key: "snapshot", once: true,
			ev: func(g *Graph, n *Node) []int {
				if n.ctx != s || n.instr == nil {
					return nil
				}
				if _, ok := n.instr.(*ssa.MakeChan); ok {
					return []int{0}
				}
				switch g.callName(n) {
				case "(*sync.WaitGroup).Done":
					return []int{1}
				case "builtin:close":
					return []int{2}
				}
				if _, ok := n.instr.(*ssa.Send); ok {
					return []int{3}
				}
				return nil
			},
			on: func(g *Graph, n *Node, i int, m marks) string {
				mk := false
				for _, x := range g.nodes {
					if x.ctx == s {
						if _, ok := x.instr.(*ssa.MakeChan); ok {
							mk = true
						}
					}
				}
				if i == 1 && mk && !m.has(0) {
					return "the caller may go on before the channel of a shard exists"
				}
				if i == 3 && m.has(2) {
					return "an item is sent after the channel was closed"
				}
				return ""
			},
			end: func(g *Graph, n *Node, m marks) string {
				if closes && !m.has(2) || done && !m.has(1) {
					return "a reader of the snapshot waits forever"
				}
				return ""
			}})
	}
	T := c.P.Type("zutils", "SingleShardMap")
	items := c.fieldLike(T, "items", "map[string]interface{}")
	for _, name := range []string{"Count", "IterCb", "IterBuffered", "Items", "Keys", "Clear", "MarshalJSON"} {
		f := c.needMethod("zutils", "ShardLockMaps", name)
		if f == nil || items == "" {
			continue
		}
		g := c.graph(f, nil)
		isItems := func(v VC) bool { return g.isField(v, T, items) }
		full := c.shardLimit(g)
		rounds := c.everyRound(g, name, shardKind, func(g *Graph, n *Node) bool {
			if s, ok := nextOf(n); ok && isItems(s) {
				return true
			}
			op, ok := mapOpOf(n)
			return ok && (op.kind == "len" || op.kind == "range" || op.kind == "clear") && isItems(op.m)
		}, full)
		handOut := func(g *Graph, n *Node, e env) bool {
			if _, ok := n.instr.(*ssa.Send); ok && n.kind == KInstr {
				return true
			}
			return isCallNode(n) && userCall(g, n)
		}
		loops := c.drainAll(g, name, isItems, handOut)
		// what goroutines hand on
		isChan := func(v VC) bool {
			ch, ok := v.v.Type().Underlying().(*types.Chan)
			if !ok {
				return false
			}
			return typeIs(ch.Elem(), "Tuple") || name == "Keys"
		}
		loops += c.drainAll(g, name+" channel", isChan, func(g *Graph, n *Node, e env) bool {
			if _, ok := n.instr.(*ssa.Send); ok && n.kind == KInstr {
				return true
			}
			if op, ok := mapOpOf(n); ok && (op.kind == "set" || op.kind == "del") && !strings.HasPrefix(g.sym(op.m), "iter") {
				return true
			}
			return g.callName(n) == "builtin:append"
		})
		c.everyRound(g, name+" channels", chanListKind, func(g *Graph, n *Node) bool {
			if s, ok := nextOf(n); ok && isChan(s) {
				return true
			}
			if g.callName(n) == "builtin:cap" {
				return true
			}
			return false
		}, full)
		if rounds+loops == 0 {
			c.undecided(name + ": no loop over the shards recognised")
		}
		if name == "Count" {
			countSums(c, g, isItems)
		}
	}
}

// countSums: the lengths of all shards are added up.
func countSums(c *C, g *Graph, isItems func(v VC) bool) {
	for _, n := range g.nodes {
		op, ok := mapOpOf(n)
		if !ok || op.kind != "len" || !isItems(op.m) {
			continue
		}
		call, ok := n.instr.(*ssa.Call)
		if !ok {
			continue
		}
		for _, u := range *call.Referrers() {
			if ph, ok := u.(*ssa.Phi); ok && inLoop(ph.Block()) && inLoop(call.Block()) {
				c.failN("sum", n, "the size of a shard replaces the sum instead of being added to it")
			}
			if b, ok := u.(*ssa.BinOp); ok {
				if b.Op == token.ADD {
					c.okN(n)
				} else {
					c.failN("sum", n, "the size of a shard is not added to the sum")
				}
			}
		}
	}
}

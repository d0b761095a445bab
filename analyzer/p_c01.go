package main

import (
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// connTypes: the connection implementations.
func connTypes(c *C) []*types.Named {
	ts := c.P.implTypes("IConnection")
	if len(ts) < 3 {
		c.missing("the TCP, websocket and KCP connection types")
	}
	return ts
}

func init() {
	register("C01", func(c *C) {
		w := lockWorldOf(c)
		c.Rule("guarded", "Every read and write of a connection's property map and close-callback list, and of a request's key map, holds one lock of the same object, exclusively for writes")
		for _, T := range connTypes(c) {
			if f := c.needField(T, "property", "map[string]interface{}"); f != "" {
				c.guarded(w.lp, T, f, nil)
			}
			if f := c.needField(T, "closeCallback", "znet.callbacks"); f != "" {
				c.guarded(w.lp, T, f, nil)
			}
		}
		c.atLeast(18, "accesses to connection properties and close callbacks")
		if T := c.needType("znet", "Request"); T != nil {
			if f := c.needField(T, "keys", "map[string]interface{}"); f != "" {
				c.guarded(w.lp, T, f, func(a access) string {
					if poolScope(a) {
						return "request not shared"
					}
					return ""
				})
			}
		}
		c.Rule("effect", "Setting a property stores exactly the given value under the given key on every path; getting it returns the stored value or an error when the key is absent; removing deletes that key; the same for request keys")
		for _, T := range connTypes(c) {
			propMap(c, T, c.fieldLike(T, "property", "map[string]interface{}"), "SetProperty", "GetProperty", "RemoveProperty")
		}
		if T := c.P.Type("znet", "Request"); T != nil {
			propMap(c, T, c.fieldLike(T, "keys", "map[string]interface{}"), "Set", "Get", "")
		}
		c.atLeast(12, "property operations")
		c.Rule("callbacks", "Adding and removing a close callback reaches the list unless the connection is closed or the callback is nil, and invoking walks the list from its first element, calling each one")
		closeCallbacks(c)
	})
}

// poolScope: the access happens while the request is owned by one goroutine
// (reset on its way out of the pool, or a copy under construction).
func poolScope(a access) bool {
	for x := a.n.ctx; x != nil; x = x.parent {
		if x.fn.Name() == "Reset" || x.fn.Name() == "GetRequest" {
			return true
		}
	}
	return false
}

func propMap(c *C, T *types.Named, field, set, get, remove string) {
	if field == "" {
		return
	}
	isMap := func(g *Graph, v VC) bool { return g.isField(v, T, field) && g.baseIs(v, g.psym(0)) }
	// set
	if f := c.P.methodOf(T, set); f == nil {
		c.missing(T.Obj().Name() + "." + set)
	} else {
		g := c.graph(f, nil)
		c.track(g, g.entry, &track{key: T.Obj().Name() + "." + set,
			ev: func(g *Graph, n *Node) []int {
				if m, ok := mapOpOf(n); ok && isMap2(g, m.m, T, field, g.psym(0), n) && m.kind == "set" {
					return []int{0}
				}
				return nil
			},
			on: func(g *Graph, n *Node, i int, m marks) string {
				op, _ := mapOpOf(n)
				if g.sym(op.key) != g.psym(1) || g.sym(op.val) != g.psym(2) {
					return "stores something else than the given value under the given key"
				}
				return ""
			},
			end: func(g *Graph, n *Node, m marks) string {
				if !m.has(0) {
					return "a path returns without storing the value"
				}
				return ""
			}})
	}
	if f := c.P.methodOf(T, get); f == nil {
		c.missing(T.Obj().Name() + "." + get)
	} else {
		g := c.graph(f, nil)
		lookupRule(c, g, T.Obj().Name()+"."+get, func(m mapOp) bool { return isMap(g, m.m) }, g.psym(1))
	}
	if remove == "" {
		return
	}
	if f := c.P.methodOf(T, remove); f == nil {
		c.missing(T.Obj().Name() + "." + remove)
	} else {
		g := c.graph(f, nil)
		c.track(g, g.entry, &track{key: T.Obj().Name() + "." + remove,
			ev: func(g *Graph, n *Node) []int {
				if m, ok := mapOpOf(n); ok && isMap(g, m.m) {
					if m.kind == "del" {
						return []int{0}
					}
					if m.kind == "set" {
						return []int{1}
					}
				}
				return nil
			},
			on: func(g *Graph, n *Node, i int, m marks) string {
				if i == 1 {
					return "removal stores into the map"
				}
				op, _ := mapOpOf(n)
				if g.sym(op.key) != g.psym(1) {
					return "deletes another key than the given one"
				}
				return ""
			},
			edge: absentEdge(func(g *Graph, s string) bool {
				return strings.HasSuffix(s, "."+field+"["+g.psym(1)+"])") || strings.HasSuffix(s, "."+field)
			}),
			end: func(g *Graph, n *Node, m marks) string {
				if !m.has(0) && !m.has(2) {
					return "a path returns without deleting the key"
				}
				return ""
			}})
	}
}

// absentEdge marks event 2 when a branch decided that the key is absent or the
// map is nil.
func absentEdge(match func(g *Graph, s string) bool) func(g *Graph, n *Node, a []Atom, m marks) (marks, bool) {
	return func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
		for _, a := range at {
			if a.Op == 0 && !a.Val && strings.HasPrefix(a.SX, "has(") && match(g, a.SX) {
				m = m.set(2)
			}
			if v, isnil, ok := a.nilness(); ok && isnil && match(g, g.sym(v)) {
				m = m.set(2)
			}
		}
		m.twice = 0
		return m, true
	}
}

// baseIs: the field selection v is on the object named by sym.
func (g *Graph) baseIs(v VC, sym string) bool {
	_, _, b, ok := g.fieldOf(v)
	return ok && g.sym(b) == sym
}

// isMap2 also accepts a map that is stored into the field in the same function
// (m := make(...); o.f = m; m[k] = v).
func isMap2(g *Graph, v VC, T *types.Named, field, base string, n *Node) bool {
	if g.isField(v, T, field) && g.baseIs(v, base) {
		return true
	}
	t := g.trace(v)
	if ph, ok := t.v.(*ssa.Phi); ok {
		for _, e := range ph.Edges {
			if !isMap2(g, VC{e, t.c}, T, field, base, n) {
				return false
			}
		}
		return true
	}
	for _, m := range g.nodes {
		if st, ok := m.instr.(*ssa.Store); ok && m.kind == KInstr {
			if g.isField(VC{st.Addr, m.ctx}, T, field) && g.trace(VC{st.Val, m.ctx}) == t {
				return true
			}
		}
	}
	return false
}

// lookupRule: a getter returning (value, ok bool) or (value, error) hands out
// the looked-up value exactly when the key is present.
func lookupRule(c *C, g *Graph, name string, isMap func(m mapOp) bool, keySym string) {
	var valSym, hasSym string
	for _, n := range g.nodes {
		if m, ok := mapOpOf(n); ok && m.kind == "get" && isMap(m) {
			if g.sym(m.key) != keySym {
				c.failN(name+"|key", n, "looks up another key than the given one")
				continue
			}
			valSym = g.sym(m.m) + "[" + keySym + "]"
			hasSym = "has(" + valSym + ")"
		}
	}
	if valSym == "" {
		c.failF(name+"|nolookup", g.root.fn, "does not look the key up in the map")
		return
	}
	bad := map[string]bool{}
	r := &Rule{Init: marks{}}
	r.Edge = func(g *Graph, n *Node, a Auto, at []Atom) Auto {
		m := a.(marks)
		for _, x := range at {
			if x.Op == 0 && x.SX == hasSym {
				if x.Val {
					m.x = "present"
				} else {
					m.x = "absent"
				}
			}
			if v, isnil, ok := x.nilness(); ok && isnil && g.sym(v)+"["+keySym+"]" == valSym {
				m.x = "absent"
			}
		}
		return m
	}
	r.NodeE = func(g *Graph, n *Node, a Auto, e env) Auto {
		m := a.(marks)
		ret, ok := n.instr.(*ssa.Return)
		if !ok || n.ctx != g.root || n.kind != KInstr || len(ret.Results) != 2 {
			return m
		}
		v, o := VC{ret.Results[0], n.ctx}, VC{ret.Results[1], n.ctx}
		vs, os := g.symAt(v, e), g.symAt(o, e)
		why := ""
		switch {
		case m.x == "present":
			if vs != valSym {
				why = "a present key does not yield the stored value"
			}
			if os == "#false" || os != "nil" && os != "#true" && os != hasSym {
				why = "a present key is reported as absent"
			}
		case m.x == "absent":
			if os == "nil" || os == "#true" {
				why = "an absent key is reported as present"
			}
		default:
			if vs != valSym || os != hasSym {
				why = "the result does not follow the lookup"
			}
		}
		if why == "" {
			c.okN(n)
		} else if !bad[why] {
			bad[why] = true
			c.failN(name+"|"+why, n, why)
		}
		return m
	}
	c.run(g, g.entry, r)
}

func closeCallbacks(c *C) {
	L := c.needType("znet", "callbacks")
	if L == nil {
		return
	}
	first := c.fieldLike(L, "first", "*znet.callbackCommon")
	for _, T := range connTypes(c) {
		for _, m := range []string{"AddCloseCallback", "RemoveCloseCallback", "InvokeCloseCallbacks"} {
			f := c.P.methodOf(T, m)
			if f == nil {
				c.missing(T.Obj().Name() + "." + m)
				continue
			}
			g := c.graph(f, nil)
			touched := false
			called := false
			for _, n := range g.nodes {
				if n.instr == nil {
					continue
				}
				memOps(n.instr, func(loc ssa.Value, write bool) {
					if g.isField(VC{loc, n.ctx}, L, first) {
						touched = true
					}
				})
				if userCall(g, n) && strings.Contains(g.callName(n), "call") {
					called = true
				}
			}
			key := T.Obj().Name() + "." + m
			if !touched {
				c.failF(key, f, "does not reach the list of close callbacks")
				continue
			}
			if m == "InvokeCloseCallbacks" && !called {
				c.failF(key+"|call", f, "does not call the registered callbacks")
				continue
			}
			c.ok(key)
			if m == "AddCloseCallback" {
				c.track(g, g.entry, &track{key: key,
					ev: func(g *Graph, n *Node) []int {
						if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr {
							if nm, _, _, ok := g.fieldOf(VC{st.Addr, n.ctx}); ok && nm.Obj() == L.Obj() {
								if _, isal := g.trace(VC{st.Val, n.ctx}).v.(*ssa.Alloc); isal {
									return []int{0}
								}
							}
						}
						return nil
					},
					edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
						for _, a := range at {
							if v, isnil, ok := a.nilness(); ok && isnil && g.sym(v) == g.psym(3) {
								m = m.set(1)
							}
						}
						if cl, ok := closedTest(g, at); ok && cl {
							m = m.set(1)
						}
						m.twice = 0
						return m, true
					},
					end: func(g *Graph, n *Node, m marks) string {
						if !m.has(0) && !m.has(1) {
							return "a callback of an open connection is not added to the list"
						}
						return ""
					}})
			}
		}
	}
}

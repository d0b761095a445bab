package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// inherited: which getter of the server or client a connection's field comes
// from.
var inherited = map[string]string{
	"packet": "GetPacket", "onConnStart": "GetOnConnStart", "onConnStop": "GetOnConnStop",
	"msgHandler": "GetMsgHandler", "connManager": "GetConnMgr",
}

// inherits: every function that makes a connection for a server or client
// given to it fills the named fields from that server's or client's getters on
// every path that returns the connection.
func (c *C) inherits(fields ...string) {
	kinds := connKinds(c)
	makers := 0
	for _, f := range c.P.AllFuncs {
		if fnRel(f) != "znet" || f.Parent() != nil || f.Signature.Results().Len() != 1 {
			continue
		}
		owner, srv := -1, false
		for i, p := range f.Params {
			if nm, ok := p.Type().(*types.Named); ok && types.IsInterface(nm) && (nm.Obj().Name() == "IServer" || nm.Obj().Name() == "IClient") {
				owner, srv = i, nm.Obj().Name() == "IServer"
			}
		}
		rt := f.Signature.Results().At(0).Type()
		isConn := typeIs(rt, "IConnection")
		for _, t := range kinds {
			isConn = isConn || typeIs(rt, t.name)
		}
		if owner < 0 || !isConn {
			continue
		}
		// not the part of another such function
		g := c.graph(f, &Policy{MaxImpls: 1, Inline: func(f *ssa.Function) bool {
			return defaultInline(f) && fnRel(f) == "znet"
		}})
		var kind *connT
		obj := ""
		for _, n := range g.nodes {
			al, ok := n.instr.(*ssa.Alloc)
			if !ok || n.kind != KInstr {
				continue
			}
			for _, t := range kinds {
				if typeIs(al.Type().Underlying().(*types.Pointer).Elem(), t.name) {
					kind, obj = t, g.sym(VC{al, n.ctx})
				}
			}
		}
		if kind == nil {
			continue
		}
		makers++
		var want []string
		for _, fl := range fields {
			if fl == "connManager" && !srv || c.fieldLike(kind.T, fl, "") == "" && !hasField(kind.T, fl) {
				continue
			}
			want = append(want, fl)
		}
		from := func(v VC) string {
			call, ok := g.trace(v).v.(*ssa.Call)
			if !ok || !call.Call.IsInvoke() || g.sym(VC{call.Call.Value, g.trace(v).c}) != g.psym(owner) {
				return ""
			}
			return call.Call.Method.Name()
		}
		c.track(g, g.entry, &track{key: "made|" + fnName(f), once: true,
			ev: func(g *Graph, n *Node) []int {
				st, ok := n.instr.(*ssa.Store)
				if !ok || n.kind != KInstr {
					return nil
				}
				nm, fl, b, ok := g.fieldOf(VC{st.Addr, n.ctx})
				if !ok || nm.Obj() != kind.T.Obj() || g.sym(b) != obj {
					return nil
				}
				for i, w := range want {
					if w == fl {
						if k, isk := st.Val.(*ssa.Const); isk && k.Value == nil {
							return nil // spelled-out zero value
						}
						return []int{i}
					}
				}
				return nil
			},
			on: func(g *Graph, n *Node, i int, m marks) string {
				if m := from(VC{n.instr.(*ssa.Store).Val, n.ctx}); m != inherited[want[i]] {
					return "the connection's " + want[i] + " is not the one of the server or client that makes it"
				}
				return ""
			},
			end: func(g *Graph, n *Node, m marks) string {
				if !normalEnd(n) || n.kind != KExit {
					return ""
				}
				for i, w := range want {
					if !m.has(i) {
						return "a " + kind.name + " is made without the " + w + " of its server or client"
					}
				}
				return ""
			}})
	}
	if makers == 0 {
		c.undecided("no function found that makes connections")
	}
}

// frames: a connection made for a server or client whose decoder has a length
// field gets a frame decoder of its own for exactly that field.
func (c *C) frames() {
	for _, f := range c.P.AllFuncs {
		if fnRel(f) != "znet" || f.Parent() != nil || f.Signature.Results().Len() != 1 {
			continue
		}
		owner := -1
		for i, p := range f.Params {
			if nm, ok := p.Type().(*types.Named); ok && types.IsInterface(nm) && (nm.Obj().Name() == "IServer" || nm.Obj().Name() == "IClient") {
				owner = i
			}
		}
		if owner < 0 || !typeIs(f.Signature.Results().At(0).Type(), "IConnection") {
			continue
		}
		g := c.graph(f, &Policy{MaxImpls: 1, Inline: func(f *ssa.Function) bool {
			return defaultInline(f) && fnRel(f) == "znet"
		}})
		isLF := func(v VC) bool {
			x := g.trace(v)
			call, ok := x.v.(*ssa.Call)
			return ok && call.Call.IsInvoke() && call.Call.Method.Name() == "GetLengthField" && g.sym(VC{call.Call.Value, x.c}) == g.psym(owner)
		}
		asked := false
		for _, n := range g.nodes {
			if call, ok := n.instr.(*ssa.Call); ok && n.kind == KInstr && isLF(VC{call, n.ctx}) {
				asked = true
			}
		}
		stores := func(n *Node) (VC, bool) {
			st, ok := n.instr.(*ssa.Store)
			if !ok || n.kind != KInstr {
				return VC{}, false
			}
			_, fl, _, ok := g.fieldOf(VC{st.Addr, n.ctx})
			return VC{st.Val, n.ctx}, ok && fl == "frameDecoder"
		}
		c.track(g, g.entry, &track{key: "frames|" + fnName(f), once: true,
			ev: func(g *Graph, n *Node) []int {
				if v, ok := stores(n); ok {
					if k, isk := g.trace(v).v.(*ssa.Const); isk && k.Value == nil {
						return nil
					}
					return []int{0}
				}
				return nil
			},
			on: func(g *Graph, n *Node, i int, m marks) string {
				v, _ := stores(n)
				x := g.trace(v)
				if mi, ok := x.v.(*ssa.MakeInterface); ok {
					x = g.trace(VC{mi.X, x.c})
				}
				call, ok := x.v.(*ssa.Call)
				if !ok || !strings.Contains(calleeName(call), "NewFrameDecoder") {
					c.undecided(n.posn(c.P) + " frame decoder of unknown make")
					return ""
				}
				if u, ok := call.Call.Args[0].(*ssa.UnOp); ok {
					if al, ok := u.X.(*ssa.Alloc); ok {
						for _, r := range *al.Referrers() {
							if fa, ok := r.(*ssa.FieldAddr); ok {
								for _, q := range *fa.Referrers() {
									if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
										return "the length field is changed before the connection's frame decoder is made"
									}
								}
							}
						}
					}
				}
				a := g.trace(VC{call.Call.Args[0], x.c})
				if u, ok := a.v.(*ssa.UnOp); ok {
					a = g.trace(VC{u.X, a.c})
				}
				if !isLF(a) {
					return "the connection's frame decoder is not made for the length field of its server's or client's decoder"
				}
				return ""
			},
			edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
				for _, a := range at {
					if v, isnil, ok := a.nilness(); ok && isnil && isLF(v) {
						m.x = "none"
					}
				}
				return m, true
			},
			end: func(g *Graph, n *Node, m marks) string {
				if normalEnd(n) && n.kind == KExit && !m.has(0) && m.x != "none" && asked {
					return "a connection is made without a frame decoder although its server or client has a length field"
				}
				if normalEnd(n) && n.kind == KExit && !asked {
					return "a connection is made without asking its server or client for the length field: no frame decoder"
				}
				return ""
			}})
	}
}

package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// connT describes one connection type of the library: the fields the rules on
// its life speak about.
type connT struct {
	T                                                        *types.Named
	name                                                     string
	conn, hc, mgr, queue, ctx, cancel, onStart, onStop, bufw string

	selSent  int
	selGraph *Graph
}

func connKinds(c *C) []*connT {
	var out []*connT
	for _, T := range c.P.implTypes("IConnection") {
		if T.Obj().Pkg() == nil || relPkg(T.Obj().Pkg().Path()) != "znet" {
			continue
		}
		if _, ok := T.Underlying().(*types.Struct); !ok || c.P.methodOf(types.NewPointer(T), "Start") == nil {
			continue
		}
		t := &connT{T: T, name: T.Obj().Name()}
		t.conn = c.needField(T, "conn", "")
		t.hc = c.needField(T, "hc", "ziface.IHeartbeatChecker")
		t.mgr = c.needField(T, "connManager", "ziface.IConnManager")
		t.queue = c.needField(T, "msgBuffChan", "chan []byte")
		t.ctx = c.needField(T, "ctx", "context.Context")
		t.cancel = c.needField(T, "cancel", "context.CancelFunc")
		t.onStart = c.needField(T, "onConnStart", "")
		t.onStop = c.needField(T, "onConnStop", "")
		t.bufw = c.fieldLike(T, "bufWriter", "*bufio.Writer")
		out = append(out, t)
	}
	return out
}

func (t *connT) method(c *C, name string) *ssa.Function { return c.needMethod("znet", t.name, name) }

// transport operations: "read", "write" (of the bytes in arg), "flush", "close",
// "bufwrite".
func (t *connT) io(g *Graph, n *Node) (op string, data int) {
	ci, ok := n.instr.(ssa.CallInstruction)
	if !ok || n.kind == KAfter || n.kind == KGate || n.kind == KBlock {
		return "", 0
	}
	cc := ci.Common()
	var name string
	var recv VC
	base := 0
	if cc.IsInvoke() {
		name, recv = cc.Method.Name(), VC{cc.Value, n.ctx}
		base = 1
	} else if sc := cc.StaticCallee(); sc != nil && sc.Signature.Recv() != nil && len(cc.Args) > 0 {
		name, recv = sc.Name(), VC{cc.Args[0], n.ctx}
		base = 1
	} else {
		return "", 0
	}
	if _, isgo := ci.(*ssa.Go); isgo {
		return "", 0
	}
	if g.isField(recv, t.T, t.conn) {
		switch name {
		case "Read", "ReadMessage", "NextReader":
			return "read", base
		case "Write":
			return "write", base
		case "WriteMessage":
			return "write", base + 1
		case "Close":
			return "close", 0
		}
	}
	if t.bufw != "" && g.isField(recv, t.T, t.bufw) {
		switch name {
		case "Write":
			return "bufwrite", base
		case "Flush":
			return "flush", 0
		}
	}
	return "", 0
}

// flagTest: the branch decided whether the connection's own closed flag is set
// (set: it is; ok: decided). won: this path is the one that set it.
func (t *connT) flagTest(g *Graph, at []Atom) (set, won, ok bool) {
	for _, a := range at {
		x := g.trace(a.X)
		if call, okc := x.v.(*ssa.Call); okc && atomicOn(g, x, "closed") {
			nm := calleeName(call)
			switch {
			case strings.Contains(nm, "CompareAndSwap") && a.Op == 0:
				if a.Val {
					return false, true, true
				}
				return true, false, true
			case strings.Contains(nm, "Swap") && a.Op == 0:
				return a.Val, !a.Val, true
			case strings.Contains(nm, "Load"):
				if a.Op == 0 {
					return a.Val, false, true
				}
				if (a.Op == token.EQL || a.Op == token.NEQ) && strings.HasPrefix(a.SY, "#") {
					return (a.SY != "#0" && a.SY != "#false") == (a.Op == token.EQL), false, true
				}
			}
		}
		if a.Op == 0 {
			if nm, f, _, okf := g.fieldOf(x); okf && nm.Obj() == t.T.Obj() && strings.Contains(strings.ToLower(f), "closed") && isBool(x.v.Type()) {
				return a.Val, false, true
			}
		}
	}
	return false, false, false
}

// setsFlag: the node sets the closed flag.
func (t *connT) setsFlag(g *Graph, n *Node) bool {
	if n.kind != KInstr && n.kind != KDeferCall {
		return false
	}
	if st, ok := n.instr.(*ssa.Store); ok {
		nm, f, _, ok := g.fieldOf(VC{st.Addr, n.ctx})
		if !ok || nm.Obj() != t.T.Obj() || !strings.Contains(strings.ToLower(f), "closed") || !isBool(st.Val.Type()) {
			return false
		}
		k, isc := st.Val.(*ssa.Const)
		return !isc || k.Value == nil || k.Value.ExactString() == "true"
	}
	if call, ok := n.instr.(*ssa.Call); ok && atomicOn(g, VC{call, n.ctx}, "closed") {
		return strings.Contains(calleeName(call), "Store") || strings.Contains(calleeName(call), "Add")
	}
	return false
}

// ctxErr: the branch decided that the connection's context has ended (true) or
// not.
func ctxErr(g *Graph, at []Atom) (ended, ok bool) {
	for _, a := range at {
		if v, isnil, ok := a.nilness(); ok {
			if call, okc := g.trace(v).v.(*ssa.Call); okc && call.Call.IsInvoke() && call.Call.Method.FullName() == "(context.Context).Err" {
				return !isnil, true
			}
		}
	}
	return false, false
}

func (t *connT) nilField(g *Graph, at []Atom, f string) (isnil, ok bool) {
	for _, a := range at {
		if v, isnil, ok := a.nilness(); ok && g.isField(v, t.T, f) {
			return isnil, true
		}
	}
	return false, false
}

// subtree: some node of the expansion below x satisfies p.
func (g *Graph) subtree(x *Ctx, p func(n *Node) bool) bool {
	for _, n := range g.nodes {
		for y := n.ctx; y != nil; y = y.parent {
			if y == x {
				if p(n) {
					return true
				}
				break
			}
		}
	}
	return false
}

// errAt says whether a returned error is nil ('n'), not nil ('N'), or which
// value it is.
func (g *Graph) errAt(v VC, e env) (byte, VC) {
	if a, ok := g.eval(v, e); ok && (a.k == 'n' || a.k == 'N') {
		return a.k, VC{}
	}
	w, _ := g.resolve1(v, e)
	return 0, g.trace(w)
}

// normalEnd: a final node of a function or goroutine that returned.
func normalEnd(n *Node) bool {
	if n.kind == KExit {
		return true
	}
	_, ok := n.instr.(*ssa.Return)
	return ok && n.kind == KInstr
}

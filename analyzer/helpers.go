package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- events on paths

// marks is a path state: which events were seen (and how often, up to two).
type marks struct {
	once, twice uint64
	x           string // free-form part
}

func (m marks) Key() string {
	var b [16]byte
	for i := 0; i < 8; i++ {
		b[i] = byte(m.once >> (8 * i))
		b[8+i] = byte(m.twice >> (8 * i))
	}
	return string(b[:]) + m.x
}

func (m marks) has(i int) bool { return m.once&(1<<uint(i)) != 0 }
func (m marks) dup(i int) bool { return m.twice&(1<<uint(i)) != 0 }
func (m marks) set(i int) marks {
	b := uint64(1) << uint(i)
	if m.once&b != 0 {
		m.twice |= b
	}
	m.once |= b
	return m
}
func (m marks) clear(i int) marks {
	b := uint64(1) << uint(i)
	m.once &^= b
	m.twice &^= b
	return m
}

// track runs a marks automaton: ev returns the events of a node in order; on
// sees each event before it is recorded and may return an explanation of a
// violation; edge may set marks from decided conditions; end judges final
// states.
type track struct {
	ev   func(g *Graph, n *Node) []int
	on   func(g *Graph, n *Node, i int, m marks) string
	edge func(g *Graph, n *Node, a []Atom, m marks) (marks, bool)
	end  func(g *Graph, n *Node, m marks) string
	step func(g *Graph, n *Node, m marks) (marks, bool) // extra transition; false stops the path
	key  string                                         // construct name prefix
	once bool                                           // events repeated in loops do not count twice
	e    env                                            // what the path knows (valid during on and ev)
}

func (c *C) track(g *Graph, start *Node, t *track) {
	bad := map[string]bool{}
	r := &Rule{Init: marks{}}
	r.NodeE = func(g *Graph, n *Node, a Auto, e env) Auto {
		m := a.(marks)
		t.e = e
		if t.step != nil {
			var ok bool
			if m, ok = t.step(g, n, m); !ok {
				return nil
			}
		}
		for _, i := range t.ev(g, n) {
			if t.on != nil {
				if why := t.on(g, n, i, m); why != "" {
					k := t.key + "|" + why
					if !bad[k+n.posn(g.P)] {
						bad[k+n.posn(g.P)] = true
						c.failN(k+"|"+fnName(n.fn()), n, why)
					}
				} else {
					c.okN(n)
				}
			}
			m = m.set(i)
			if t.once {
				m.twice = 0
			}
		}
		return m
	}
	if t.edge != nil {
		r.Edge = func(g *Graph, n *Node, a Auto, at []Atom) Auto {
			m, ok := t.edge(g, n, at, a.(marks))
			if !ok {
				return nil
			}
			return m
		}
	}
	r.End = func(g *Graph, n *Node, a Auto, w func() []string) {
		if t.end == nil {
			return
		}
		if why := t.end(g, n, a.(marks)); why != "" {
			if !bad[why] {
				bad[why] = true
				c.fail(t.key+"|"+why, g.P.pos(g.root.fn.Pos()), fnName(g.root.fn), why, w()...)
			}
		} else {
			c.ok(fnName(g.root.fn))
		}
	}
	c.run(g, start, r)
}

// ---------------------------------------------------------------- map accesses

type mapOp struct {
	kind string // get set del range len
	m    VC
	key  VC
	val  VC
}

func mapOpOf(n *Node) (mapOp, bool) {
	if n.instr == nil || n.kind != KInstr && n.kind != KDeferCall {
		return mapOp{}, false
	}
	switch x := n.instr.(type) {
	case *ssa.MapUpdate:
		return mapOp{"set", VC{x.Map, n.ctx}, VC{x.Key, n.ctx}, VC{x.Value, n.ctx}}, true
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return mapOp{kind: "get", m: VC{x.X, n.ctx}, key: VC{x.Index, n.ctx}, val: VC{x, n.ctx}}, true
		}
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return mapOp{kind: "range", m: VC{x.X, n.ctx}}, true
		}
	case ssa.CallInstruction:
		cc := x.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete":
				return mapOp{kind: "del", m: VC{cc.Args[0], n.ctx}, key: VC{cc.Args[1], n.ctx}}, true
			case "clear":
				return mapOp{kind: "clear", m: VC{cc.Args[0], n.ctx}}, true
			case "len":
				if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
					return mapOp{kind: "len", m: VC{cc.Args[0], n.ctx}}, true
				}
			}
		}
	}
	return mapOp{}, false
}

// fieldOf: the value is (a load of, or the address of) field f of a T; returns
// the base object.
func (g *Graph) fieldOf(v VC) (T *types.Named, field string, base VC, ok bool) {
	v = g.trace(v)
	for i := 0; i < 4; i++ {
		switch x := v.v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				v = g.trace(VC{x.X, v.c})
				continue
			}
		case *ssa.FieldAddr:
			_, nm := structOf(x.X.Type())
			return nm, fieldName(x.X.Type(), x.Field), VC{x.X, v.c}, nm != nil
		case *ssa.Field:
			_, nm := structOf(x.X.Type())
			return nm, fieldName(x.X.Type(), x.Field), VC{x.X, v.c}, nm != nil
		}
		break
	}
	return nil, "", VC{}, false
}

// isField: value of field named f (any of the names) of type T.
func (g *Graph) isField(v VC, T *types.Named, names ...string) bool {
	nm, f, _, ok := g.fieldOf(v)
	if !ok || nm.Obj() != T.Obj() {
		return false
	}
	for _, n := range names {
		if n == f {
			return true
		}
	}
	return false
}

// fieldLike finds the field of T by name, or the only one of a given type.
func (c *C) fieldLike(T *types.Named, name, typ string) string {
	if T == nil {
		return ""
	}
	if hasField(T, name) {
		return name
	}
	fs := fieldsByType(T, func(t types.Type) bool {
		return strings.ReplaceAll(t.String(), modPath+"/", "") == typ
	})
	if len(fs) == 1 {
		return fs[0]
	}
	return ""
}

func (c *C) needField(T *types.Named, name, typ string) string {
	f := c.fieldLike(T, name, typ)
	if f == "" {
		c.missing(T.Obj().Name() + "." + name)
	}
	return f
}

func (c *C) needMethod(rel, typ, name string) *ssa.Function {
	f := c.P.Method(rel, typ, name)
	if f == nil {
		c.missing("(" + rel + "." + typ + ")." + name)
	}
	return f
}

func (c *C) needFunc(rel, name string) *ssa.Function {
	f := c.P.Func(rel, name)
	if f == nil {
		c.missing(rel + "." + name)
	}
	return f
}

func (c *C) needType(rel, name string) *types.Named {
	t := c.P.Type(rel, name)
	if t == nil {
		c.missing("type " + rel + "." + name)
	}
	return t
}

// implementersOf lists the library struct types implementing an interface.
func (P *Program) implTypes(iface string) []*types.Named {
	it := P.Iface(iface)
	if it == nil {
		return nil
	}
	var out []*types.Named
	for _, T := range P.LibTypes {
		n, ok := T.(*types.Named)
		if !ok || n.TypeParams().Len() > 0 {
			continue
		}
		if _, isif := T.Underlying().(*types.Interface); isif {
			continue
		}
		if types.Implements(T, it) || types.Implements(types.NewPointer(T), it) {
			out = append(out, n)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Obj().Name() < out[j].Obj().Name() })
	return out
}

// param is the i-th parameter (receiver 0) of the root.
func (g *Graph) param(i int) VC {
	if i < len(g.root.fn.Params) {
		return VC{g.root.fn.Params[i], g.root}
	}
	return VC{}
}

func (g *Graph) psym(i int) string {
	v := g.param(i)
	if v.v == nil {
		return "<none>"
	}
	return g.sym(v)
}

// userCall: a call that runs code of the user of the library: a function value
// that is not one of the repository's own, or a method of an interface the
// user implements.
func userCall(g *Graph, n *Node) bool {
	if !isCallNode(n) {
		return false
	}
	cc := n.instr.(ssa.CallInstruction).Common()
	if cc.IsInvoke() {
		m := cc.Method
		if m.Pkg() == nil || !inRepo(m.Pkg().Path()) {
			return false
		}
		nt, ok := cc.Value.Type().(*types.Named)
		if !ok {
			return false
		}
		switch nt.Obj().Name() {
		case "IRouter", "IInterceptor", "IDecoder", "IDataPack":
			return true
		}
		return false
	}
	if cc.StaticCallee() != nil {
		return false
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return false
	}
	if len(n.callees) > 0 {
		return false
	}
	// context.CancelFunc and other function values of the standard library
	if nt, ok := cc.Value.Type().(*types.Named); ok && (nt.Obj().Pkg() == nil || !inRepo(nt.Obj().Pkg().Path())) {
		return false
	}
	return true
}

func contains(s []string, x string) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

func hasAny(s string, subs ...string) bool {
	for _, x := range subs {
		if strings.Contains(s, x) {
			return true
		}
	}
	return false
}

// closedTest: the branch decided whether the connection is closed.
func closedTest(g *Graph, at []Atom) (closed, ok bool) {
	for _, a := range at {
		if v, isnil, ok := a.nilness(); ok {
			if call, okc := g.trace(v).v.(*ssa.Call); okc && call.Call.IsInvoke() && call.Call.Method.FullName() == "(context.Context).Err" {
				return !isnil, true
			}
			if _, f, _, okf := g.fieldOf(v); okf && isnil && f == "ctx" {
				return true, true
			}
		}
		t := g.trace(a.X)
		if a.Op == 0 {
			if _, f, _, okf := g.fieldOf(t); okf && strings.Contains(strings.ToLower(f), "closed") {
				return a.Val, true
			}
			if call, okc := t.v.(*ssa.Call); okc {
				nm := calleeName(call)
				if atomicOn(g, t, "closed") {
					switch {
					case strings.Contains(nm, "Load"):
						return a.Val, true
					case strings.Contains(nm, "CompareAndSwap"):
						if !a.Val {
							return true, true
						}
					}
				}
			}
		}
		if (a.Op == token.EQL || a.Op == token.NEQ) && strings.HasPrefix(a.SY, "#") {
			if call, okc := t.v.(*ssa.Call); okc && strings.Contains(calleeName(call), "Load") && atomicOn(g, t, "closed") {
				return (a.SY != "#0" && a.SY != "#false") == (a.Op == token.EQL), true
			}
		}
	}
	return false, false
}

func calleeName(call *ssa.Call) string {
	if f := call.Call.StaticCallee(); f != nil {
		return f.String()
	}
	if call.Call.IsInvoke() {
		return call.Call.Method.FullName()
	}
	return ""
}

// atomicOn: a sync/atomic operation on a field whose name contains part.
func atomicOn(g *Graph, v VC, part string) bool {
	call, ok := v.v.(*ssa.Call)
	if !ok || !strings.Contains(calleeName(call), "sync/atomic") || len(call.Call.Args) == 0 {
		return false
	}
	_, f, _, ok := g.fieldOf(VC{call.Call.Args[0], v.c})
	return ok && strings.Contains(strings.ToLower(f), part)
}

// fieldCall: the node calls the function stored in field f of a T (or the
// method m of the interface stored there, when m is given).
func fieldCall(g *Graph, n *Node, T *types.Named, f, m string) bool {
	ci, ok := n.instr.(ssa.CallInstruction)
	if !ok || n.kind == KAfter || n.kind == KGate {
		return false
	}
	cc := ci.Common()
	if m == "" {
		if cc.IsInvoke() || cc.StaticCallee() != nil {
			return false
		}
		return g.isField(VC{cc.Value, n.ctx}, T, f)
	}
	if cc.IsInvoke() {
		return cc.Method.Name() == m && g.isField(VC{cc.Value, n.ctx}, T, f)
	}
	sc := cc.StaticCallee()
	if sc == nil || sc.Name() != m || sc.Signature.Recv() == nil || len(cc.Args) == 0 {
		return false
	}
	return g.isField(VC{cc.Args[0], n.ctx}, T, f)
}

// baseOf names the object a field value belongs to.
func (g *Graph) baseOf(v VC) string {
	_, _, b, ok := g.fieldOf(v)
	if !ok {
		return ""
	}
	return g.sym(b)
}

// selCase: a branch decided that case k of a select was taken.
func selCase(g *Graph, at []Atom) (*ssa.Select, int, *Ctx, bool) {
	for _, a := range at {
		if a.Op != token.EQL || !strings.HasPrefix(a.SY, "#") {
			continue
		}
		x := g.norm(a.X)
		ex, ok := x.v.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			continue
		}
		if s, ok := ex.Tuple.(*ssa.Select); ok {
			k := 0
			for _, ch := range a.SY[1:] {
				if ch < '0' || ch > '9' {
					return nil, 0, nil, false
				}
				k = k*10 + int(ch-'0')
			}
			if k < len(s.States) {
				return s, k, x.c, true
			}
		}
	}
	return nil, 0, nil, false
}

// isDone: the channel is the Done channel of a context.
func (g *Graph) isDone(v VC) bool {
	call, ok := g.trace(v).v.(*ssa.Call)
	return ok && call.Call.IsInvoke() && call.Call.Method.FullName() == "(context.Context).Done"
}

// isTimerChan: the channel is the C field of a time.Timer/Ticker, or time.After.
func (g *Graph) isTimerChan(v VC) bool {
	t := g.trace(v)
	if call, ok := t.v.(*ssa.Call); ok {
		n := calleeName(call)
		return n == "time.After" || n == "time.Tick"
	}
	nm, f, _, ok := g.fieldOf(t)
	return ok && f == "C" && nm.Obj().Pkg() != nil && nm.Obj().Pkg().Path() == "time"
}

// blocking: the node may wait for another party without a bound. what says how.
func blocking(g *Graph, n *Node) (what string, ch VC) {
	if n.kind != KInstr && n.kind != KDeferCall {
		return "", VC{}
	}
	switch x := n.instr.(type) {
	case *ssa.Send:
		return "sends on a channel", VC{x.Chan, n.ctx}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return "receives from a channel", VC{x.X, n.ctx}
		}
	case *ssa.Select:
		if x.Blocking {
			for _, s := range x.States {
				if s.Dir == types.RecvOnly && g.isTimerChan(VC{s.Chan, n.ctx}) {
					return "", VC{}
				}
			}
			if len(x.States) > 0 {
				return "waits in a select", VC{x.States[0].Chan, n.ctx}
			}
			return "waits in a select", VC{}
		}
	}
	switch g.callName(n) {
	case "(*sync.WaitGroup).Wait":
		return "waits for other goroutines", VC{}
	case "(*sync.Cond).Wait":
		return "waits for a condition", VC{}
	case "time.Sleep":
		return "sleeps", VC{}
	}
	return "", VC{}
}

// reaches lists, per library root, the graphs in which some node satisfies p.
func (c *C) rootsReaching(rels []string, pol func() *Policy, p func(g *Graph, n *Node) bool, f func(g *Graph, hits []*Node)) {
	for _, fn := range c.P.Roots(rels...) {
		var po *Policy
		if pol != nil {
			po = pol()
		}
		g := c.graph(fn, po)
		var hits []*Node
		for _, n := range g.nodes {
			if n.instr != nil && (n.kind == KInstr || n.kind == KDeferCall) && p(g, n) {
				hits = append(hits, n)
			}
		}
		if len(hits) > 0 {
			f(g, hits)
		}
	}
}

// spawnOf returns the outermost go statement's body a node belongs to (nil: the
// root's own flow).
func spawnOf(n *Node) *Ctx {
	for x := n.ctx; x != nil; x = x.parent {
		if x.spawned {
			return x
		}
	}
	return nil
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The interprocedural control-flow graph of one entry point. Calls to
// repository functions are expanded in place (context by context), deferred
// calls are expanded where they run, goroutines are expanded beside the graph,
// and panics run the deferred calls of every frame they unwind.

type Ctx struct {
	id       int
	fn       *ssa.Function
	parent   *Ctx
	site     ssa.CallInstruction
	args     []VC
	free     []VC
	spawned  bool // body of a go statement
	deferred bool
	panicRun bool // a deferred call run while unwinding
	depth    int
	entry    *Node
	rets     []*Node
	recRet   *Node // return after a recovered panic
	pchain   []*Node
	pentry   []*Node
	defers   []*ssa.Defer
}

// VC is an SSA value in a context.
type VC struct {
	v ssa.Value
	c *Ctx
}

type NodeKind int

const (
	KInstr NodeKind = iota
	KBlock          // start of a basic block
	KAfter          // just after an expanded call
	KDeferCall
	KGate
	KPanicking
	KPanicEnd
	KRecovered
	KExit      // normal exit of the entry function
	KPanicRoot // an unrecovered panic leaves the entry function
)

type Node struct {
	id    int
	kind  NodeKind
	ctx   *Ctx
	instr ssa.Instruction
	block *ssa.BasicBlock
	succ  []Edge

	callees []*Ctx // expanded callees
	fns     []*ssa.Function
	opaque  bool // may (also) run code that is not expanded
	spawn   []*Ctx
}

type Edge struct {
	to *Node

	cond  ssa.Value // If condition in from.ctx
	taken bool

	phiFrom, phiTo *ssa.BasicBlock
	phiCtx         *Ctx

	ret     *ssa.Return
	retFrom *Ctx // the callee frame left
	retCall ssa.CallInstruction
	retTo   *Ctx

	gate    *ssa.Defer
	gateCtx *Ctx
	run     bool

	rec int // 1: only if recovered, 2: only if not
}

type Policy struct {
	// Inline decides whether a repository function is expanded.
	Inline func(f *ssa.Function) bool
	// Dispatch makes interface calls fork over library implementers.
	Dispatch bool
	MaxImpls int
	MaxDepth int
	// MayPanic adds an unwinding edge to a call node.
	MayPanic func(g *Graph, n *Node) bool
	// NoSpawn leaves goroutine bodies unexpanded.
	NoSpawn bool
	// Only restricts calls through an interface to one library type.
	Only map[string]string
}

type Graph struct {
	P      *Program
	pol    *Policy
	root   *Ctx
	entry  *Node
	exit   *Node
	proot  *Node
	nodes  []*Node
	ctxs   []*Ctx
	spawns []*Ctx
	calls  map[callKey][]*Ctx
	symM   map[VC]string
	symBsy map[VC]bool
	stores map[VC][]VC
	useful map[string]int
	trunc  bool
	tdepth int
}

type callKey struct {
	c *Ctx
	i ssa.CallInstruction
}

func defaultInline(f *ssa.Function) bool {
	if !fnInRepo(f) || len(f.Blocks) == 0 {
		// thunks and bound-method wrappers have bodies but no package
		return f.Synthetic != "" && len(f.Blocks) > 0 && fnInRepo(f)
	}
	r := fnRel(f)
	return r != "zlog" && r != "logo" && !strings.HasPrefix(r, "examples")
}

func (P *Program) Graph(root *ssa.Function, pol *Policy) *Graph {
	if pol == nil {
		pol = &Policy{}
	}
	if pol.Inline == nil {
		pol.Inline = defaultInline
		if fnRel(root) == "zlog" {
			pol.Inline = func(f *ssa.Function) bool { return fnInRepo(f) && len(f.Blocks) > 0 }
		}
	}
	if pol.MaxDepth == 0 {
		pol.MaxDepth = 12
	}
	if pol.MaxImpls == 0 {
		pol.MaxImpls = 8
	}
	g := &Graph{P: P, pol: pol, calls: map[callKey][]*Ctx{}, symM: map[VC]string{}, symBsy: map[VC]bool{}, stores: map[VC][]VC{}}
	g.exit = g.node(KExit, nil, nil)
	g.proot = g.node(KPanicRoot, nil, nil)
	g.root = g.newCtx(root, nil, nil)
	g.frame(g.root)
	g.entry = g.root.entry
	for _, r := range g.root.rets {
		r.succ = append(r.succ, Edge{to: g.exit})
	}
	if g.root.recRet != nil {
		g.root.recRet.succ = append(g.root.recRet.succ, Edge{to: g.exit})
	}
	g.exit.ctx, g.proot.ctx = g.root, g.root
	g.countUseful()
	return g
}

func (g *Graph) node(k NodeKind, c *Ctx, in ssa.Instruction) *Node {
	n := &Node{id: len(g.nodes), kind: k, ctx: c, instr: in}
	g.nodes = append(g.nodes, n)
	return n
}

func (g *Graph) newCtx(f *ssa.Function, parent *Ctx, site ssa.CallInstruction) *Ctx {
	c := &Ctx{id: len(g.ctxs), fn: f, parent: parent, site: site}
	if parent != nil {
		c.depth = parent.depth + 1
	}
	g.ctxs = append(g.ctxs, c)
	return c
}

func (g *Graph) frame(c *Ctx) {
	fn := c.fn
	starts := map[*ssa.BasicBlock]*Node{}
	for _, b := range fn.Blocks {
		if b == fn.Recover {
			continue
		}
		n := g.node(KBlock, c, nil)
		n.block = b
		starts[b] = n
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				c.defers = append(c.defers, d)
			}
			if st, ok := in.(*ssa.Store); ok {
				g.noteStore(c, st)
			}
		}
	}
	c.entry = starts[fn.Blocks[0]]
	for _, b := range fn.Blocks {
		if b == fn.Recover {
			continue
		}
		cur := starts[b]
		for _, in := range b.Instrs {
			if cur == nil {
				break
			}
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.If:
				n := g.node(KInstr, c, x)
				link(cur, n)
				for i, s := range b.Succs {
					n.succ = append(n.succ, Edge{to: starts[s], cond: x.Cond, taken: i == 0, phiFrom: b, phiTo: s, phiCtx: c})
				}
				cur = nil
			case *ssa.Jump:
				s := b.Succs[0]
				cur.succ = append(cur.succ, Edge{to: starts[s], phiFrom: b, phiTo: s, phiCtx: c})
				cur = nil
			case *ssa.Return:
				n := g.node(KInstr, c, x)
				link(cur, n)
				c.rets = append(c.rets, n)
				cur = nil
			case *ssa.Panic:
				n := g.node(KInstr, c, x)
				link(cur, n)
				link(n, g.panicExit(c))
				cur = nil
			case *ssa.RunDefers:
				n := g.node(KInstr, c, x)
				link(cur, n)
				cur = n
				for i := len(c.defers) - 1; i >= 0; i-- {
					d := c.defers[i]
					cur = g.deferCall(c, d, cur, !d.Block().Dominates(b))
				}
			case *ssa.Go:
				n := g.node(KInstr, c, x)
				link(cur, n)
				cur = n
				cs, opaque := g.resolve(c, x)
				n.opaque = opaque
				n.fns = cs.fns()
				if !g.pol.NoSpawn {
					for _, r := range cs {
						if g.expandable(c, r.fn) {
							k := g.bind(c, x, r)
							k.spawned = true
							g.frame(k)
							n.spawn = append(n.spawn, k)
							g.spawns = append(g.spawns, k)
							g.calls[callKey{c, x}] = append(g.calls[callKey{c, x}], k)
						}
					}
				}
			case *ssa.Call:
				n := g.node(KInstr, c, x)
				link(cur, n)
				cur = g.call(c, x, n)
			default:
				n := g.node(KInstr, c, in)
				link(cur, n)
				cur = n
			}
		}
	}
}

func link(a, b *Node) { a.succ = append(a.succ, Edge{to: b}) }

// call expands the callees of a call node; it returns the node control reaches
// after the call.
func (g *Graph) call(c *Ctx, x ssa.CallInstruction, n *Node) *Node {
	cs, opaque := g.resolve(c, x)
	n.fns = cs.fns()
	n.opaque = opaque
	g.callbacks(c, x, n)
	any := false
	var after *Node
	optional := false
	if isOnceDo(x) {
		optional = true
	}
	for _, r := range cs {
		if !g.expandable(c, r.fn) {
			n.opaque = true
			continue
		}
		if after == nil {
			after = g.node(KAfter, c, x)
		}
		any = true
		k := g.bind(c, x, r)
		g.calls[callKey{c, x}] = append(g.calls[callKey{c, x}], k)
		if n.kind == KDeferCall {
			k.deferred = true
		}
		g.frame(k)
		n.callees = append(n.callees, k)
		link(n, k.entry)
		for _, ret := range k.rets {
			rx, _ := ret.instr.(*ssa.Return)
			ret.succ = append(ret.succ, Edge{to: after, ret: rx, retFrom: k, retCall: x, retTo: c})
		}
		if k.recRet != nil {
			k.recRet.succ = append(k.recRet.succ, Edge{to: after, retFrom: k, retCall: x, retTo: c})
		}
	}
	if g.pol.MayPanic != nil && g.pol.MayPanic(g, n) {
		if n.kind == KDeferCall {
			link(n, g.panicFrom(c, c.deferIdx(x)))
		} else {
			link(n, g.panicExit(c))
		}
	}
	if !any {
		return n
	}
	if n.opaque || optional {
		link(n, after)
	}
	return after
}

// callbacks: functions handed to the standard library that run later, in a
// goroutine of their own.
func (g *Graph) callbacks(c *Ctx, x ssa.CallInstruction, n *Node) {
	f := x.Common().StaticCallee()
	if f == nil || f.Pkg == nil || g.pol.NoSpawn || n.kind == KDeferCall {
		return
	}
	if f.Pkg.Pkg.Path() != "net/http" && f.String() != "time.AfterFunc" {
		return
	}
	for _, a := range x.Common().Args {
		v := g.trace(VC{a, c})
		if mi, ok := v.v.(*ssa.MakeInterface); ok {
			v = g.trace(VC{mi.X, v.c})
		}
		r, ok := g.funcOf(v)
		if !ok || !g.expandable(c, r.fn) {
			continue
		}
		r.once = true // its parameters are not those of the call
		k := g.bind(c, x, r)
		k.spawned = true
		g.frame(k)
		n.spawn = append(n.spawn, k)
		g.spawns = append(g.spawns, k)
	}
}

func isOnceDo(x ssa.CallInstruction) bool {
	f := x.Common().StaticCallee()
	return f != nil && f.String() == "(*sync.Once).Do"
}

func (g *Graph) deferCall(c *Ctx, d *ssa.Defer, cur *Node, gated bool) *Node {
	n := g.node(KDeferCall, c, d)
	if gated {
		gt := g.node(KGate, c, d)
		link(cur, gt)
		gt.succ = append(gt.succ, Edge{to: n, gate: d, gateCtx: c, run: true})
		tail := g.call(c, d, n)
		after := g.node(KAfter, c, d)
		link(tail, after)
		gt.succ = append(gt.succ, Edge{to: after, gate: d, gateCtx: c, run: false})
		return after
	}
	link(cur, n)
	return g.call(c, d, n)
}

// panicExit is the node where a panic enters the unwinding of a frame: every
// deferred call registered so far runs, last first.
func (g *Graph) panicExit(c *Ctx) *Node { return g.panicFrom(c, len(c.defers)) }

// panicFrom enters the unwinding of a frame when its deferred calls from
// position i on have already run (or are the ones panicking).
func (g *Graph) panicFrom(c *Ctx, i int) *Node {
	g.unwind(c)
	if n := c.pentry[i]; n != nil {
		return n
	}
	n := g.node(KPanicking, c, nil)
	c.pentry[i] = n
	link(n, c.pchain[i])
	return n
}

// unwind builds the chain of deferred calls a panicking frame runs. pchain[i]
// is the point where the calls before position i are still to run.
func (g *Graph) unwind(c *Ctx) {
	if c.pchain != nil {
		return
	}
	c.pchain = make([]*Node, len(c.defers)+1)
	c.pentry = make([]*Node, len(c.defers)+1)
	for i := range c.pchain {
		c.pchain[i] = g.node(KAfter, c, nil)
	}
	recovers := false
	for i := len(c.defers); i > 0; i-- {
		d := c.defers[i-1]
		cur := g.deferCall(c, d, c.pchain[i], true)
		link(cur, c.pchain[i-1])
		if deferRecovers(d) {
			recovers = true
		}
	}
	end := g.node(KPanicEnd, c, nil)
	link(c.pchain[0], end)
	var up *Node
	if c.parent == nil || c.spawned {
		up = g.proot
	} else if c.deferred {
		up = g.panicFrom(c.parent, c.parent.deferIdx(c.site))
	} else {
		up = g.panicExit(c.parent)
	}
	end.succ = append(end.succ, Edge{to: up, rec: 2})
	if recovers {
		r := g.node(KRecovered, c, nil)
		end.succ = append(end.succ, Edge{to: r, rec: 1})
		c.recRet = r
		if c.parent == nil || c.spawned {
			if c.parent == nil {
				link(r, g.exit)
				c.recRet = nil
			}
		}
	}
}

func (c *Ctx) deferIdx(site ssa.CallInstruction) int {
	for i, d := range c.defers {
		if ssa.CallInstruction(d) == site {
			return i
		}
	}
	return 0
}

// deferRecovers: the deferred function itself calls recover on every path.
func deferRecovers(d *ssa.Defer) bool {
	var f *ssa.Function
	switch v := d.Call.Value.(type) {
	case *ssa.Function:
		f = v
	case *ssa.MakeClosure:
		f, _ = v.Fn.(*ssa.Function)
	}
	if f == nil || d.Call.IsInvoke() {
		return false
	}
	return recoversAlways(f)
}

func recoversAlways(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			bi, ok := c.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "recover" {
				continue
			}
			all := true
			for _, rb := range f.Blocks {
				if len(rb.Instrs) > 0 {
					if _, ok := rb.Instrs[len(rb.Instrs)-1].(*ssa.Return); ok && rb != f.Recover && !b.Dominates(rb) {
						all = false
					}
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

type callee struct {
	fn   *ssa.Function
	recv *VC  // receiver for invoke-mode calls
	free []VC // closure bindings
	once bool // first argument of (*sync.Once).Do
}
type calleeList []callee

func (l calleeList) fns() (r []*ssa.Function) {
	for _, c := range l {
		r = append(r, c.fn)
	}
	return
}

func (g *Graph) expandable(c *Ctx, f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 || !g.pol.Inline(f) {
		return false
	}
	if c.depth+1 > g.pol.MaxDepth {
		g.trunc = true
		return false
	}
	cnt := 0
	for p := c; p != nil; p = p.parent {
		if p.fn == f {
			cnt++
		}
	}
	if cnt > 1 {
		return false
	}
	if len(g.nodes) > 60000 {
		g.trunc = true
		return false
	}
	return true
}

func (g *Graph) bind(c *Ctx, x ssa.CallInstruction, r callee) *Ctx {
	k := g.newCtx(r.fn, c, x)
	if r.once {
		k.free = r.free
		return k
	}
	cc := x.Common()
	if cc.IsInvoke() {
		k.args = append(k.args, VC{cc.Value, c})
	}
	for _, a := range cc.Args {
		k.args = append(k.args, VC{a, c})
	}
	k.free = r.free
	return k
}

// resolve finds the functions a call may run. opaque is set when code outside
// that list may run.
func (g *Graph) resolve(c *Ctx, x ssa.CallInstruction) (calleeList, bool) {
	cc := x.Common()
	if cc.IsInvoke() {
		recv := g.trace(VC{cc.Value, c})
		if mi, ok := recv.v.(*ssa.MakeInterface); ok {
			if f := g.P.lookupMethod(mi.X.Type(), cc.Method); f != nil {
				return calleeList{{fn: f}}, false
			}
			return nil, true
		}
		if !g.pol.Dispatch {
			return nil, true
		}
		it, _ := cc.Value.Type().Underlying().(*types.Interface)
		if it == nil || cc.Method.Pkg() == nil || !inRepo(cc.Method.Pkg().Path()) {
			return nil, true
		}
		if nt, ok := cc.Value.Type().(*types.Named); ok && nt.Obj().Name() == "IHash" {
			return nil, true
		}
		impls := g.P.Implementers(it, cc.Method)
		if nt, ok := cc.Value.Type().(*types.Named); ok && g.pol.Only[nt.Obj().Name()] != "" {
			var keep []*ssa.Function
			for _, f := range impls {
				if r := f.Signature.Recv(); r != nil && f.Synthetic == "" {
					if _, nm := structOf(r.Type()); nm != nil && nm.Obj().Name() == g.pol.Only[nt.Obj().Name()] {
						keep = append(keep, f)
					}
				}
			}
			if len(keep) > 0 {
				impls = keep
			}
		}
		if len(impls) == 0 || len(impls) > g.pol.MaxImpls {
			return nil, true
		}
		var out calleeList
		for _, f := range impls {
			out = append(out, callee{fn: f})
		}
		return out, userIface(cc.Value.Type())
	}
	if f := cc.StaticCallee(); f != nil {
		if f.String() == "(*sync.Once).Do" && len(cc.Args) == 2 {
			if l, ok := g.funcOf(VC{cc.Args[1], c}); ok {
				l.once = true
				return calleeList{l}, false
			}
			return nil, true
		}
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			return calleeList{{fn: f, free: g.bindings(c, mc)}}, !g.pol.Inline(f)
		}
		return calleeList{{fn: f}}, !g.pol.Inline(f)
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil, false
	}
	if l, ok := g.funcsOf(VC{cc.Value, c}, 0); ok {
		return l, false
	}
	return nil, true
}

// funcsOf: the functions a value may be when it is chosen among a few known
// ones.
func (g *Graph) funcsOf(v VC, d int) (calleeList, bool) {
	if l, ok := g.funcOf(v); ok {
		return calleeList{l}, true
	}
	t := g.trace(v)
	ph, ok := t.v.(*ssa.Phi)
	if !ok || d > 4 {
		return nil, false
	}
	var out calleeList
	for _, e := range ph.Edges {
		if e == ssa.Value(ph) {
			continue
		}
		if k, isc := e.(*ssa.Const); isc && k.Value == nil {
			continue
		}
		l, ok := g.funcsOf(VC{e, t.c}, d+1)
		if !ok {
			return nil, false
		}
		out = append(out, l...)
	}
	return out, len(out) > 0
}

func (P *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	sel := P.SSA.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	f := P.SSA.MethodValue(sel)
	if f == nil || len(f.Blocks) == 0 {
		return nil
	}
	return f
}

func (g *Graph) bindings(c *Ctx, mc *ssa.MakeClosure) (r []VC) {
	for _, b := range mc.Bindings {
		r = append(r, VC{b, c})
	}
	return
}

func (g *Graph) funcOf(v VC) (callee, bool) {
	v = g.trace(v)
	switch x := v.v.(type) {
	case *ssa.Function:
		return callee{fn: x}, true
	case *ssa.MakeClosure:
		f, _ := x.Fn.(*ssa.Function)
		return callee{fn: f, free: g.bindings(v.c, x)}, f != nil
	}
	return callee{}, false
}

// userIface: interfaces whose methods are supplied by the user.
func userIface(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return true
	}
	switch n.Obj().Name() {
	case "IRouter", "IInterceptor", "IDecoder", "IDataPack", "ILogger", "IHash", "IMessage":
		return true
	}
	return false
}

// trace follows a value through parameters, closure variables, conversions,
// single-assignment locals and single-result expanded calls to where it comes
// from.
func (g *Graph) trace(v VC) VC {
	g.tdepth++
	defer func() { g.tdepth-- }()
	if g.tdepth > 40 {
		return v
	}
	for i := 0; i < 64; i++ {
		w, ok := g.step(v)
		if !ok {
			return v
		}
		v = w
	}
	return v
}

func (g *Graph) step(v VC) (VC, bool) {
	switch x := v.v.(type) {
	case *ssa.Parameter:
		if v.c != nil && v.c.parent != nil {
			for i, p := range v.c.fn.Params {
				if p == x && i < len(v.c.args) {
					return v.c.args[i], true
				}
			}
		}
	case *ssa.FreeVar:
		if v.c != nil {
			for i, p := range v.c.fn.FreeVars {
				if p == x && i < len(v.c.free) {
					return v.c.free[i], true
				}
			}
		}
	case *ssa.ChangeType:
		return VC{x.X, v.c}, true
	case *ssa.ChangeInterface:
		return VC{x.X, v.c}, true
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return VC{x.X, v.c}, true
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return VC{ta.X, v.c}, true
		}
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return g.retValue(v.c, call, x.Index)
		}
	case *ssa.Call:
		if x.Call.Signature().Results().Len() == 1 {
			return g.retValue(v.c, x, 0)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a := g.trace(VC{x.X, v.c})
			if al, ok := a.v.(*ssa.Alloc); ok {
				st := g.stores[a]
				if len(st) == 1 && !addrEscapes(al) {
					return st[0], true
				}
			}
			// a local struct: a field set exactly once
		}
	case *ssa.Phi:
		var first *VC
		for _, e := range x.Edges {
			if e == x {
				continue
			}
			t := VC{e, v.c}
			if _, isphi := e.(*ssa.Phi); isphi {
				return v, false
			}
			t = g.trace(t)
			if first == nil {
				first = &t
			} else if *first != t {
				return v, false
			}
		}
		if first != nil {
			return *first, true
		}
	}
	return v, false
}

func (g *Graph) retValue(c *Ctx, call *ssa.Call, idx int) (VC, bool) {
	ks := g.calls[callKey{c, call}]
	if len(ks) != 1 {
		return VC{}, false
	}
	k := ks[0]
	if len(k.rets) == 0 {
		return VC{}, false
	}
	var first *VC
	for _, r := range k.rets {
		ret := r.instr.(*ssa.Return)
		if idx >= len(ret.Results) {
			return VC{}, false
		}
		t := VC{ret.Results[idx], k}
		if len(k.rets) > 1 {
			t = g.trace(t)
		}
		if first == nil {
			first = &t
		} else if *first != t {
			return VC{}, false
		}
	}
	return *first, true
}

func (g *Graph) noteStore(c *Ctx, st *ssa.Store) {
	a := g.trace(VC{st.Addr, c})
	if _, ok := a.v.(*ssa.Alloc); ok {
		g.stores[a] = append(g.stores[a], VC{st.Val, c})
	}
}

// addrEscapes: the address of a local is used for more than loads, stores,
// field selection and closure capture.
func addrEscapes(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp, *ssa.MakeClosure, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
		case *ssa.Store:
			if u.Val == al {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- symbols

// sym gives a value a name that two values share only if they denote the same
// thing (as far as loads of an unchanged location go).
func (g *Graph) sym(v VC) string {
	if s, ok := g.symM[v]; ok {
		return s
	}
	if g.symBsy[v] {
		return fmt.Sprintf("rec%d.%s", ctxID(v.c), v.v.Name())
	}
	g.symBsy[v] = true
	s := g.sym1(v)
	delete(g.symBsy, v)
	g.symM[v] = s
	return s
}

func ctxID(c *Ctx) int {
	if c == nil {
		return -1
	}
	return c.id
}

func (g *Graph) sym1(v VC) string {
	if v.v == nil {
		return "<none>"
	}
	if w, ok := g.step(v); ok {
		return g.sym(w)
	}
	reg := func(p string) string { return fmt.Sprintf("%s%d.%s", p, ctxID(v.c), v.v.Name()) }
	switch x := v.v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		return "#" + x.Value.ExactString()
	case *ssa.Global:
		return "G:" + relPkg(x.Pkg.Pkg.Path()) + "." + x.Name()
	case *ssa.Function:
		return "F:" + fnName(x)
	case *ssa.Builtin:
		return "builtin:" + x.Name()
	case *ssa.Parameter:
		for i, p := range v.c.fn.Params {
			if p == x {
				return fmt.Sprintf("P%d@%d", i, v.c.id)
			}
		}
	case *ssa.FreeVar:
		return reg("FV")
	case *ssa.Alloc:
		return reg("new")
	case *ssa.MakeClosure:
		return "F:" + fnName(x.Fn.(*ssa.Function))
	case *ssa.FieldAddr:
		return g.sym(VC{x.X, v.c}) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.Field:
		return g.sym(VC{x.X, v.c}) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		return g.sym(VC{x.X, v.c}) + "[" + g.sym(VC{x.Index, v.c}) + "]"
	case *ssa.Index:
		return g.sym(VC{x.X, v.c}) + "[" + g.sym(VC{x.Index, v.c}) + "]"
	case *ssa.Lookup:
		if !x.CommaOk {
			return g.sym(VC{x.X, v.c}) + "[" + g.sym(VC{x.Index, v.c}) + "]"
		}
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok {
			s := g.sym(VC{l.X, v.c}) + "[" + g.sym(VC{l.Index, v.c}) + "]"
			if x.Index == 0 {
				return s
			}
			return "has(" + s + ")"
		}
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			if r, ok := nx.Iter.(*ssa.Range); ok {
				return fmt.Sprintf("iter%d(%s,%d.%s)", x.Index, g.sym(VC{r.X, v.c}), ctxID(v.c), r.Name())
			}
		}
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return g.sym(VC{c, v.c}) + fmt.Sprintf("/%d", x.Index)
		}
	case *ssa.MakeInterface:
		return g.sym(VC{x.X, v.c})
	case *ssa.Convert:
		if isNumOrStr(x.Type()) && isNumOrStr(x.X.Type()) && bytesEq(x.Type(), x.X.Type()) {
			if w := fixedWidth(x.Type()); (w == 1 || w == 2) && (fixedWidth(x.X.Type()) > w || fixedWidth(x.X.Type()) == 0) || w == 4 && fixedWidth(x.X.Type()) == 8 {
				return fmt.Sprintf("low%d(%s)", w*8, g.sym(VC{x.X, v.c}))
			}
			return g.sym(VC{x.X, v.c})
		}
		return "conv[" + x.Type().String() + "](" + g.sym(VC{x.X, v.c}) + ")"
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := g.trace(VC{x.X, v.c})
			if _, ok := a.v.(*ssa.Alloc); ok {
				return fmt.Sprintf("cell(%s)", g.sym(a))
			}
			return g.sym(a)
		case token.ARROW:
			return reg("recv")
		}
		return x.Op.String() + "(" + g.sym(VC{x.X, v.c}) + ")"
	case *ssa.BinOp:
		return "(" + g.sym(VC{x.X, v.c}) + x.Op.String() + g.sym(VC{x.Y, v.c}) + ")"
	case *ssa.Slice:
		f := func(w ssa.Value) string {
			if w == nil {
				return ""
			}
			return g.sym(VC{w, v.c})
		}
		return g.sym(VC{x.X, v.c}) + "[" + f(x.Low) + ":" + f(x.High) + "]"
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
			return bi.Name() + "(" + g.sym(VC{x.Call.Args[0], v.c}) + ")"
		}
		if x.Call.IsInvoke() && len(x.Call.Args) == 0 && strings.HasPrefix(x.Call.Method.Name(), "Get") {
			return g.sym(VC{x.Call.Value, v.c}) + "." + x.Call.Method.Name() + "()"
		}
		// pure standard-library conversions
		if f := x.Call.StaticCallee(); f != nil && pureFunc[f.String()] {
			s := f.String() + "("
			for i, a := range x.Call.Args {
				if i > 0 {
					s += ","
				}
				s += g.sym(VC{a, v.c})
			}
			return s + ")"
		}
		if x.Call.IsInvoke() && x.Call.Method.Name() == "Sum" {
			return g.sym(VC{x.Call.Value, v.c}) + ".Sum(" + g.sym(VC{x.Call.Args[0], v.c}) + ")"
		}
	}
	return reg("r")
}

var pureFunc = map[string]bool{
	"strconv.FormatUint": true, "strconv.Itoa": true, "strconv.FormatInt": true, "strconv.ParseUint": true,
	"path/filepath.Join": true, "path/filepath.Dir": true, "path/filepath.Base": true, "path/filepath.Clean": true,
}

func bytesEq(a, b types.Type) bool {
	x, ok1 := a.Underlying().(*types.Basic)
	y, ok2 := b.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return false
	}
	// integer widenings keep the name: sizes matter only to value rules
	return x.Info()&types.IsInteger != 0 && y.Info()&types.IsInteger != 0 || x.Kind() == y.Kind()
}

func isNumOrStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsNumeric|types.IsString) != 0
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return fmt.Sprintf("f%d", i)
}

// ---------------------------------------------------------------- matching helpers

// callName names what a call, go or defer instruction calls:
// "(*sync.Mutex).Lock", "znet.useWorker", "iface:IConnManager.Remove",
// "builtin:close", or "dyn:<symbol>" for a function value.
func (g *Graph) callName(n *Node) string {
	ci, ok := n.instr.(ssa.CallInstruction)
	if !ok || n.kind == KAfter || n.kind == KGate {
		return ""
	}
	return g.callNameOf(n.ctx, ci)
}

func (g *Graph) callNameOf(c *Ctx, ci ssa.CallInstruction) string {
	cc := ci.Common()
	if cc.IsInvoke() {
		t := cc.Value.Type().String()
		if i := strings.LastIndexAny(t, "./"); i >= 0 {
			t = t[i+1:]
		}
		return "iface:" + t + "." + cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return fnName(f)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin:" + b.Name()
	}
	if l, ok := g.funcOf(VC{cc.Value, c}); ok {
		return fnName(l.fn)
	}
	return "dyn:" + g.sym(VC{cc.Value, c})
}

// arg returns the i-th argument, the receiver counting as argument 0 for
// methods (interface methods too).
func (g *Graph) arg(n *Node, i int) (VC, bool) {
	ci, ok := n.instr.(ssa.CallInstruction)
	if !ok {
		return VC{}, false
	}
	cc := ci.Common()
	if cc.IsInvoke() {
		if i == 0 {
			return VC{cc.Value, n.ctx}, true
		}
		i--
	}
	if i < len(cc.Args) {
		return VC{cc.Args[i], n.ctx}, true
	}
	return VC{}, false
}

func (g *Graph) argSym(n *Node, i int) string {
	if v, ok := g.arg(n, i); ok {
		return g.sym(v)
	}
	return ""
}

// isCallNode: a node where a call happens in this control flow (not go).
func isCallNode(n *Node) bool {
	if n.kind == KDeferCall {
		return true
	}
	if n.kind != KInstr {
		return false
	}
	_, ok := n.instr.(*ssa.Call)
	return ok
}

func (n *Node) posn(P *Program) string {
	if n.instr == nil {
		if n.ctx != nil {
			return P.pos(n.ctx.fn.Pos())
		}
		return "?"
	}
	if p := n.instr.Pos(); p.IsValid() {
		return P.pos(p)
	}
	// nearest positioned instruction
	if b := n.instr.Block(); b != nil {
		found := false
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			if b.Instrs[i] == n.instr {
				found = true
			}
			if found && b.Instrs[i].Pos().IsValid() {
				return P.pos(b.Instrs[i].Pos())
			}
		}
	}
	return P.pos(n.ctx.fn.Pos())
}

func (n *Node) fn() *ssa.Function { return n.ctx.fn }

// stack renders the chain of calls leading to a node.
func (n *Node) stack() string {
	var s []string
	for c := n.ctx; c != nil; c = c.parent {
		x := fnName(c.fn)
		if c.spawned {
			x = "go " + x
		}
		s = append([]string{x}, s...)
	}
	return strings.Join(s, " > ")
}

func (g *Graph) dump() {
	for _, n := range g.nodes {
		fmt.Printf("%d k%d c%d", n.id, n.kind, ctxID(n.ctx))
		if n.instr != nil {
			fmt.Printf(" %s", n.instr)
		}
		fmt.Print(" ->")
		for _, e := range n.succ {
			fmt.Printf(" %d", e.to.id)
		}
		fmt.Println()
	}
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- lock operations

type lockOp struct {
	name string // symbol of the lock
	op   string // Lock RLock Unlock RUnlock
	cls  string // declaring type and field, or the variable
	base string // symbol of the object the lock belongs to
}

func (g *Graph) lockOp(n *Node) (lockOp, bool) {
	if !isCallNode(n) {
		return lockOp{}, false
	}
	ci := n.instr.(ssa.CallInstruction)
	cc := ci.Common()
	var op string
	var recv ssa.Value
	if cc.IsInvoke() {
		if cc.Value.Type().String() != "sync.Locker" {
			return lockOp{}, false
		}
		op, recv = cc.Method.Name(), cc.Value
	} else {
		f := cc.StaticCallee()
		if f == nil {
			return lockOp{}, false
		}
		switch f.String() {
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
			op = "Lock"
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
			op = "Unlock"
		case "(*sync.RWMutex).RLock":
			op = "RLock"
		case "(*sync.RWMutex).RUnlock":
			op = "RUnlock"
		default:
			return lockOp{}, false
		}
		recv = cc.Args[0]
	}
	v := g.trace(VC{recv, n.ctx})
	l := lockOp{op: op, name: g.sym(v)}
	switch x := v.v.(type) {
	case *ssa.FieldAddr:
		_, nm := structOf(x.X.Type())
		t := "?"
		if nm != nil {
			t = nm.Obj().Name()
		}
		l.cls = t + "." + fieldName(x.X.Type(), x.Field)
		l.base = g.sym(VC{x.X, v.c})
	default:
		l.cls = l.name
		l.base = l.name
	}
	return l, true
}

// held is a set of locks with their mode.
type held struct{ m map[string]heldLock }
type heldLock struct {
	mode      byte // 'W' or 'R'
	cls, base string
}

func (h held) Key() string {
	ks := make([]string, 0, len(h.m))
	for k, v := range h.m {
		ks = append(ks, k+":"+string(v.mode))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (h held) with(k string, v heldLock) held {
	n := map[string]heldLock{}
	for a, b := range h.m {
		n[a] = b
	}
	n[k] = v
	return held{n}
}

func (h held) without(k string) held {
	n := map[string]heldLock{}
	for a, b := range h.m {
		if a != k {
			n[a] = b
		}
	}
	return held{n}
}

func (h held) String() string {
	if len(h.m) == 0 {
		return "no lock"
	}
	return h.Key()
}

// ---------------------------------------------------------------- accesses

type access struct {
	T     *types.Named
	field string
	base  string
	fresh bool
	write bool
	atom  bool
	n     *Node
	g     *Graph
	locks held
}

// fieldOf finds the innermost-to-outermost field selections a memory location
// or container value is reached through.
func (g *Graph) fieldChain(v VC, f func(T *types.Named, field string, base VC)) {
	for i := 0; i < 40; i++ {
		v = g.trace(v)
		switch x := v.v.(type) {
		case *ssa.FieldAddr:
			if _, nm := structOf(x.X.Type()); nm != nil {
				f(nm, fieldName(x.X.Type(), x.Field), VC{x.X, v.c})
			}
			v = VC{x.X, v.c}
		case *ssa.Field:
			if _, nm := structOf(x.X.Type()); nm != nil {
				f(nm, fieldName(x.X.Type(), x.Field), VC{x.X, v.c})
			}
			v = VC{x.X, v.c}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return
			}
			v = VC{x.X, v.c}
		case *ssa.IndexAddr:
			v = VC{x.X, v.c}
		case *ssa.Index:
			v = VC{x.X, v.c}
		case *ssa.Lookup:
			v = VC{x.X, v.c}
		case *ssa.Slice:
			v = VC{x.X, v.c}
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.Lookup:
				v = VC{t.X, v.c}
			case *ssa.Next:
				if r, ok := t.Iter.(*ssa.Range); ok {
					v = VC{r.X, v.c}
				} else {
					return
				}
			default:
				return
			}
		default:
			return
		}
	}
}

// fresh: the object was allocated in this very graph and is still private.
func (g *Graph) isFresh(v VC) bool {
	v = g.trace(v)
	for i := 0; i < 10; i++ {
		switch x := v.v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = g.trace(VC{x.X, v.c})
			continue
		}
		return false
	}
	return false
}

// isFreshAt: fresh, and not handed to the goroutine the node runs in.
func (g *Graph) isFreshAt(n *Node, v VC) bool {
	if !g.isFresh(v) {
		return false
	}
	w := g.trace(v)
	for i := 0; i < 10; i++ {
		if x, ok := w.v.(*ssa.FieldAddr); ok {
			w = g.trace(VC{x.X, w.c})
		}
	}
	return thread(n.ctx) == thread(w.c)
}

func thread(x *Ctx) *Ctx {
	for x != nil && !x.spawned && x.parent != nil {
		x = x.parent
	}
	return x
}

// memOps lists the memory locations (or containers) an instruction reads or
// writes.
func memOps(in ssa.Instruction, f func(loc ssa.Value, write bool)) {
	switch x := in.(type) {
	case *ssa.Store:
		f(x.Addr, true)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			f(x.X, false)
		}
	case *ssa.MapUpdate:
		f(x.Map, true)
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			f(x.X, false)
		}
	case *ssa.Range:
		f(x.X, false)
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok && !x.IsString {
			f(r.X, false)
		}
	case *ssa.Call, *ssa.Defer:
		cc := x.(ssa.CallInstruction).Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "clear":
				f(cc.Args[0], true)
			case "len", "cap":
				if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
					f(cc.Args[0], false)
				}
			case "copy":
				f(cc.Args[0], true)
				f(cc.Args[1], false)
			case "append":
				if len(cc.Args) > 1 {
					f(cc.Args[1], false)
				}
			}
		}
	}
}

type lockPass struct {
	c        *C
	accesses []access
	want     func(T *types.Named, field string) bool
	// orders maps "held -> acquired" class pairs to a witness
	orders map[[2]string]string
	// hygiene callbacks
	onProblem func(g *Graph, n *Node, kind, lock string, path []string)
	atEnd     func(g *Graph, n *Node, h held, w func() []string)
	nLock     int
	nEnd      int
	lockSites map[token.Pos]bool
	onNode    func(g *Graph, n *Node, h held)
}

// sweep pushes held-lock sets along every path from every root (and every
// goroutine the roots start).
func (lp *lockPass) sweep(roots []*ssa.Function, mayPanic func(g *Graph, n *Node) bool) {
	for _, f := range roots {
		g := lp.c.graph(f, &Policy{MayPanic: mayPanic})
		lp.graph(g)
	}
}

func (lp *lockPass) graph(g *Graph) {
	lp.start(g, g.entry)
	for _, s := range g.spawns {
		lp.start(g, s.entry)
	}
}

func (lp *lockPass) start(g *Graph, entry *Node) {
	seenAcc := map[string]bool{}
	r := &Rule{Init: held{}}
	r.Node = func(g *Graph, n *Node, a Auto) Auto {
		h := a.(held)
		if lp.onNode != nil {
			lp.onNode(g, n, h)
		}
		if l, ok := g.lockOp(n); ok {
			if lp.lockSites != nil {
				lp.lockSites[n.instr.Pos()] = true
			}
			lp.nLock++
			switch l.op {
			case "Lock", "RLock":
				if o, ok := h.m[l.name]; ok {
					if lp.onProblem != nil {
						lp.onProblem(g, n, fmt.Sprintf("%s of a lock this goroutine already holds (%c)", l.op, o.mode), l.cls, nil)
					}
				}
				for k, o := range h.m {
					if k != l.name && lp.orders != nil {
						key := [2]string{o.cls, l.cls}
						if o.cls == l.cls && strings.HasPrefix(l.base, o.base+".") {
							continue // down a chain of objects
						}
						if _, ok := lp.orders[key]; !ok {
							lp.orders[key] = n.posn(g.P) + " " + n.stack()
						}
					}
				}
				mode := byte('W')
				if l.op == "RLock" {
					mode = 'R'
				}
				return h.with(l.name, heldLock{mode, l.cls, l.base})
			default:
				o, ok := h.m[l.name]
				if !ok || (l.op == "Unlock") != (o.mode == 'W') {
					if lp.onProblem != nil {
						k := "release of a lock that is not held"
						if ok {
							k = "release in the wrong mode"
						}
						lp.onProblem(g, n, k, l.cls, nil)
					}
				}
				return h.without(l.name)
			}
		}
		if lp.want != nil && (n.kind == KInstr || n.kind == KDeferCall) && n.instr != nil {
			rec := func(loc ssa.Value, write, atom bool) {
				depth := 0
				g.fieldChain(VC{loc, n.ctx}, func(T *types.Named, field string, base VC) {
					depth++
					if !lp.want(T, field) {
						return
					}
					b := g.sym(base)
					k := fmt.Sprintf("%d|%s.%s|%s|%v|%s", n.id, T.Obj().Name(), field, b, write, h.Key())
					if seenAcc[k] {
						return
					}
					seenAcc[k] = true
					lp.accesses = append(lp.accesses, access{T: T, field: field, base: b, fresh: g.isFreshAt(n, base), write: write, atom: atom, n: n, g: g, locks: h})
				})
			}
			memOps(n.instr, func(loc ssa.Value, w bool) { rec(loc, w, false) })
			if ci, ok := n.instr.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync/atomic" && len(ci.Common().Args) > 0 {
					rec(ci.Common().Args[0], !strings.HasPrefix(f.Name(), "Load"), true)
				}
			}
		}
		return h
	}
	r.End = func(g *Graph, n *Node, a Auto, w func() []string) {
		lp.nEnd++
		if lp.atEnd != nil {
			lp.atEnd(g, n, a.(held), w)
		}
	}
	lp.c.run(g, entry, r)
}

// ---------------------------------------------------------------- guarded-by rule

type guardSpec struct {
	pkg, typ string
	fields   []string
	// lock: name of the lock field (in the same struct); "" accepts any lock
	// of the same object as long as every access shares one
	lock  string
	exact string // accept this global/other lock class instead
	minN  int
	// exempt functions (constructors by name are exempt anyway when the
	// object is fresh)
	skip func(a access) string
}

// fieldsByType finds a struct's fields whose type satisfies p: a fallback when
// a field was renamed.
func fieldsByType(T *types.Named, p func(t types.Type) bool) []string {
	s, ok := T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < s.NumFields(); i++ {
		if p(s.Field(i).Type()) {
			out = append(out, s.Field(i).Name())
		}
	}
	return out
}

func hasField(T *types.Named, name string) bool {
	s, ok := T.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return true
		}
	}
	return false
}

func isMutex(t types.Type) bool {
	s := t.String()
	return s == "sync.Mutex" || s == "sync.RWMutex" || s == "*sync.Mutex" || s == "*sync.RWMutex"
}

// guarded checks that every access to the given fields of T happens with one
// common lock of the same object held (exclusively for writes).
func (c *C) guarded(lp *lockPass, T *types.Named, field string, skip func(a access) string) {
	var acc []access
	for _, a := range lp.accesses {
		if a.T.Obj() == T.Obj() && a.field == field && !a.fresh {
			if skip != nil {
				if why := skip(a); why != "" {
					c.stats["exempt_accesses"]++
					continue
				}
			}
			acc = append(acc, a)
		}
	}
	name := T.Obj().Name() + "." + field
	allAtomic := len(acc) > 0
	anyWrite := false
	for _, a := range acc {
		if !a.atom {
			allAtomic = false
		}
		if a.write {
			anyWrite = true
		}
	}
	if allAtomic {
		for _, a := range acc {
			c.okN(a.n)
		}
		return
	}
	if !anyWrite {
		for _, a := range acc {
			c.okN(a.n)
		}
		return
	}
	// candidate locks: those of the same object
	count := map[string]int{}
	for _, a := range acc {
		for k := range relLocks(a) {
			count[k]++
		}
	}
	best, bn := "", 0
	for k, n := range count {
		if n > bn || n == bn && k < best {
			best, bn = k, n
		}
	}
	for _, a := range acc {
		kind := "read"
		if a.write {
			kind = "written"
		}
		if best == "" {
			c.failN(name+"|nolock|"+fnName(a.n.fn()), a.n, fmt.Sprintf("%s is %s with no lock of the object held, and no access ever holds one", name, kind))
			continue
		}
		m, ok := relLocks(a)[best]
		switch {
		case !ok:
			c.failN(name+"|"+kind+"|"+fnName(a.n.fn()), a.n, fmt.Sprintf("%s is %s without %s (held: %s)", name, kind, best, a.locks))
		case a.write && m != 'W':
			c.failN(name+"|shared|"+fnName(a.n.fn()), a.n, fmt.Sprintf("%s is written with %s held only for reading", name, best))
		default:
			c.okN(a.n)
		}
	}
}

// relLocks names the held locks relative to the accessed object: ".mu" for a
// lock inside it, "~.mu" for a lock of the object that contains it, or the lock
// itself for package-level locks.
func relLocks(a access) map[string]byte {
	out := map[string]byte{}
	for k, h := range a.locks.m {
		switch {
		case strings.HasPrefix(k, a.base+"."):
			out[k[len(a.base):]] = h.mode
		case strings.HasPrefix(k, "G:"):
			out[k] = h.mode
		default:
			if h.base != "" && strings.HasPrefix(a.base, h.base+".") {
				out["~"+strings.TrimPrefix(k, h.base)] = h.mode
			}
		}
	}
	return out
}

package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Property simulation: the states of a small automaton are pushed along the
// paths of a Graph. Beside the automaton, a state carries what the path is
// known to have decided: constants and nil-ness of results and merged values,
// conditions tested twice, deferred calls registered.

type Auto interface{ Key() string }

type Cond struct {
	g    *Graph
	v    VC // condition value
	val  bool
	node *Node
}

type Rule struct {
	Init Auto
	// Node returns the states after a node (nil: keep; empty: stop the path).
	Node func(g *Graph, n *Node, a Auto) Auto
	// NodeE is Node with what the path knows about values.
	NodeE func(g *Graph, n *Node, a Auto, e env) Auto
	// Edge sees a decided branch; returning nil prunes the path.
	Edge func(g *Graph, n *Node, a Auto, atoms []Atom) Auto
	// Flow sees the merges (phi) and returns of an edge before they are applied.
	Flow func(g *Graph, ed *Edge, a Auto, e env) Auto
	// End sees every state reaching a final node.
	End func(g *Graph, n *Node, a Auto, w func() []string)
	// Cap bounds the number of states.
	Cap int
}

type abs struct {
	k  byte // 'c' constant, 'n' nil, 'N' non-nil, 'a' alias
	s  string
	vc VC
}

func (a abs) str() string {
	if a.k == 'a' {
		return fmt.Sprintf("a%d.%s", ctxID(a.vc.c), a.vc.v.Name())
	}
	return string(a.k) + a.s
}

type env map[string]abs

func (e env) key() string {
	ks := make([]string, 0, len(e))
	for k := range e {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(k)
		b.WriteByte('=')
		b.WriteString(e[k].str())
		b.WriteByte(';')
	}
	return b.String()
}

func (e env) with(k string, a abs) env {
	if old, ok := e[k]; ok && old.str() == a.str() {
		return e
	}
	n := make(env, len(e)+1)
	for x, y := range e {
		n[x] = y
	}
	n[k] = a
	return n
}

func (e env) without(f func(k string, a abs) bool) env {
	hit := false
	for k, a := range e {
		if f(k, a) {
			hit = true
			break
		}
	}
	if !hit {
		return e
	}
	n := make(env, len(e))
	for k, a := range e {
		if !f(k, a) {
			n[k] = a
		}
	}
	return n
}

func vkey(v VC) string { return fmt.Sprintf("<%d.%s>", ctxID(v.c), v.v.Name()) }

// norm follows a value through parameters and conversions only (register
// identity, never through memory).
func (g *Graph) norm(v VC) VC {
	for i := 0; i < 64; i++ {
		switch x := v.v.(type) {
		case *ssa.Parameter:
			if v.c != nil && v.c.parent != nil {
				ok := false
				for j, p := range v.c.fn.Params {
					if p == x && j < len(v.c.args) {
						v = v.c.args[j]
						ok = true
						break
					}
				}
				if ok {
					continue
				}
			}
		case *ssa.ChangeType:
			v = VC{x.X, v.c}
			continue
		case *ssa.ChangeInterface:
			v = VC{x.X, v.c}
			continue
		}
		break
	}
	return v
}

func (g *Graph) eval(v VC, e env) (abs, bool) { return g.evald(v, e, 0) }

func (g *Graph) evald(v VC, e env, d int) (abs, bool) {
	if d > 30 {
		return abs{}, false
	}
	v = g.norm(v)
	if v.v == nil {
		return abs{}, false
	}
	if isBool(v.v.Type()) {
		if r, ok := g.evalCfg(v, e); ok {
			if r {
				return abs{k: 'c', s: "true"}, true
			}
			return abs{k: 'c', s: "false"}, true
		}
	}
	if a, ok := e[vkey(v)]; ok {
		if a.k == 'a' {
			return g.evald(a.vc, e, d+1)
		}
		return a, true
	}
	switch x := v.v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if isNilable(x.Type()) {
				return abs{k: 'n'}, true
			}
			return abs{}, false
		}
		return abs{k: 'c', s: x.Value.ExactString()}, true
	case *ssa.Alloc, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice, *ssa.Function, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
		return abs{k: 'N'}, true
	case *ssa.MakeInterface:
		return abs{k: 'N'}, true
	case *ssa.Slice:
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			_ = p
			return abs{k: 'N'}, true
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			switch f.String() {
			case "errors.New", "fmt.Errorf":
				return abs{k: 'N'}, true
			}
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			if a, ok := g.evald(VC{x.X, v.c}, e, d+1); ok && a.k == 'c' {
				if a.s == "true" {
					return abs{k: 'c', s: "false"}, true
				}
				if a.s == "false" {
					return abs{k: 'c', s: "true"}, true
				}
			}
		}
		if x.Op == token.MUL {
			ad := g.trace(VC{x.X, v.c})
			if _, ok := ad.v.(*ssa.Alloc); ok {
				if a, ok := e["*"+vkey(ad)]; ok {
					if a.k == 'a' {
						return g.evald(a.vc, e, d+1)
					}
					return a, true
				}
			}
		}
	case *ssa.BinOp:
		a, ok1 := g.evald(VC{x.X, v.c}, e, d+1)
		b, ok2 := g.evald(VC{x.Y, v.c}, e, d+1)
		if ok1 && ok2 {
			if r, ok := absCmp(x.Op, a, b); ok {
				if r {
					return abs{k: 'c', s: "true"}, true
				}
				return abs{k: 'c', s: "false"}, true
			}
		}
		if k, neg, ok := g.condKey(v, e); ok {
			if a, ok := e[k]; ok {
				t := a.s == "true"
				if t != neg {
					return abs{k: 'c', s: "true"}, true
				}
				return abs{k: 'c', s: "false"}, true
			}
		}
	}
	if _, ok := v.v.(*ssa.BinOp); !ok && isBool(v.v.Type()) {
		if a, ok := e["?"+vkey(v)]; ok {
			return a, true
		}
	}
	if isError(v.v.Type()) {
		if a, ok := e["?"+vkey(v)+"==nil"]; ok {
			if a.s == "true" {
				return abs{k: 'n'}, true
			}
			return abs{k: 'N'}, true
		}
	}
	return abs{}, false
}

func isError(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// Settings read from the global configuration keep their value along a path:
// cfgTest recognises a comparison of one with a constant, or a boolean one.
func (g *Graph) cfgTest(v VC) (name, val string, neg, ok bool) {
	v = g.norm(v)
	switch x := v.v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			n, c, neg, ok := g.cfgTest(VC{x.X, v.c})
			return n, c, !neg, ok
		}
		if x.Op == token.MUL && isBool(x.Type()) {
			if s := g.sym(v); strings.HasPrefix(s, "G:zconf.GlobalObject.") {
				return s, "true", false, true
			}
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return
		}
		a, b := x.X, x.Y
		if _, isc := a.(*ssa.Const); isc {
			a, b = b, a
		}
		k, isc := b.(*ssa.Const)
		if !isc || k.Value == nil {
			return
		}
		if s := g.sym(VC{a, v.c}); strings.HasPrefix(s, "G:zconf.GlobalObject.") {
			return s, k.Value.ExactString(), x.Op == token.NEQ, true
		}
	}
	return
}

func (g *Graph) learnCfg(v VC, val bool, e env) env {
	n, c, neg, ok := g.cfgTest(v)
	if !ok {
		return e
	}
	if val != neg {
		return e.with("cfg:"+n, abs{k: 'c', s: c})
	}
	if c == "true" || c == "false" {
		o := "true"
		if c == "true" {
			o = "false"
		}
		return e.with("cfg:"+n, abs{k: 'c', s: o})
	}
	return e.with("cfg!"+n+"="+c, abs{k: 'c', s: "true"})
}

func (g *Graph) evalCfg(v VC, e env) (bool, bool) {
	n, c, neg, ok := g.cfgTest(v)
	if !ok {
		return false, false
	}
	if a, ok := e["cfg:"+n]; ok {
		return (a.s == c) != neg, true
	}
	if _, ok := e["cfg!"+n+"="+c]; ok {
		return neg, true
	}
	return false, false
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func absCmp(op token.Token, a, b abs) (bool, bool) {
	if op == token.EQL || op == token.NEQ {
		var eq, known bool
		switch {
		case a.k == 'n' && b.k == 'n':
			eq, known = true, true
		case a.k == 'n' && b.k == 'N', a.k == 'N' && b.k == 'n':
			eq, known = false, true
		case a.k == 'c' && b.k == 'c':
			eq, known = a.s == b.s, true
		}
		if known {
			return eq == (op == token.EQL), true
		}
		return false, false
	}
	if a.k == 'c' && b.k == 'c' {
		x := constant.MakeFromLiteral(a.s, token.INT, 0)
		y := constant.MakeFromLiteral(b.s, token.INT, 0)
		if x.Kind() == constant.Int && y.Kind() == constant.Int {
			switch op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				return constant.Compare(x, op, y), true
			}
		}
	}
	return false, false
}

// condKey names a comparison of registers; neg tells that the value is the
// negation of the named fact.
func (g *Graph) condKey(v VC, e env) (string, bool, bool) {
	v = g.norm(v)
	if a, ok := e[vkey(v)]; ok && a.k == 'a' {
		return g.condKey(a.vc, e)
	}
	switch x := v.v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			k, n, ok := g.condKey(VC{x.X, v.c}, e)
			return k, !n, ok
		}
		return "", false, false
	case *ssa.BinOp:
		a, b := g.regKey(VC{x.X, v.c}, e), g.regKey(VC{x.Y, v.c}, e)
		switch x.Op {
		case token.EQL:
			return "?" + a + "==" + b, false, true
		case token.NEQ:
			return "?" + a + "==" + b, true, true
		case token.LSS:
			return "?" + a + "<" + b, false, true
		case token.GEQ:
			return "?" + a + "<" + b, true, true
		case token.GTR:
			return "?" + b + "<" + a, false, true
		case token.LEQ:
			return "?" + b + "<" + a, true, true
		}
		return "", false, false
	case *ssa.Const:
		return "", false, false
	}
	return "?" + vkey(v), false, true
}

func (g *Graph) regKey(v VC, e env) string {
	v = g.norm(v)
	if c, ok := v.v.(*ssa.Const); ok {
		if c.Value == nil {
			return "nil"
		}
		return "#" + c.Value.ExactString()
	}
	if a, ok := e[vkey(v)]; ok && a.k == 'a' {
		return g.regKey(a.vc, e)
	}
	return vkey(v)
}

func (g *Graph) countUseful() {
	g.useful = map[string]int{}
	for _, n := range g.nodes {
		if i, ok := n.instr.(*ssa.If); ok && n.kind == KInstr {
			if k, _, ok := g.condKey(VC{i.Cond, n.ctx}, nil); ok {
				g.useful[k]++
			}
			// conditions reaching an If through merged values are useful too
			g.markPhi(VC{i.Cond, n.ctx}, 0)
			if b, ok := i.Cond.(*ssa.BinOp); ok && isError(b.X.Type()) {
				if ph, ok := g.norm(VC{b.X, n.ctx}).v.(*ssa.Phi); ok {
					g.markErr(VC{ph, n.ctx}, 0)
				}
			}
		}
		if r, ok := n.instr.(*ssa.Return); ok && n.kind == KInstr {
			for _, x := range r.Results {
				if isError(x.Type()) {
					g.markErr(VC{x, n.ctx}, 0)
				}
				if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					g.markPhi(VC{x, n.ctx}, 1)
				}
			}
		}
	}
}

func (g *Graph) markPhi(v VC, d int) {
	if d > 6 {
		return
	}
	v = g.norm(v)
	switch x := v.v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			g.markPhi(VC{x.X, v.c}, d)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if k, _, ok := g.condKey(VC{e, v.c}, nil); ok {
				g.useful[k] += 1
			}
			g.markPhi(VC{e, v.c}, d+1)
		}
	default:
		if d > 0 {
			if k, _, ok := g.condKey(v, nil); ok {
				g.useful[k] += 1
			}
		}
	}
}

// markErr: whether an error is nil matters beyond the branch that asks.
func (g *Graph) markErr(v VC, d int) {
	if d > 4 {
		return
	}
	v = g.norm(v)
	if ph, ok := v.v.(*ssa.Phi); ok {
		for _, e := range ph.Edges {
			g.markErr(VC{e, v.c}, d+1)
		}
		return
	}
	// results are spilled into cells where a function defers calls
	if u, ok := v.v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if al, ok := u.X.(*ssa.Alloc); ok && resultCell(al) {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					g.markErr(VC{st.Val, v.c}, d+1)
				}
			}
			return
		}
	}
	g.useful["?"+vkey(v)+"==nil"] += 2
}

// trackable: values worth remembering across a merge.
func trackable(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind() == types.Bool || b.Info()&types.IsInteger != 0
	}
	return isNilable(t)
}

type simState struct {
	n    *Node
	a    Auto
	e    env
	prev *simState
}

// Run simulates rule r from node start. It returns the number of states and
// whether the bound was hit.
// simLimit bounds one simulation's time; what it cut off is counted in the
// evidence as capped.
const simLimit = 45 * time.Second

func (g *Graph) Run(start *Node, r *Rule) (int, bool) {
	capN := r.Cap
	if capN == 0 {
		capN = 400000
	}
	seen := map[string]bool{}
	work := []*simState{{n: start, a: r.Init, e: env{}}}
	push := func(s *simState) {
		k := fmt.Sprintf("%d|%s|%s", s.n.id, s.a.Key(), s.e.key())
		if seen[k] {
			return
		}
		seen[k] = true
		work = append(work, s)
	}
	seen[fmt.Sprintf("%d|%s|%s", start.id, r.Init.Key(), "")] = true
	steps, limit := 0, time.Now().Add(simLimit)
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if steps++; steps&1023 == 0 && time.Now().After(limit) {
			return len(seen), true
		}
		if len(seen) > capN {
			return len(seen), true
		}
		a := s.a
		if r.Node != nil {
			a = r.Node(g, s.n, a)
			if a == nil {
				continue
			}
		}
		if r.NodeE != nil {
			a = r.NodeE(g, s.n, a, s.e)
			if a == nil {
				continue
			}
		}
		e := g.nodeEnv(s.n, s.e)
		if len(s.n.succ) == 0 {
			if r.End != nil {
				st := &simState{n: s.n, a: a, e: e, prev: s}
				r.End(g, s.n, a, func() []string { return g.witness(st) })
			}
			continue
		}
		for i := range s.n.succ {
			ed := &s.n.succ[i]
			ne, na, ok := g.edge(s.n, ed, e, a, r)
			if !ok {
				continue
			}
			push(&simState{n: ed.to, a: na, e: ne, prev: s})
		}
	}
	return len(seen), false
}

func (g *Graph) nodeEnv(n *Node, e env) env {
	if n.kind == KPanicking {
		k := fmt.Sprintf("rec:%d", n.ctx.id)
		return e.without(func(kk string, _ abs) bool { return kk == k })
	}
	if n.instr == nil {
		return e
	}
	if n.kind == KDeferCall {
		if d, ok := n.instr.(*ssa.Defer); ok && deferRecovers(d) {
			return e.with(fmt.Sprintf("rec:%d", n.ctx.id), abs{k: 'c', s: "true"})
		}
		return e
	}
	if n.kind != KInstr {
		return e
	}
	switch x := n.instr.(type) {
	case *ssa.Defer:
		return e.with(fmt.Sprintf("d:%d.%p", n.ctx.id, x), abs{k: 'c', s: "true"})
	case *ssa.Store:
		ad := g.trace(VC{x.Addr, n.ctx})
		if _, ok := ad.v.(*ssa.FieldAddr); ok {
			s := g.sym(ad)
			if strings.HasPrefix(s, "G:zconf.GlobalObject") {
				e = e.without(func(k string, _ abs) bool { return strings.HasPrefix(k, "cfg") && strings.Contains(k, s) })
			}
		}
		if al, ok := ad.v.(*ssa.Alloc); ok {
			if _, plain := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); !plain {
				k := "*" + vkey(ad)
				if a, ok := g.eval(VC{x.Val, n.ctx}, e); ok && !(resultCell(al) && a.k == 'N') {
					return e.with(k, a)
				}
				if resultCell(al) {
					if w, ok := g.resolve1(VC{x.Val, n.ctx}, e); ok {
						return e.with(k, abs{k: 'a', vc: w})
					}
				}
				return e.without(func(kk string, _ abs) bool { return kk == k })
			}
		}
		return e
	}
	if v, ok := n.instr.(ssa.Value); ok {
		if ex, ok := v.(*ssa.Extract); ok {
			if call, ok := ex.Tuple.(*ssa.Call); ok && len(g.calls[callKey{n.ctx, call}]) > 0 {
				return e // known from the return of the call
			}
		}
		e = e.kill(vkey(VC{v, n.ctx}))
		if call, ok := v.(*ssa.Call); ok && len(n.callees) > 0 {
			if _, tup := call.Type().(*types.Tuple); tup {
				for _, u := range *call.Referrers() {
					if ex, ok := u.(*ssa.Extract); ok {
						e = e.kill(vkey(VC{ex, n.ctx}))
					}
				}
			}
		}
	}
	return e
}

// kill forgets a register that is computed anew.
func (e env) kill(tok string) env {
	return e.without(func(k string, a abs) bool {
		return strings.Contains(k, tok) && k[0] != '*' || a.k == 'a' && vkey(a.vc) == tok
	})
}

// resultCell: a local holding a result until the deferred calls have run.
func resultCell(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok {
			for _, x := range *u.Referrers() {
				if _, ok := x.(*ssa.Return); ok {
					return true
				}
			}
		}
	}
	return false
}

// resolve1 follows aliases a path knows about; false when the value is a load
// of a cell with unknown content.
func (g *Graph) resolve1(v VC, e env) (VC, bool) {
	for i := 0; i < 20; i++ {
		v = g.norm(v)
		if a, ok := e[vkey(v)]; ok && a.k == 'a' {
			v = a.vc
			continue
		}
		if u, ok := v.v.(*ssa.UnOp); ok && u.Op == token.MUL {
			ad := g.trace(VC{u.X, v.c})
			if _, ok := ad.v.(*ssa.Alloc); ok {
				if a, ok := e["*"+vkey(ad)]; ok && a.k == 'a' {
					v = a.vc
					continue
				}
			}
		}
		return v, true
	}
	return v, true
}

// symAt names a value as the path knows it.
func (g *Graph) symAt(v VC, e env) string {
	w, _ := g.resolve1(v, e)
	if a, ok := g.eval(w, e); ok {
		switch a.k {
		case 'n':
			return "nil"
		case 'c':
			return "#" + a.s
		}
	}
	return g.sym(w)
}

func (g *Graph) edge(n *Node, ed *Edge, e env, a Auto, r *Rule) (env, Auto, bool) {
	if ed.gate != nil {
		_, reg := e[fmt.Sprintf("d:%d.%p", ed.gateCtx.id, ed.gate)]
		if reg != ed.run {
			return e, a, false
		}
	}
	if ed.rec != 0 {
		_, rec := e[fmt.Sprintf("rec:%d", n.ctx.id)]
		if rec != (ed.rec == 1) {
			return e, a, false
		}
	}
	if ed.cond != nil {
		v := VC{ed.cond, n.ctx}
		if x, ok := g.eval(v, e); ok && x.k == 'c' {
			if (x.s == "true") != ed.taken {
				return e, a, false
			}
		} else if k, neg, ok := g.condKey(v, e); ok {
			if f, ok := e[k]; ok {
				if (f.s == "true") != (ed.taken != neg) {
					return e, a, false
				}
			} else if g.useful[k] > 1 {
				t := "false"
				if ed.taken != neg {
					t = "true"
				}
				e = e.with(k, abs{k: 'c', s: t})
				e = g.refine(k, t == "true", v, e)
			}
		}
		e = g.learnCfg(v, ed.taken, e)
		if r.Edge != nil {
			a = r.Edge(g, n, a, g.atoms(v, ed.taken, e, 0))
			if a == nil {
				return e, a, false
			}
		}
	}
	if r.Flow != nil && (ed.phiTo != nil || ed.retFrom != nil) {
		if a = r.Flow(g, ed, a, e); a == nil {
			return e, a, false
		}
	}
	if ed.phiTo != nil {
		e = g.phis(ed, e)
	}
	if ed.retFrom != nil {
		e = g.ret(ed, e)
	}
	return e, a, true
}

// refine: knowing x == nil settles the nil-ness of the register x.
func (g *Graph) refine(k string, eq bool, v VC, e env) env { return e }

func (g *Graph) phis(ed *Edge, e env) env {
	idx := -1
	for i, p := range ed.phiTo.Preds {
		if p == ed.phiFrom {
			idx = i
		}
	}
	type upd struct {
		k  string
		a  abs
		ok bool
	}
	var ups []upd
	for _, in := range ed.phiTo.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if idx < 0 || !trackable(ph.Type()) {
			continue
		}
		src := VC{ph.Edges[idx], ed.phiCtx}
		a, ok := g.eval(src, e)
		if !ok && isBool(ph.Type()) {
			w := g.norm(src)
			if x, has := e[vkey(w)]; has && x.k == 'a' {
				w = x.vc
			}
			switch w.v.(type) {
			case *ssa.Phi:
			default:
				a, ok = abs{k: 'a', vc: w}, true
			}
		}
		if !ok && isError(ph.Type()) {
			w := g.norm(src)
			if x, has := e[vkey(w)]; has && x.k == 'a' {
				w = x.vc
			}
			if _, isph := w.v.(*ssa.Phi); !isph {
				a, ok = abs{k: 'a', vc: w}, true
			}
		}
		if ok && a.k == 'c' && !isBool(ph.Type()) && len(a.s) > 3 {
			ok = false
		}
		if !ok || a.k == 'N' && isSlice(ph.Type()) {
			// an element picked from a map keeps its name through a merge
			w, _ := g.resolve1(src, e)
			if isSlice(ph.Type()) && w.v != ssa.Value(ph) {
				if _, isph := w.v.(*ssa.Phi); !isph {
					a, ok = abs{k: 'a', vc: w}, true
				}
			}
			if ex, isx := w.v.(*ssa.Extract); isx {
				if _, isn := ex.Tuple.(*ssa.Next); isn {
					a, ok = abs{k: 'a', vc: w}, true
				}
			}
		}
		ups = append(ups, upd{vkey(VC{ph, ed.phiCtx}), a, ok})
	}
	for _, u := range ups {
		tok := u.k
		e = e.without(func(k string, a abs) bool {
			return strings.Contains(k, tok) && k[0] != '*' || a.k == 'a' && vkey(a.vc) == tok
		})
		if u.ok {
			e = e.with(u.k, u.a)
		}
	}
	return e
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func (g *Graph) ret(ed *Edge, e env) env {
	type upd struct {
		k string
		a abs
	}
	var ups []upd
	if ed.ret != nil {
		if call, ok := ed.retCall.(*ssa.Call); ok {
			res := ed.ret.Results
			for i, r := range res {
				a, ok := g.eval(VC{r, ed.retFrom}, e)
				if !ok {
					if isBool(r.Type()) {
						w := g.norm(VC{r, ed.retFrom})
						if x, has := e[vkey(w)]; has && x.k == 'a' {
							w = x.vc
						}
						a, ok = abs{k: 'a', vc: w}, true
					} else if len(ed.retFrom.rets) > 1 {
						w, _ := g.resolve1(VC{r, ed.retFrom}, e)
						a, ok = abs{k: 'a', vc: w}, true
					} else {
						continue
					}
				}
				if len(res) == 1 {
					ups = append(ups, upd{vkey(VC{call, ed.retTo}), a})
				} else {
					for _, u := range *call.Referrers() {
						if ex, ok := u.(*ssa.Extract); ok && ex.Index == i {
							ups = append(ups, upd{vkey(VC{ex, ed.retTo}), a})
						}
					}
				}
			}
		}
	}
	// forget the frame that was left
	pre := fmt.Sprintf("<%d.", ed.retFrom.id)
	rec := fmt.Sprintf("rec:%d", ed.retFrom.id)
	df := fmt.Sprintf("d:%d.", ed.retFrom.id)
	keepAlias := map[string]bool{}
	for _, u := range ups {
		if u.a.k == 'a' {
			keepAlias[vkey(u.a.vc)] = true
		}
	}
	e = e.without(func(k string, a abs) bool {
		if k == rec || strings.HasPrefix(k, df) {
			return true
		}
		if !strings.Contains(k, pre) {
			return false
		}
		if k[0] == '?' {
			for x := range keepAlias {
				if strings.Contains(k, x) {
					return false
				}
			}
		}
		return true
	})
	for _, u := range ups {
		e = e.with(u.k, u.a)
	}
	return e
}

func (g *Graph) witness(s *simState) []string {
	var out []string
	last := ""
	for ; s != nil; s = s.prev {
		if s.n.instr != nil {
			p := s.n.posn(g.P)
			if p != last {
				out = append([]string{p + " " + fnName(s.n.fn())}, out...)
				last = p
			}
		}
	}
	if len(out) > 60 {
		out = append(append([]string{}, out[:20]...), append([]string{"..."}, out[len(out)-40:]...)...)
	}
	return out
}

// Atom is a decided elementary condition: x Op y, or the truth of a boolean
// value x (Op ILLEGAL).
type Atom struct {
	Op   token.Token // EQL, NEQ, LSS, LEQ, GTR, GEQ, or ILLEGAL for a plain boolean
	X, Y VC
	Val  bool // for plain booleans
	SX   string
	SY   string
	B    VC // the comparison
}

var negOp = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}
var swapOp = map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}

// atoms lists the elementary facts a decided condition establishes.
func (g *Graph) atoms(v VC, val bool, e env, d int) []Atom {
	if d > 8 {
		return nil
	}
	v = g.norm(v)
	if a, ok := e[vkey(v)]; ok && a.k == 'a' {
		return g.atoms(a.vc, val, e, d+1)
	}
	switch x := v.v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return g.atoms(VC{x.X, v.c}, !val, e, d+1)
		}
	case *ssa.BinOp:
		if _, ok := negOp[x.Op]; ok {
			// comparison with a boolean constant
			for i, o := range []ssa.Value{x.X, x.Y} {
				if c, ok := o.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && (x.Op == token.EQL || x.Op == token.NEQ) {
					other := x.Y
					if i == 1 {
						other = x.X
					}
					want := constant.BoolVal(c.Value) == (x.Op == token.EQL)
					return g.atoms(VC{other, v.c}, want == val, e, d+1)
				}
			}
			op := x.Op
			if !val {
				op = negOp[op]
			}
			a := Atom{Op: op, X: VC{x.X, v.c}, Y: VC{x.Y, v.c}, B: v}
			if _, ok := x.X.(*ssa.Const); ok {
				a.X, a.Y = a.Y, a.X
				a.Op = swapOp[a.Op]
			}
			if w, ok := g.resolve1(a.X, e); ok {
				a.X = w
			}
			if w, ok := g.resolve1(a.Y, e); ok {
				a.Y = w
			}
			a.SX, a.SY = g.sym(a.X), g.sym(a.Y)
			return []Atom{a}
		}
	case *ssa.Call:
		// an expanded predicate: if it has a single return, look inside
		ks := g.calls[callKey{v.c, x}]
		if len(ks) == 1 && len(ks[0].rets) == 1 {
			r := ks[0].rets[0].instr.(*ssa.Return)
			if len(r.Results) == 1 {
				at := g.atoms(VC{r.Results[0], ks[0]}, val, e, d+1)
				return append(at, Atom{X: v, Val: val, SX: g.sym(v)})
			}
		}
	}
	return []Atom{{X: v, Val: val, SX: g.sym(v)}}
}

// isNilAtom: the atom says that x is nil (true) or not nil (false).
func (a Atom) nilness() (VC, bool, bool) {
	if a.Op == token.EQL && a.SY == "nil" {
		return a.X, true, true
	}
	if a.Op == token.NEQ && a.SY == "nil" {
		return a.X, false, true
	}
	return VC{}, false, false
}

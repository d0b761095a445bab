package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Symbolic lists: what a slice holds along one path, as a sequence of single
// elements ("E:sym") and whole other lists ("L:sym").

type copyRec struct {
	dst VC // MakeSlice
	lo  string
	loV VC // the value giving lo
	src VC
	all bool // src is a list (copy), otherwise one element
}

type lstate struct {
	marks
	cells  map[string]VC // field address -> value stored last on this path
	loads  map[string]VC // load register -> value it saw
	copies []copyRec
	facts  string // decided conditions of interest, sorted and joined
}

func (s lstate) Key() string {
	var b strings.Builder
	b.WriteString(s.marks.Key())
	for _, m := range []map[string]VC{s.cells, s.loads} {
		ks := make([]string, 0, len(m))
		for k, v := range m {
			ks = append(ks, k+"="+vkey(v))
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ";"))
		b.WriteByte('|')
	}
	for _, c := range s.copies {
		b.WriteString(vkey(c.dst) + c.lo + vkey(c.src))
	}
	return b.String() + "|" + s.facts
}

func (s lstate) setCell(k string, v VC) lstate {
	n := map[string]VC{}
	for a, b := range s.cells {
		n[a] = b
	}
	n[k] = v
	s.cells = n
	return s
}

func (s lstate) setLoad(k string, v VC) lstate {
	n := map[string]VC{}
	for a, b := range s.loads {
		n[a] = b
	}
	n[k] = v
	s.loads = n
	return s
}

func (s lstate) fact(f string) lstate {
	l := strings.Split(s.facts, "\x01")
	if contains(l, f) {
		return s
	}
	l = append(l, f)
	sort.Strings(l)
	s.facts = strings.Join(l, "\x01")
	return s
}

func (s lstate) has1(f string) bool { return contains(strings.Split(s.facts, "\x01"), f) }

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// listStep updates the path's knowledge of slices in memory.
func listStep(g *Graph, n *Node, s lstate) lstate {
	if n.kind != KInstr || n.instr == nil {
		return s
	}
	switch x := n.instr.(type) {
	case *ssa.Store:
		if isSlice(x.Val.Type()) {
			a := g.trace(VC{x.Addr, n.ctx})
			s = s.setCell(g.sym(a), VC{x.Val, n.ctx})
		} else if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			base := g.trace(VC{ia.X, n.ctx})
			if _, isms := base.v.(*ssa.MakeSlice); isms {
				rec := copyRec{dst: base, src: VC{x.Val, n.ctx}}
				if src, i, ok := elemOf(g, VC{x.Val, n.ctx}); ok {
					off := g.linEval(VC{ia.Index, n.ctx}, nil).minus(g.linEval(VC{i, n.ctx}, nil))
					rec.lo, rec.src, rec.all = off.String(), src, true
				} else if k, isc := constInt(ia.Index); isc {
					rec.lo = lc(k).String()
				} else {
					rec.lo = "?"
				}
				for _, c := range s.copies {
					if vkey(c.dst) == vkey(rec.dst) && c.lo == rec.lo && vkey(c.src) == vkey(rec.src) {
						return s
					}
				}
				s.copies = append(append([]copyRec{}, s.copies...), rec)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && isSlice(x.Type()) {
			a := g.trace(VC{x.X, n.ctx})
			if v, ok := s.cells[g.sym(a)]; ok {
				s = s.setLoad(vkey(VC{x, n.ctx}), v)
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" {
			d := g.trace(VC{x.Call.Args[0], n.ctx})
			lo := lc(0)
			var loV VC
			if sl, ok := d.v.(*ssa.Slice); ok {
				if sl.Low != nil {
					loV = VC{sl.Low, d.c}
					lo = g.linEval(VC{sl.Low, d.c}, nil)
				}
				d = g.trace(VC{sl.X, d.c})
			}
			s.copies = append(append([]copyRec{}, s.copies...), copyRec{dst: d, lo: lo.String(), loV: loV, src: VC{x.Call.Args[1], n.ctx}, all: true})
		}
	}
	return s
}

// elemOf: the value is src[i] for the counter of a loop over all of src.
func elemOf(g *Graph, v VC) (src VC, idx ssa.Value, ok bool) {
	u, isu := v.v.(*ssa.UnOp)
	if !isu || u.Op != token.MUL {
		return
	}
	ia, isia := u.X.(*ssa.IndexAddr)
	if !isia {
		return
	}
	k, isk := counterOf(ia.Index)
	if !isk || !k.upFromZero() {
		return
	}
	x, isl := isLen(k.limit)
	if !isl || x != ia.X && g.sym(VC{x, v.c}) != g.sym(VC{ia.X, v.c}) {
		return
	}
	return VC{ia.X, v.c}, ia.Index, true
}

type listVal struct {
	segs  []string
	fresh bool // backed by an array nobody else appends to
	unk   bool
}

func (l listVal) String() string {
	if l.unk {
		return "?"
	}
	return "[" + strings.Join(l.segs, " ") + "]"
}

func (l listVal) length() lin {
	r := lc(0)
	for _, s := range l.segs {
		if strings.HasPrefix(s, "L:") {
			r = r.plus(lv("len(" + s[2:] + ")"))
		} else {
			r = r.plus(lc(1))
		}
	}
	return r
}

var unkList = listVal{unk: true}

// list evaluates a slice value along a path.
func (g *Graph) list(v VC, e env, s lstate) listVal { return g.listD(v, e, s, 0) }

func (g *Graph) listD(v VC, e env, s lstate, d int) listVal {
	if d > 24 || v.v == nil {
		return unkList
	}
	// do not step through loads recorded on the path
	for i := 0; i < 32; i++ {
		if w, ok := s.loads[vkey(v)]; ok {
			return g.listD(w, e, s, d+1)
		}
		if ph, ok := v.v.(*ssa.Phi); ok {
			if l, ok := g.accumulated(VC{ph, v.c}, e, s, d); ok {
				return l
			}
		}
		if a, ok := e[vkey(v)]; ok && a.k == 'a' {
			v = a.vc
			continue
		}
		if a, ok := e[vkey(v)]; ok && a.k == 'n' {
			return listVal{fresh: true}
		}
		w, ok := g.step(v)
		if !ok {
			break
		}
		v = w
	}
	if call, ok := v.v.(*ssa.Call); ok {
		if ks := g.calls[callKey{v.c, call}]; len(ks) == 1 && len(ks[0].rets) > 1 {
			return unkList
		}
	}
	switch x := v.v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return listVal{fresh: true}
		}
	case *ssa.MakeSlice:
		if k, ok := constInt(x.Len); ok && k == 0 {
			return listVal{fresh: true}
		}
		leaf := g.lenLeaf(e, s, d)
		total := g.linEval(VC{x.Len, v.c}, leaf)
		out := listVal{fresh: true}
		off := lc(0)
		for round := 0; round < 16; round++ {
			if off.eq(total) {
				return out
			}
			hit := false
			// the copy made last at this place counts
			for i := len(s.copies) - 1; i >= 0; i-- {
				c := s.copies[i]
				if vkey(c.dst) != vkey(v) || c.lo != off.String() && !(c.loV.v != nil && g.linEval(c.loV, leaf).eq(off)) {
					continue
				}
				if !c.all {
					out.segs = append(out.segs, "E:"+g.symAt(c.src, e))
					off = off.plus(lc(1))
					hit = true
					break
				}
				l := g.listD(c.src, e, s, d+1)
				if l.unk || len(l.segs) == 0 {
					continue
				}
				out.segs = append(out.segs, l.segs...)
				off = off.plus(l.length())
				hit = true
				break
			}
			if !hit {
				break
			}
		}
		return listVal{segs: append(out.segs, "HOLE"), fresh: true}
	case *ssa.Slice:
		base := g.trace(VC{x.X, v.c})
		if al, ok := base.v.(*ssa.Alloc); ok {
			if at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && x.Low == nil && x.High == nil {
				return g.arrayElems(al, base.c, at.Len(), e)
			}
			return unkList
		}
		in := g.listD(VC{x.X, v.c}, e, s, d+1)
		if in.unk {
			return in
		}
		if x.Low != nil {
			if k, ok := constInt(x.Low); ok && k > 0 {
				return listVal{segs: []string{"PART:" + g.sym(v)}}
			} else if !ok {
				return unkList
			}
		}
		if x.High != nil {
			if k, ok := constInt(x.High); ok && k == 0 {
				return listVal{fresh: in.fresh || zeroCapSlice(g, x, v.c)}
			}
			if h := g.linEval(VC{x.High, v.c}, g.lenLeaf(e, s, d)); !h.eq(in.length()) {
				if k, ok := h.minus(in.length()).isConst(); ok && k < 0 {
					return listVal{segs: []string{"PART:" + g.sym(v)}}
				}
				return unkList
			}
		}
		if x.Max != nil {
			in.fresh = true // an append must allocate
		}
		return in
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			a := g.listD(VC{x.Call.Args[0], v.c}, e, s, d+1)
			b := g.listD(VC{x.Call.Args[1], v.c}, e, s, d+1)
			if a.unk || b.unk {
				return unkList
			}
			return listVal{segs: append(append([]string{}, a.segs...), b.segs...), fresh: a.fresh}
		}
		if f := x.Call.StaticCallee(); f != nil {
			nm := f.String()
			if o := f.Origin(); o != nil {
				nm = o.String()
			}
			switch nm {
			case "slices.Clone":
				in := g.listD(VC{x.Call.Args[0], v.c}, e, s, d+1)
				in.fresh = true
				return in
			case "slices.Concat":
				vs := g.variadic(VC{x.Call.Args[0], v.c})
				if vs == nil {
					return unkList
				}
				out := listVal{fresh: true}
				for _, a := range vs {
					l := g.listD(a, e, s, d+1)
					if l.unk {
						return unkList
					}
					out.segs = append(out.segs, l.segs...)
				}
				return out
			}
			return unkList
		}
	case *ssa.Phi:
		return unkList
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return unkList
		}
	}
	sym := g.sym(v)
	if s.has1("absent:" + sym) {
		return listVal{fresh: true}
	}
	if s.has1("nil:" + sym) {
		return listVal{fresh: true}
	}
	if s.has1("empty:" + sym) {
		return listVal{}
	}
	return listVal{segs: []string{"L:" + sym}}
}

// lenLeaf gives the length of a list the path knows in terms of its parts.
func (g *Graph) lenLeaf(e env, s lstate, d int) func(VC) (lin, bool) {
	return func(v VC) (lin, bool) {
		call, ok := v.v.(*ssa.Call)
		if !ok {
			return nil, false
		}
		if b, isb := call.Call.Value.(*ssa.Builtin); isb && b.Name() == "copy" {
			// copying into a longer list copies all of the source
			dst := g.trace(VC{call.Call.Args[0], v.c})
			ms, isms := dst.v.(*ssa.MakeSlice)
			src := g.listD(VC{call.Call.Args[1], v.c}, e, s, d+1)
			if !isms || src.unk || d > 12 {
				return nil, false
			}
			rest := g.linEval(VC{ms.Len, dst.c}, g.lenLeaf(e, s, d+1)).minus(src.length())
			for _, k := range rest {
				if k < 0 {
					return nil, false
				}
			}
			return src.length(), true
		}
		a, ok := isLen(call)
		if !ok || !isSlice(a.Type()) {
			return nil, false
		}
		l := g.listD(VC{a, v.c}, e, s, d+1)
		if l.unk || contains(l.segs, "HOLE") {
			return nil, false
		}
		return l.length(), true
	}
}

func zeroCapSlice(g *Graph, x *ssa.Slice, c *Ctx) bool {
	if x.Max == nil {
		return false
	}
	k, ok := constInt(x.Max)
	return ok && k == 0
}

// variadic lists the values packed into a variadic argument.
func (g *Graph) variadic(v VC) []VC {
	v = g.trace(v)
	sl, ok := v.v.(*ssa.Slice)
	if !ok {
		return nil
	}
	base := g.trace(VC{sl.X, v.c})
	al, ok := base.v.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([]VC, at.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := constInt(ia.Index)
		if !ok {
			return nil
		}
		for _, u := range *ia.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ia && k < at.Len() {
				out[k] = VC{st.Val, base.c}
			}
		}
	}
	return out
}

func (g *Graph) arrayElems(al *ssa.Alloc, c *Ctx, n int64, e env) listVal {
	out := listVal{fresh: true, segs: make([]string, n)}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := constInt(ia.Index)
		if !ok || k >= n {
			return unkList
		}
		for _, u := range *ia.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ia {
				out.segs[k] = "E:" + g.symAt(VC{st.Val, c}, e)
			}
		}
	}
	for _, x := range out.segs {
		if x == "" {
			return unkList
		}
	}
	return out
}

// accumulated: a list built by appending every element of another one in a loop.
func (g *Graph) accumulated(v VC, e env, s lstate, d int) (listVal, bool) {
	ph := v.v.(*ssa.Phi)
	if !inLoop(ph.Block()) {
		return listVal{}, false
	}
	var init ssa.Value
	var src VC
	for _, ed := range ph.Edges {
		if call, ok := ed.(*ssa.Call); ok {
			if b, isb := call.Call.Value.(*ssa.Builtin); isb && b.Name() == "append" && call.Call.Args[0] == ssa.Value(ph) {
				vs := g.variadic(VC{call.Call.Args[1], v.c})
				if len(vs) != 1 || vs[0].v == nil {
					return listVal{}, false
				}
				x, idx, ok := elemOf(g, vs[0])
				if !ok {
					return listVal{}, false
				}
				k, _ := counterOf(idx)
				if k.phi.Block() != ph.Block() {
					return listVal{}, false
				}
				src = x
				continue
			}
		}
		if init != nil && init != ed {
			return listVal{}, false
		}
		init = ed
	}
	if init == nil || src.v == nil {
		return listVal{}, false
	}
	a := g.listD(VC{init, v.c}, e, s, d+1)
	b := g.listD(src, e, s, d+1)
	if a.unk || b.unk {
		return unkList, true
	}
	return listVal{segs: append(append([]string{}, a.segs...), b.segs...), fresh: a.fresh}, true
}

// listPaths runs f with the path's lists at every node.
func (c *C) listPaths(g *Graph, f func(g *Graph, n *Node, s lstate, e env) (lstate, bool), edge func(g *Graph, n *Node, s lstate, at []Atom) lstate, end func(g *Graph, n *Node, s lstate)) {
	r := &Rule{Init: lstate{}}
	r.NodeE = func(g *Graph, n *Node, a Auto, e env) Auto {
		s := a.(lstate)
		s, ok := f(g, n, s, e)
		if !ok {
			return nil
		}
		return listStep(g, n, s)
	}
	r.Edge = func(g *Graph, n *Node, a Auto, at []Atom) Auto {
		s := a.(lstate)
		for _, x := range at {
			if v, isnil, ok := x.nilness(); ok && isnil && isSlice(v.v.Type()) {
				s = s.fact("nil:" + g.sym(v))
			}
			// len(x) == 0
			if lx, ok := lenArg(g, x.X); ok && isZeroLen(x) {
				s = s.fact("empty:" + g.sym(lx))
			}
			if x.Op == 0 && !x.Val && strings.HasPrefix(x.SX, "has(") {
				s = s.fact("absent:" + strings.TrimSuffix(strings.TrimPrefix(x.SX, "has("), ")"))
			}
		}
		if edge != nil {
			s = edge(g, n, s, at)
		}
		return s
	}
	if end != nil {
		r.End = func(g *Graph, n *Node, a Auto, w func() []string) { end(g, n, a.(lstate)) }
	}
	c.run(g, g.entry, r)
}

func lenArg(g *Graph, v VC) (VC, bool) {
	v = g.trace(v)
	if x, ok := isLen(v.v); ok {
		return VC{x, v.c}, true
	}
	return VC{}, false
}

func isZeroLen(x Atom) bool {
	switch {
	case x.SY == "#0" && (x.Op == token.EQL || x.Op == token.LEQ):
		return true
	case x.SY == "#1" && x.Op == token.LSS:
		return true
	}
	return false
}

var _ = fmt.Sprint

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Numbers along paths: every integer value of the path as a linear form over
// named quantities (what memory held when the path began, parameters, results of
// calls), through merges, calls and memory cells, with the comparisons decided.

type nstate struct {
	marks
	cells map[string]lin
	regs  map[string]lin
	f     facts
	ne    []lin
	aux   map[string]string
}

func (s nstate) Key() string {
	var b strings.Builder
	b.WriteString(s.marks.Key())
	for _, m := range []map[string]lin{s.cells, s.regs} {
		ks := make([]string, 0, len(m))
		for k, v := range m {
			ks = append(ks, k+"="+v.String())
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ";"))
		b.WriteByte('|')
	}
	ks := make([]string, 0, len(s.aux))
	for k, v := range s.aux {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ";") + "|")
	var ns []string
	for _, l := range s.ne {
		ns = append(ns, l.String())
	}
	sort.Strings(ns)
	return b.String() + strings.Join(ns, ";") + "|" + s.f.key()
}

func (s nstate) cell(k string) lin {
	if v, ok := s.cells[k]; ok {
		return v
	}
	return lv(k + "@0")
}

func (s nstate) setCell(k string, v lin) nstate { s.cells = putLin(s.cells, k, v); return s }
func (s nstate) setReg(k string, v lin) nstate  { s.regs = putLin(s.regs, k, v); return s }
func (s nstate) setAux(k, v string) nstate {
	n := map[string]string{k: v}
	for a, b := range s.aux {
		if a != k {
			n[a] = b
		}
	}
	s.aux = n
	return s
}

// refresh makes the quantity a new unknown: what was known under that name is
// known of its predecessor.
func (s nstate) refresh(name string) nstate {
	old := name + "'"
	sub := func(l lin) lin {
		if _, ok := l[name]; !ok {
			for k := range l {
				if strings.Contains(k, name) && k != old {
					n := lin{}
					for a, b := range l {
						n[strings.ReplaceAll(a, name, old)] += b
					}
					return n.tidy()
				}
			}
			return l
		}
		n := lin{}
		for a, b := range l {
			n[strings.ReplaceAll(a, name, old)] += b
		}
		return n.tidy()
	}
	drop := func(l lin) bool {
		for k := range l {
			if strings.Contains(k, old) {
				return true
			}
		}
		return false
	}
	mp := func(m map[string]lin, keep bool) map[string]lin {
		n := map[string]lin{}
		for k, v := range m {
			if drop(v) {
				if keep {
					n[k] = lv("lost:" + k)
				}
				continue
			}
			n[k] = sub(v)
		}
		return n
	}
	ls := func(in []lin) (out []lin) {
		for _, l := range in {
			if !drop(l) {
				out = append(out, sub(l))
			}
		}
		return
	}
	s.cells, s.regs = mp(s.cells, true), mp(s.regs, false)
	s.f = facts{ls(s.f.ge), ls(s.f.eq)}
	s.ne = ls(s.ne)
	return s
}

// learn records a decided comparison.
func (s nstate) learn(op token.Token, x, y lin) nstate {
	if op == token.NEQ {
		d := x.minus(y)
		if _, k := d.isConst(); !k {
			dup := false
			for _, l := range s.ne {
				if l.eq(d) || l.plus(d).zero() {
					dup = true
				}
			}
			if !dup {
				s.ne = append(append([]lin{}, s.ne...), d)
			}
		}
	}
	s.f = s.f.add(op, x, y).checkConst(op, x.minus(y))
	for _, d := range s.ne {
		if s.f.nonneg(d) && !s.f.nonneg(d.minus(lc(1))) {
			s.f = s.f.add(token.GEQ, d, lc(1))
		}
		if m := (lin{}).minus(d); s.f.nonneg(m) && !s.f.nonneg(m.minus(lc(1))) {
			s.f = s.f.add(token.GEQ, m, lc(1))
		}
		if s.f.zero(d) {
			s.f.eq = append(append([]lin{}, s.f.eq...), lc(1))
		}
	}
	return s
}

// bitPart is one part of a value put together from shifted parts.
type bitPart struct {
	shift int64
	v     lin
}

type numT struct {
	c     *C
	g     *Graph
	watch func(addr VC) string
	parts map[string][]bitPart
}

func (t *numT) cellOf(a VC) string {
	if t.watch != nil {
		if k := t.watch(a); k != "" {
			return k
		}
	}
	if al := t.g.trace(a); al.v != nil {
		if x, ok := al.v.(*ssa.Alloc); ok && isInt(x.Type().Underlying().(*types.Pointer).Elem()) {
			return "*" + vkey(al)
		}
	}
	return ""
}

func (t *numT) val(v VC, s nstate) lin {
	w := t.g.norm(v)
	if k, ok := w.v.(*ssa.Const); ok {
		return t.g.linEval(VC{k, w.c}, nil)
	}
	if l, ok := s.regs[vkey(w)]; ok {
		return l
	}
	if l, ok := s.regs[vkey(v)]; ok {
		return l
	}
	if x, ok := w.v.(*ssa.Convert); ok && isInt(x.Type()) && isInt(x.X.Type()) {
		return t.conv(x, w.c, s)
	}
	return lv(t.g.sym(w))
}

func intSize(t types.Type) int {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (t *numT) conv(x *ssa.Convert, c *Ctx, s nstate) lin {
	l := t.val(VC{x.X, c}, s)
	if intSize(x.Type()) >= intSize(x.X.Type()) {
		return l
	}
	if _, k := l.isConst(); k {
		return l
	}
	return lv(fmt.Sprintf("low%d(%s)", intSize(x.Type()), l))
}

func (t *numT) partsOf(l lin) []bitPart {
	if len(l) == 1 {
		for k, n := range l {
			if p, ok := t.parts[k]; ok && n == 1 {
				return p
			}
		}
	}
	if k, ok := l.isConst(); ok && k == 0 {
		return nil
	}
	return []bitPart{{0, l}}
}

func (t *numT) binop(x *ssa.BinOp, a, b lin, s nstate) (lin, nstate) {
	ka, aok := a.isConst()
	kb, bok := b.isConst()
	shifted := func(l lin) bool {
		p := t.partsOf(l)
		return len(p) > 1 || len(p) == 1 && p[0].shift > 0
	}
	compose := func() (lin, bool) {
		if !shifted(a) && !shifted(b) {
			return nil, false
		}
		nm := "or(" + a.String() + "," + b.String() + ")"
		t.parts[nm] = append(append([]bitPart{}, t.partsOf(a)...), t.partsOf(b)...)
		return lv(nm), true
	}
	op := func(nm string) lin { return lv(nm + "(" + a.String() + "," + b.String() + ")") }
	switch x.Op {
	case token.ADD:
		if l, ok := compose(); ok {
			return l, s
		}
		return a.plus(b), s
	case token.OR, token.XOR:
		if aok && bok {
			if x.Op == token.OR {
				return lc(ka | kb), s
			}
			return lc(ka ^ kb), s
		}
		if l, ok := compose(); ok {
			return l, s
		}
		return op("or"), s
	case token.SUB:
		return a.minus(b), s
	case token.MUL:
		if aok && !bok {
			a, b, kb, bok = b, a, ka, true
		}
		if bok {
			if sh, ok := pow2(kb); ok && sh > 0 {
				return t.shl(a, sh), s
			}
			return lin{}.add(a, kb).tidy(), s
		}
		return op("mul"), s
	case token.SHL:
		if bok && kb >= 0 && kb < 64 {
			if aok {
				return lc(ka << uint(kb)), s
			}
			return t.shl(a, kb), s
		}
		return op("shl"), s
	case token.AND:
		if aok && !bok {
			a, b, kb, bok = b, a, ka, true
		}
		if k, ok := a.isConst(); ok && bok {
			return lc(k & kb), s
		}
		l := op("and")
		if bok && kb >= 0 {
			s = s.learn(token.GEQ, l, lc(0))
			s = s.learn(token.LEQ, l, lc(kb))
		}
		return l, s
	case token.REM:
		if aok && bok && kb != 0 {
			return lc(ka % kb), s
		}
		l := op("rem")
		if bok && kb > 0 {
			s = s.learn(token.LEQ, l, lc(kb-1))
			if s.f.nonneg(a) {
				s = s.learn(token.GEQ, l, lc(0))
			}
		}
		return l, s
	case token.QUO:
		if aok && bok && kb != 0 {
			return lc(ka / kb), s
		}
		return op("quo"), s
	case token.SHR:
		return op("shr"), s
	}
	return op(x.Op.String()), s
}

func (t *numT) shl(a lin, k int64) lin {
	if k == 0 {
		return a
	}
	nm := fmt.Sprintf("shl(%s,%d)", a, k)
	var ps []bitPart
	for _, p := range t.partsOf(a) {
		ps = append(ps, bitPart{p.shift + k, p.v})
	}
	t.parts[nm] = ps
	return lv(nm)
}

func pow2(k int64) (int64, bool) {
	for i := int64(0); i < 62; i++ {
		if k == 1<<uint(i) {
			return i, true
		}
	}
	return 0, false
}

func (t *numT) step(n *Node, s nstate, e env) nstate {
	if n.kind != KInstr || n.instr == nil {
		return s
	}
	g := t.g
	switch x := n.instr.(type) {
	case *ssa.Store:
		if k := t.cellOf(VC{x.Addr, n.ctx}); k != "" {
			if isInt(x.Val.Type()) {
				return s.setCell(k, t.val(VC{x.Val, n.ctx}, s))
			}
			return s.setCell(k, lv("v:"+g.symAt(VC{x.Val, n.ctx}, e)))
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if k := t.cellOf(VC{x.X, n.ctx}); k != "" {
				return s.setReg(vkey(VC{x, n.ctx}), s.cell(k))
			}
		}
		if isInt(x.Type()) && x.Op == token.SUB {
			return s.setReg(vkey(VC{x, n.ctx}), lin{}.minus(t.val(VC{x.X, n.ctx}, s)))
		}
	case *ssa.BinOp:
		if isBool(x.Type()) && isInt(x.X.Type()) {
			k := vkey(VC{x, n.ctx})
			return s.setReg(k+"x", t.val(VC{x.X, n.ctx}, s)).setReg(k+"y", t.val(VC{x.Y, n.ctx}, s))
		}
		if isInt(x.Type()) && isInt(x.X.Type()) {
			var l lin
			l, s = t.binop(x, t.val(VC{x.X, n.ctx}, s), t.val(VC{x.Y, n.ctx}, s), s)
			return s.setReg(vkey(VC{x, n.ctx}), l)
		}
	case *ssa.Convert:
		if isInt(x.Type()) && isInt(x.X.Type()) {
			return s.setReg(vkey(VC{x, n.ctx}), t.conv(x, n.ctx, s))
		}
	case *ssa.Call:
		if len(n.callees) > 0 {
			return s
		}
		if k := t.atomicCell(x, n.ctx); k != "" {
			r := vkey(VC{x, n.ctx})
			f := x.Call.StaticCallee()
			a := func(i int) lin { return t.val(VC{x.Call.Args[i], n.ctx}, s) }
			switch {
			case strings.HasPrefix(f.Name(), "Load"):
				return s.setReg(r, s.cell(k))
			case strings.HasPrefix(f.Name(), "Store"):
				return s.setCell(k, a(1))
			case strings.HasPrefix(f.Name(), "Add"):
				v := s.cell(k).plus(a(1))
				return s.setCell(k, v).setReg(r, v)
			}
		}
		if isInt(x.Type()) {
			args := []string{}
			for _, a := range x.Call.Args {
				if isInt(a.Type()) {
					args = append(args, t.val(VC{a, n.ctx}, s).String())
				} else {
					args = append(args, g.sym(VC{a, n.ctx}))
				}
			}
			nm := calleeName(x)
			if x.Call.IsInvoke() {
				nm = x.Call.Method.Name()
			}
			name := fmt.Sprintf("%s#%s(%s)", nm, strings.Trim(vkey(VC{x, n.ctx}), "<>"), strings.Join(args, ","))
			s = s.refresh(name)
			return s.setReg(vkey(VC{x, n.ctx}), lv(name))
		}
	}
	return s
}

func (t *numT) atomicCell(x *ssa.Call, c *Ctx) string {
	f := x.Call.StaticCallee()
	if f == nil || len(x.Call.Args) == 0 || !strings.Contains(f.String(), "sync/atomic") {
		return ""
	}
	return t.cellOf(VC{x.Call.Args[0], c})
}

// numPaths runs f along every path with the numbers of the path.
func (c *C) numPaths(g *Graph, start *Node, t *numT, init nstate,
	f func(n *Node, s nstate, e env) (nstate, bool),
	edge func(n *Node, s nstate, at []Atom) (nstate, bool),
	end func(n *Node, s nstate, w func() []string)) {
	t.c, t.g = c, g
	if t.parts == nil {
		t.parts = map[string][]bitPart{}
	}
	r := &Rule{Init: init}
	r.NodeE = func(g *Graph, n *Node, a Auto, e env) Auto {
		s := a.(nstate)
		if f != nil {
			var ok bool
			if s, ok = f(n, s, e); !ok {
				return nil
			}
		}
		s = t.step(n, s, e)
		for _, l := range s.cells {
			if k := l[""]; (k > 40 || k < -40) && inLoopNode(n) {
				if _, isc := l.isConst(); !isc {
					return nil
				}
			}
		}
		return s
	}
	r.Edge = func(g *Graph, n *Node, a Auto, at []Atom) Auto {
		s := a.(nstate)
		for _, x := range at {
			if x.Op == 0 || x.X.v == nil || x.Y.v == nil || !isInt(x.X.v.Type()) || !isInt(x.Y.v.Type()) {
				continue
			}
			lx, ok1 := s.regs[vkey(x.B)+"x"]
			ly, ok2 := s.regs[vkey(x.B)+"y"]
			if !ok1 || !ok2 {
				lx, ly = t.val(x.X, s), t.val(x.Y, s)
			} else if _, sw := x.B.v.(*ssa.BinOp).X.(*ssa.Const); sw {
				lx, ly = ly, lx
			}
			s = s.learn(x.Op, lx, ly)
		}
		if s.f.contradicts() {
			return nil
		}
		if edge != nil {
			var ok bool
			if s, ok = edge(n, s, at); !ok {
				return nil
			}
		}
		return s
	}
	r.Flow = func(g *Graph, ed *Edge, a Auto, e env) Auto {
		s := a.(nstate)
		if ed.phiTo != nil {
			idx := -1
			for i, p := range ed.phiTo.Preds {
				if p == ed.phiFrom {
					idx = i
				}
			}
			up := map[string]lin{}
			for _, in := range ed.phiTo.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if idx >= 0 && isInt(ph.Type()) {
					up[vkey(VC{ph, ed.phiCtx})] = t.val(VC{ph.Edges[idx], ed.phiCtx}, s)
				}
			}
			for k, l := range up {
				if x := l[""]; x > 40 || x < -40 {
					if _, isc := l.isConst(); !isc || len(ed.phiTo.Preds) > 1 && ed.phiTo.Dominates(ed.phiFrom) {
						return nil
					}
				}
				s = s.setReg(k, l)
			}
		}
		if ed.retFrom != nil {
			up := map[string]lin{}
			bret := false
			if call, ok := ed.retCall.(*ssa.Call); ok && ed.ret != nil {
				for i, r := range ed.ret.Results {
					bret = bret || isBool(r.Type())
					if !isInt(r.Type()) {
						continue
					}
					l := t.val(VC{r, ed.retFrom}, s)
					if len(ed.ret.Results) == 1 {
						up[vkey(VC{call, ed.retTo})] = l
						continue
					}
					for _, u := range *call.Referrers() {
						if ex, ok := u.(*ssa.Extract); ok && ex.Index == i {
							up[vkey(VC{ex, ed.retTo})] = l
						}
					}
				}
			}
			pre := "<" + strconv.Itoa(ed.retFrom.id) + "."
			nr := map[string]lin{}
			for k, v := range s.regs {
				if !strings.HasPrefix(k, pre) || bret && !strings.HasSuffix(k, ">") {
					nr[k] = v
				}
			}
			for k, v := range up {
				nr[k] = v
			}
			s.regs = nr
		}
		return s
	}
	if end != nil {
		r.End = func(g *Graph, n *Node, a Auto, w func() []string) { end(n, a.(nstate), w) }
	}
	c.run(g, start, r)
}

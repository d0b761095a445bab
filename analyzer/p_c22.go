package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C22", func(c *C) {
		W := c.needType("zutils", "IDWorker")
		next := c.needMethod("zutils", "IDWorker", "NextID")
		mk := c.needFunc("zutils", "NewIDWorker")
		if W == nil || next == nil || mk == nil {
			return
		}
		u := &uidT{W: W}
		st := W.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if isInt(st.Field(i).Type()) {
				u.ints = append(u.ints, st.Field(i).Name())
			}
		}
		c.Rule("layout", "The identifier is put together from the time, the machine number and the sequence, each shifted into bits of its own")
		if !u.layout(c, next) {
			return
		}
		c.Rule("advance", "On every path that returns an identifier its time is later than the last one, or it is the same and the sequence is one more without having wrapped; both are remembered")
		u.advance(c, next)
		c.atLeast(2, "paths returning an identifier")
		c.Rule("machine", "Every machine number stored was found to fit its bits; otherwise an error is returned")
		u.machine(c, mk)
		c.atLeast(1, "machine numbers stored")
		c.Rule("lock", "The last time and sequence are read and written in one critical section of the generator's mutex")
		u.lock(c, next)
		c.atLeast(2, "guarded accesses")
	})
}

type uidT struct {
	W              *types.Named
	ints           []string
	worker         string
	seq, last      string
	wShift, tShift int64
}

// layout finds what the identifier consists of.
func (u *uidT) layout(c *C, next *ssa.Function) bool {
	g := c.graph(next, nil)
	t := &numT{watch: g.fieldCell(u.W, "P0@0", u.ints...)}
	stores := map[string]bool{}
	ok, bad := 0, false
	c.numPaths(g, g.entry, t, nstate{}, func(n *Node, s nstate, e env) (nstate, bool) {
		if st, is := n.instr.(*ssa.Store); is && n.kind == KInstr {
			if k := t.watch(VC{st.Addr, n.ctx}); k != "" {
				stores[k] = true
			}
		}
		ret, is := n.instr.(*ssa.Return)
		if !is || n.kind != KInstr || n.ctx != g.root || len(ret.Results) != 2 {
			return s, true
		}
		if g.symAt(VC{ret.Results[1], n.ctx}, e) != "nil" {
			return s, true
		}
		l := t.val(VC{ret.Results[0], n.ctx}, s)
		ps := t.partsOf(l)
		var sh []int64
		w := ""
		for _, p := range ps {
			sh = append(sh, p.shift)
			for k := range p.v {
				if f := strings.TrimSuffix(k, "@0"); contains(u.ints, f) && f != k && p.shift > 0 && len(p.v) == 1 && !strings.Contains(k, "(") {
					if u.worker == "" || u.worker == f {
						w = f
						u.wShift = p.shift
					}
				}
			}
		}
		if strings.HasPrefix(l.String(), "low32") {
			bad = true
			c.failN("narrow", n, "the identifier is cut down to fewer bits than its parts take")
			return s, true
		}
		if w == "" {
			return s, true
		}
		for _, x := range sh {
			if x > u.wShift {
				if u.tShift != 0 && u.tShift != x {
					bad = true
					c.failN("shift", n, "the parts of the identifier do not lie in the same bits on every path")
				}
				u.tShift = x
			}
		}
		u.worker = w
		ok++
		c.okN(n)
		return s, true
	}, nil, nil)
	if ok == 0 || u.tShift == 0 {
		if !bad {
			c.undecided("the identifier is not composed of shifted parts")
			c.failF("layout", next, "the identifier is not put together from a time above a machine number above a sequence")
		}
		return false
	}
	// the state: the fields the generator writes
	for f := range stores {
		if f == u.worker {
			c.failF("worker", next, "generating an identifier changes the machine number")
			return false
		}
	}
	return !bad
}

func (u *uidT) advance(c *C, next *ssa.Function) {
	g := c.graph(next, nil)
	t := &numT{watch: g.fieldCell(u.W, "P0@0", u.ints...)}
	mask := int64(1)<<uint(u.wShift) - 1
	done := map[string]bool{}
	rep := func(n *Node, k, why string) {
		if !done[k] {
			done[k] = true
			c.failN(k, n, why)
		}
	}
	// which written field is the time and which the sequence: by what is stored
	// there on the paths that return an identifier
	type obs struct {
		n *Node
		s nstate
		T lin
		S lin
	}
	var all []obs
	vote := map[string]int{}
	cellsWritten := map[string]bool{}
	c.numPaths(g, g.entry, t, nstate{}, func(n *Node, s nstate, e env) (nstate, bool) {
		ret, is := n.instr.(*ssa.Return)
		if !is || n.kind != KInstr || n.ctx != g.root || len(ret.Results) != 2 {
			return s, true
		}
		for k := range s.cells {
			if k[0] != '*' {
				cellsWritten[k] = true
			}
		}
		if g.symAt(VC{ret.Results[1], n.ctx}, e) != "nil" {
			return s, true
		}
		T, S := lin(nil), lc(0)
		for _, p := range t.partsOf(t.val(VC{ret.Results[0], n.ctx}, s)) {
			switch p.shift {
			case u.tShift:
				T = p.v
			case 0:
				S = p.v
			case u.wShift:
			default:
				T = nil
			}
		}
		if T == nil {
			rep(n, "layout", "a part of the identifier lies in bits of its own on one path only")
			return s, true
		}
		all = append(all, obs{n, s, T, S})
		for k, v := range s.cells {
			if k[0] == '*' {
				continue
			}
			if v.eq(T) {
				vote["t:"+k]++
			}
			if v.eq(S) {
				vote["s:"+k]++
			}
		}
		return s, true
	}, nil, nil)
	best := func(p string) (r string) {
		for _, f := range u.ints {
			if vote[p+f] > 0 && (r == "" || vote[p+f] > vote[p+r]) && f != u.worker {
				r = f
			}
		}
		return
	}
	u.last, u.seq = best("t:"), best("s:")
	if u.last == "" || u.seq == "" || u.last == u.seq {
		c.failF("state", next, "the time and the sequence of the identifier are not both remembered for the next one")
		return
	}
	last0, seq0 := lv(u.last+"@0"), lv(u.seq+"@0")
	var f0 facts
	f0 = f0.add(token.GEQ, seq0, lc(0)).add(token.LEQ, seq0, lc(mask))
	c.numPaths(g, g.entry, t, nstate{f: f0}, func(n *Node, s nstate, e env) (nstate, bool) {
		ret, is := n.instr.(*ssa.Return)
		if !is || n.kind != KInstr || n.ctx != g.root || len(ret.Results) != 2 {
			return s, true
		}
		nl, ns := s.cell(u.last), s.cell(u.seq)
		// later: the pair (time, sequence) comes after the one remembered
		later := func(T, S lin) (bool, string) {
			switch {
			case s.f.nonneg(T.minus(last0).minus(lc(1))):
				return true, ""
			case s.f.zero(T.minus(last0)):
				if S.eq(seq0.plus(lc(1))) {
					if s.f.nonneg(lc(mask).minus(S)) {
						return true, ""
					}
					return false, "the sequence can run over its bits"
				}
				if u.masked(S, seq0, mask) {
					if s.f.nonneg(S.minus(lc(1))) {
						return true, ""
					}
					return false, "the sequence can wrap within the same millisecond: the identifiers issued in it come again"
				}
				return false, "within the same millisecond the sequence does not go one up"
			}
			return false, "the time is not known to be past the one of the last identifier: identifiers of a time that has been can come again"
		}
		switch g.symAt(VC{ret.Results[1], n.ctx}, e) {
		case "nil":
		default:
			if nl.eq(last0) && ns.eq(seq0) {
				c.okN(n)
				return s, true
			}
			if ok, why := later(nl, ns); !ok {
				rep(n, "failed", "a failing call leaves a state behind that identifiers were issued from before ("+why+")")
			}
			return s, true
		}
		T, S := lin(nil), lc(0)
		for _, p := range t.partsOf(t.val(VC{ret.Results[0], n.ctx}, s)) {
			switch p.shift {
			case u.tShift:
				T = p.v
			case 0:
				S = p.v
			}
		}
		if T == nil {
			return s, true
		}
		if ok, why := later(T, S); !ok {
			rep(n, "again", why)
			return s, true
		}
		if !s.f.nonneg(S) || !s.f.nonneg(lc(mask).minus(S)) {
			rep(n, "seqbits", "the sequence is not known to fit the bits below the machine number")
			return s, true
		}
		if !s.f.zero(nl.minus(T)) {
			rep(n, "remember", "the time of the identifier is not the one remembered for the next")
			return s, true
		}
		if !s.f.zero(ns.minus(S)) {
			rep(n, "remember", "the sequence of the identifier is not the one remembered for the next")
			return s, true
		}
		if why := u.overflow(T); why != "" {
			rep(n, "overflow", why)
			return s, true
		}
		c.okN(n)
		return s, true
	}, nil, nil)
	// the state is changed nowhere else
	for _, f := range c.P.Roots("zutils") {
		gg := c.graph(f, nil)
		if f == next {
			continue
		}
		for _, n := range gg.nodes {
			st, ok := n.instr.(*ssa.Store)
			if !ok || n.kind != KInstr {
				continue
			}
			nm, fl, b, ok := gg.fieldOf(VC{st.Addr, n.ctx})
			if !ok || nm.Obj() != u.W.Obj() || fl != u.last && fl != u.seq {
				continue
			}
			if !gg.isFresh(b) {
				c.failN("elsewhere|"+fnName(f), n, "the generator's time or sequence is changed outside of issuing an identifier")
				continue
			}
			if fl == u.seq {
				if k, ok := constInt(st.Val); !ok || k < 0 || k > mask {
					c.failN("init|"+fnName(f), n, "a generator begins with a sequence that does not fit its bits")
				}
			}
		}
	}
}

// masked: S is seq+1 reduced to the sequence's bits.
func (u *uidT) masked(S, seq0 lin, mask int64) bool {
	w := seq0.plus(lc(1)).String()
	for _, f := range []string{fmt.Sprintf("and(%s,%s)", w, lc(mask)), fmt.Sprintf("rem(%s,%s)", w, lc(mask+1)), fmt.Sprintf("and(%s,%s)", lc(mask), w)} {
		if S.eq(lv(f)) {
			return true
		}
	}
	return false
}

var nanoRe = regexp.MustCompile(`^quo\(.*\.(UnixNano|Nanoseconds|UnixMicro|Microseconds)#.*,\+(\d+)\*1\)$`)

// overflow: the time counted in units too small to stay within the bits left to
// it.
func (u *uidT) overflow(T lin) string {
	for k := range T {
		if k == "" {
			continue
		}
		rate := 0.0 // units per second
		switch {
		case nanoRe.MatchString(k):
			m := nanoRe.FindStringSubmatch(k)
			d, _ := strconv.ParseFloat(m[2], 64)
			rate = 1e9
			if strings.HasPrefix(m[1], "UnixMicro") || strings.HasPrefix(m[1], "Micro") {
				rate = 1e6
			}
			if d > 0 {
				rate /= d
			}
		case strings.Contains(k, ".UnixNano#") && !strings.HasPrefix(k, "quo"):
			rate = 1e9
		case strings.Contains(k, ".UnixMicro#") && !strings.HasPrefix(k, "quo"):
			rate = 1e6
		case strings.HasPrefix(k, "low32("):
			return "the time is cut down to 32 bits: identifiers come again when it runs over"
		default:
			continue
		}
		lim := float64(uint64(1) << uint(63-u.tShift))
		// seconds since 1970 that fit
		if rate > 0 && lim/rate < 1.9e9 {
			return "the time is counted in units that do not fit the bits above the machine number: identifiers come again when it runs over"
		}
	}
	return ""
}

func (u *uidT) machine(c *C, mk *ssa.Function) {
	lim := int64(1)<<uint(u.tShift-u.wShift) - 1
	made := 0
	for _, f := range c.P.Roots("zutils") {
		g := c.graph(f, nil)
		has := false
		for _, n := range g.nodes {
			if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr {
				if nm, fl, _, ok := g.fieldOf(VC{st.Addr, n.ctx}); ok && nm.Obj() == u.W.Obj() && fl == u.worker {
					has = true
				}
			}
		}
		if !has && f != mk {
			continue
		}
		t := &numT{}
		const stored = 0
		rep := map[string]bool{}
		c.numPaths(g, g.entry, t, nstate{}, func(n *Node, s nstate, e env) (nstate, bool) {
			if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr {
				if nm, fl, b, ok := g.fieldOf(VC{st.Addr, n.ctx}); ok && nm.Obj() == u.W.Obj() && fl == u.worker {
					if !g.isFresh(b) {
						c.failN("change|"+fnName(f), n, "the machine number of a generator in use is changed")
						return s, true
					}
					l := t.val(VC{st.Val, n.ctx}, s)
					if f == mk && !l.eq(lv(g.psym(0))) {
						c.failN("other|"+fnName(f), n, "the generator does not get the machine number it was asked for: generators of different machines can collide")
						return s, true
					}
					s = s.setAux("w", l.String())
					s.marks = s.marks.set(stored)
				}
			}
			ret, ok := n.instr.(*ssa.Return)
			if !ok || n.kind != KInstr || n.ctx != g.root || f != mk || len(ret.Results) != 2 {
				return s, true
			}
			made++
			w := lv(g.psym(0))
			in := s.f.nonneg(w) && s.f.nonneg(lc(lim).minus(w))
			out := s.f.nonneg(lin{}.minus(w).minus(lc(1))) || s.f.nonneg(w.minus(lc(lim)).minus(lc(1)))
			isErr := g.symAt(VC{ret.Results[1], n.ctx}, e) != "nil"
			switch {
			case isErr && out:
				c.okN(n)
			case isErr:
				if !rep["refuse"] {
					rep["refuse"] = true
					c.failN("refuse", n, "a machine number in range can be refused")
				}
			case !in:
				if !rep["range"] {
					rep["range"] = true
					c.failN("range", n, fmt.Sprintf("a generator can be had for a machine number that does not fit its %d bits", u.tShift-u.wShift))
				}
			case !s.has(stored):
				if !rep["lost"] {
					rep["lost"] = true
					c.failN("lost", n, "the machine number is not kept in the generator")
				}
			case g.symAt(VC{ret.Results[0], n.ctx}, e) == "nil":
				if !rep["nil"] {
					rep["nil"] = true
					c.failN("nil", n, "no generator is returned although there is no error")
				}
			default:
				c.okN(n)
			}
			return s, true
		}, nil, nil)
	}
	if made == 0 {
		c.undecided("no constructor paths")
	}
}

func (u *uidT) lock(c *C, next *ssa.Function) {
	if u.last == "" || u.seq == "" {
		c.okN(c.graph(next, nil).entry)
		c.okN(c.graph(next, nil).entry)
		return
	}
	g := c.graph(next, nil)
	r := &Rule{Init: lockSt{}}
	bad := map[string]bool{}
	rep := func(n *Node, k, why string) {
		if !bad[k] {
			bad[k] = true
			c.failN(k, n, why)
		}
	}
	r.Node = func(g *Graph, n *Node, a Auto) Auto {
		s := a.(lockSt)
		if l, ok := g.lockOp(n); ok && n.kind != KGate {
			switch l.op {
			case "Lock":
				if s.touched {
					rep(n, "split", "the lock is given up between reading and writing the generator's state: two callers can issue the same identifier")
				}
				s.held = true
			case "RLock":
				s.shared = true
			case "Unlock":
				s.held = false
			case "RUnlock":
				s.shared = false
			}
			return s
		}
		if n.kind != KInstr || n.instr == nil {
			return s
		}
		var ad ssa.Value
		switch x := n.instr.(type) {
		case *ssa.Store:
			ad = x.Addr
		case *ssa.UnOp:
			if x.Op == token.MUL {
				ad = x.X
			}
		}
		if ad == nil {
			return s
		}
		nm, fl, _, ok := g.fieldOf(VC{ad, n.ctx})
		if !ok || nm.Obj() != u.W.Obj() || fl != u.last && fl != u.seq {
			return s
		}
		s.touched = true
		if !s.held {
			rep(n, "unlocked", "the generator's state is used without its mutex: two callers can issue the same identifier")
		} else {
			c.okN(n)
		}
		return s
	}
	r.End = func(g *Graph, n *Node, a Auto, w func() []string) {
		if normalEnd(n) && a.(lockSt).held {
			rep(n, "left", "the generator's mutex stays locked: no further identifier is issued")
		}
	}
	c.run(g, g.entry, r)
}

type lockSt struct{ held, shared, touched bool }

func (s lockSt) Key() string { return fmt.Sprint(s.held, s.shared, s.touched) }

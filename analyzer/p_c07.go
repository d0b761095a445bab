package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type icState struct {
	f        facts
	crc      [2]bool // checksum bytes found equal
	crcBad   bool    // a checksum byte found different
	msgNil   bool
	proceed  int  // times passed on
	decoded  bool // passed on as decoded
	replaced bool
}

func (s icState) Key() string {
	return fmt.Sprint(s.crc, s.crcBad, s.msgNil, s.proceed, s.decoded, s.f.key())
}

// interceptPaths walks a decoder's Intercept with what is known about the frame
// length and the checksum.
func interceptPaths(c *C, T *types.Named, access func(g *Graph, n *Node, s icState, need lin, what string), pass func(g *Graph, n *Node, s icState, decoded bool), end func(g *Graph, s icState, w func() []string)) *Graph {
	f := c.P.methodOf(T, "Intercept")
	if f == nil {
		c.missing(T.Obj().Name() + ".Intercept")
		return nil
	}
	g := c.graph(f, &Policy{Inline: func(h *ssa.Function) bool {
		return defaultInline(h) && fnRel(h) != "zinterceptor"
	}})
	data, msg := frameSym(g)
	if data == "" {
		c.failF(T.Obj().Name()+"|data", f, "does not look at the data of the message")
		return nil
	}
	leaf := g.wireLeaf(data)
	init := icState{}
	cfg := lengthField(c, T)
	if cfg != nil && cfg.ok {
		w := wref{lc(cfg.vals["LengthFieldOffset"] - cfg.vals["InitialBytesToStrip"]), int(cfg.vals["LengthFieldLength"]), cfg.ord}
		if w.width == 1 {
			w.order = ""
		}
		l := lv("wire:" + w.String())
		init.f = init.f.add(token.EQL, lv("N"), lc(cfg.vals["LengthFieldOffset"]+cfg.vals["LengthFieldLength"]+cfg.vals["LengthAdjustment"]-cfg.vals["InitialBytesToStrip"]).plus(l))
		init.f = init.f.add(token.GEQ, l, lin{})
	}
	r := &Rule{Init: init}
	r.Edge = func(g *Graph, n *Node, a Auto, at []Atom) Auto {
		s := a.(icState)
		for _, x := range at {
			if v, isnil, ok := x.nilness(); ok {
				if g.sym(v) == msg && isnil {
					s.msgNil = true
				}
				if isnil {
					if is, _ := crcValue(g, g.deref(v), data, leaf); is {
						return nil // the checksum is never nil
					}
					if _, _, ok := g.byteSlice(v, data, leaf); ok && g.sym(g.deref(v)) != data {
						return nil // nor is a part of the frame
					}
				}
				continue
			}
			if k, eq, ok := crcByte(g, x, data, leaf); ok {
				if !eq {
					s.crcBad = true
				} else if k == 2 {
					s.crc = [2]bool{true, true}
				} else {
					s.crc[k] = true
				}
				continue
			}
			if x.Op != 0 && isInt(x.X.v.Type()) {
				l, r := g.linEval(x.X, leaf), g.linEval(x.Y, leaf)
				if call, ok := g.trace(x.X).v.(*ssa.Call); ok {
					if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
						if is, _ := crcValue(g, g.deref(VC{call.Call.Args[0], g.trace(x.X).c}), data, leaf); is {
							l = lc(2)
						}
					}
				}
				if d, isc := l.minus(r).isConst(); isc {
					if !holds(x.Op, d) {
						return nil
					}
					continue
				}
				s.f = s.f.add(x.Op, l, r)
			}
		}
		return s
	}
	r.NodeE = func(g *Graph, n *Node, a Auto, e env) Auto {
		s := a.(icState)
		if n.instr == nil || n.kind != KInstr && n.kind != KDeferCall {
			return s
		}
		switch x := n.instr.(type) {
		case *ssa.IndexAddr:
			if _, isarr := x.X.Type().Underlying().(*types.Pointer); !isarr {
				if lo, hi, ok := g.byteSlice(VC{x.X, n.ctx}, data, leaf); ok {
					off := lo.plus(g.linEval(VC{x.Index, n.ctx}, leaf))
					if knownForm(off) && knownForm(hi) {
						access(g, n, s, hi.minus(off).minus(lc(1)), "reads a byte")
						access(g, n, s, off, "reads a byte before the frame")
					}
				}
			}
		case *ssa.Slice:
			if lo, hi, ok := g.byteSlice(VC{x.X, n.ctx}, data, leaf); ok {
				a, b := lo, hi
				if x.Low != nil {
					a = lo.plus(g.linEval(VC{x.Low, n.ctx}, leaf))
				}
				if x.High != nil {
					b = lo.plus(g.linEval(VC{x.High, n.ctx}, leaf))
				}
				if knownForm(a) && knownForm(b) && knownForm(hi) {
					access(g, n, s, b.minus(a), "takes a slice")
					access(g, n, s, hi.minus(b), "takes a slice")
				}
			}
		case *ssa.Call:
			nm := g.callName(n)
			if w, ok := binaryWidth(nm); ok {
				i := 1
				if v, ok := g.arg(n, i); ok {
					if lo, hi, ok := g.byteSlice(v, data, leaf); ok && knownForm(lo) && knownForm(hi) {
						access(g, n, s, hi.minus(lo).minus(lc(int64(w))), "reads a number")
					}
				}
			}
			if strings.HasSuffix(nm, ".ProceedWithIMessage") || strings.HasSuffix(nm, ".Proceed") {
				dec := false
				if v, ok := g.arg(n, 2); ok {
					dec = g.symAt(v, e) != "nil"
				}
				pass(g, n, s, dec)
				if s.proceed < 2 {
					s.proceed++
				}
				s.decoded = s.decoded || dec
			}
		}
		return s
	}
	r.End = func(g *Graph, n *Node, a Auto, w func() []string) { end(g, a.(icState), w) }
	c.run(g, g.entry, r)
	return g
}

// known: a form over the frame's own quantities only.
func knownForm(l lin) bool {
	for k := range l {
		if k != "" && k != "N" && !strings.HasPrefix(k, "wire:") {
			return false
		}
	}
	return true
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func binaryWidth(nm string) (int, bool) {
	if !strings.HasPrefix(nm, "(encoding/binary.") {
		return 0, false
	}
	for _, w := range []int{16, 32, 64} {
		if strings.HasSuffix(nm, fmt.Sprintf(").Uint%d", w)) {
			return w / 8, true
		}
	}
	return 0, false
}

// crcValue: the value is the checksum computed over bytes [0, N-2) of the frame.
func crcValue(g *Graph, v VC, data string, leaf func(VC) (lin, bool)) (isCrc, whole bool) {
	for _, k := range g.ctxs {
		if k.fn.Name() != "GetCrC" || k.parent == nil || len(k.args) == 0 {
			continue
		}
		call, ok := k.site.(*ssa.Call)
		if !ok {
			continue
		}
		same := g.sym(v) == g.sym(VC{call, k.parent})
		if !same {
			for _, r := range k.rets {
				if g.sym(VC{r.instr.(*ssa.Return).Results[0], k}) == g.sym(v) {
					same = true
				}
			}
		}
		if !same {
			continue
		}
		lo, hi, ok := g.byteSlice(k.args[0], data, leaf)
		return true, ok && lo.zero() && hi.eq(lv("N").minus(lc(2)))
	}
	return false, false
}

// crcByte: the atom compares checksum byte k (2: both) with the frame's.
func crcByte(g *Graph, x Atom, data string, leaf func(VC) (lin, bool)) (k int, eq, ok bool) {
	elem := func(v VC) (VC, int, bool) {
		v = g.deref(v)
		u, ok := v.v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return VC{}, 0, false
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok {
			return VC{}, 0, false
		}
		i, ok := ia.Index.(*ssa.Const)
		if !ok {
			return VC{}, 0, false
		}
		return g.deref(VC{ia.X, v.c}), int(i.Int64()), true
	}
	if x.Op == token.EQL || x.Op == token.NEQ {
		for _, p := range [][2]VC{{x.X, x.Y}, {x.Y, x.X}} {
			if b, i, ok := elem(p[0]); ok && i < 2 {
				if is, whole := crcValue(g, b, data, leaf); is {
					w, ok := g.wireRead(p[1], data)
					good := ok && whole && w.off.eq(lv("N").minus(lc(2)).plus(lc(int64(i))))
					if x.Op == token.NEQ {
						return i, false, true
					}
					return i, true, good
				}
			}
		}
	}
	if x.Op == 0 {
		if call, isc := g.trace(x.X).v.(*ssa.Call); isc && hasAny(calleeName(call), "bytes.Equal", "slices.Equal") && len(call.Call.Args) == 2 {
			c := g.trace(x.X).c
			for _, p := range [][2]VC{{{call.Call.Args[0], c}, {call.Call.Args[1], c}}, {{call.Call.Args[1], c}, {call.Call.Args[0], c}}} {
				if is, whole := crcValue(g, g.deref(p[0]), data, leaf); is {
					lo, hi, ok := g.byteSlice(p[1], data, leaf)
					good := ok && whole && lo.eq(lv("N").minus(lc(2))) && hi.eq(lv("N"))
					if !x.Val {
						return 2, false, true
					}
					return 2, true, good
				}
			}
		}
	}
	return 0, false, false
}

func crcRule(c *C) {
	T := c.needType("zdecoder", "HtlvCrcDecoder")
	if T == nil {
		return
	}
	bad := map[string]bool{}
	interceptPaths(c, T, func(*Graph, *Node, icState, lin, string) {},
		func(g *Graph, n *Node, s icState, decoded bool) {
			short := s.f.nonneg(lc(4).minus(lv("N")))
			if s.msgNil || short {
				c.okN(n)
				return
			}
			if !s.crc[0] || !s.crc[1] {
				why := "a frame is passed on although its checksum was not found right over all bytes before it"
				if !bad[why] {
					bad[why] = true
					c.failN("crc|"+why, n, why)
				}
				return
			}
			c.okN(n)
		},
		func(g *Graph, s icState, w func() []string) {})
	c.atLeast(2, "places where checksummed frames are passed on")
}

func boundsRule(c *C, T *types.Named) {
	name := T.Obj().Name()
	hdr := int64(8)
	if name == "HtlvCrcDecoder" {
		hdr = 5
	}
	bad := map[string]bool{}
	interceptPaths(c, T,
		func(g *Graph, n *Node, s icState, need lin, what string) {
			if s.f.nonneg(need) {
				c.okN(n)
				return
			}
			k := n.posn(g.P)
			if !bad[k] {
				bad[k] = true
				c.failN(name+"|"+what+"|"+fnName(n.fn()), n, what+" of a frame that may be shorter (needs "+need.String()+" >= 0)")
			}
		},
		func(g *Graph, n *Node, s icState, decoded bool) {
			if decoded && !s.f.nonneg(lv("N").minus(lc(hdr))) {
				if !bad["short"] {
					bad["short"] = true
					c.failN(name+"|short", n, fmt.Sprintf("a frame with fewer than %d bytes may be passed on as decoded", hdr))
				}
				return
			}
			c.okN(n)
		},
		func(g *Graph, s icState, w func() []string) {
			full := !s.msgNil && !s.f.nonneg(lc(hdr-1).minus(lv("N"))) && !s.crcBad
			if full && !s.decoded {
				if !bad["lost"] {
					bad["lost"] = true
					c.fail(name+"|lost", g.P.pos(g.root.fn.Pos()), fnName(g.root.fn), "a complete frame may not be passed on as decoded", w()...)
				}
			} else if s.proceed > 1 {
				if !bad["twice"] {
					bad["twice"] = true
					c.fail(name+"|twice", g.P.pos(g.root.fn.Pos()), fnName(g.root.fn), "a frame is passed on twice", w()...)
				}
			} else {
				c.ok(fnName(g.root.fn))
			}
		})
}

// crcTable checks the checksum's tables and loop.
func crcTable(c *C) {
	f := c.needFunc("zdecoder", "GetCrC")
	if f == nil {
		return
	}
	// the standard tables
	var hi, lo [256]int64
	for i := 0; i < 256; i++ {
		r := uint16(i)
		for k := 0; k < 8; k++ {
			if r&1 != 0 {
				r = r>>1 ^ 0xA001
			} else {
				r >>= 1
			}
		}
		hi[i], lo[i] = int64(r&0xff), int64(r>>8)
	}
	for _, t := range []struct {
		n    string
		want [256]int64
	}{{"crc16_h", hi}, {"crc16_l", lo}} {
		sp := c.P.ByPkg["zdecoder"]
		gl, _ := sp.Members[t.n].(*ssa.Global)
		if gl == nil {
			continue // another implementation of the checksum
		}
		vals, ok := globalBytes(c.P, gl)
		if !ok {
			continue
		}
		good := len(vals) == 256
		for i := 0; good && i < 256; i++ {
			if vals[i] != t.want[i] {
				c.fail("table|"+t.n, c.P.pos(gl.Pos()), "zdecoder."+t.n, fmt.Sprintf("entry %d of %s is %#x, the CRC-16/MODBUS table has %#x", i, t.n, vals[i], t.want[i]))
				good = false
			}
		}
		if len(vals) != 256 {
			c.fail("table|"+t.n, c.P.pos(gl.Pos()), "zdecoder."+t.n, fmt.Sprintf("%s has %d entries", t.n, len(vals)))
		} else if good {
			c.ok("zdecoder." + t.n)
		}
	}
	if why, ok := fullScan(f, 0); !ok {
		if why != "" {
			c.failF("scan", f, why)
		}
	} else {
		c.ok("GetCrC loop")
	}
}

// globalBytes: the constants a package-level slice is initialised with.
func globalBytes(P *Program, gl *ssa.Global) ([]int64, bool) {
	for _, sp := range P.ByPkg {
		if sp.Pkg != gl.Pkg.Pkg {
			continue
		}
		ini, _ := sp.Members["init"].(*ssa.Function)
		if ini == nil {
			return nil, false
		}
		for _, b := range ini.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(gl) {
					continue
				}
				sl, ok := st.Val.(*ssa.Slice)
				if !ok {
					return nil, false
				}
				al, ok := sl.X.(*ssa.Alloc)
				if !ok {
					return nil, false
				}
				arr, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
				if !ok {
					return nil, false
				}
				out := make([]int64, arr.Len())
				for _, u := range *al.Referrers() {
					ia, ok := u.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					i, ok := ia.Index.(*ssa.Const)
					if !ok {
						return nil, false
					}
					for _, w := range *ia.Referrers() {
						if s2, ok := w.(*ssa.Store); ok {
							if k, ok := s2.Val.(*ssa.Const); ok && k.Value != nil {
								v, _ := constant.Int64Val(constant.ToInt(k.Value))
								out[i.Int64()] = v
							}
						}
					}
				}
				return out, true
			}
		}
	}
	return nil, false
}

// fullScan: the function reads its slice parameter element by element from the
// first to the last. A shape it does not recognise gives ("", false).
func fullScan(f *ssa.Function, p int) (string, bool) {
	par := f.Params[p]
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			base := ia.X
			if sl, ok := base.(*ssa.Slice); ok && sl.X == ssa.Value(par) {
				if k, ok := sl.Low.(*ssa.Const); sl.Low != nil && (!ok || k.Int64() != 0) {
					return "the loop starts after the first byte", false
				}
				if sl.High != nil {
					return "the loop stops before the last byte", false
				}
				base = par
			}
			if base != ssa.Value(par) {
				continue
			}
			idx := ia.Index
			start, limit, ok := induction(idx)
			if !ok {
				continue
			}
			if start != 0 {
				return "the loop starts after the first byte", false
			}
			call, ok := limit.(*ssa.Call)
			if ok {
				if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					return "", true
				}
			}
			return "the loop does not run up to the length of its input", false
		}
	}
	return "", false
}

// induction recognises a counter that runs from start by one while it is below
// limit.
func induction(idx ssa.Value) (start int64, limit ssa.Value, ok bool) {
	var phi *ssa.Phi
	inc := int64(0)
	switch x := idx.(type) {
	case *ssa.Phi:
		phi = x
	case *ssa.BinOp: // range loops: phi(-1, x) + 1
		if x.Op != token.ADD {
			return
		}
		k, isc := x.Y.(*ssa.Const)
		p, isp := x.X.(*ssa.Phi)
		if !isc || !isp {
			return
		}
		phi, inc = p, k.Int64()
	default:
		return
	}
	okInit, okStep := false, false
	for _, e := range phi.Edges {
		if k, isc := e.(*ssa.Const); isc && k.Value != nil {
			start = k.Int64() + inc
			okInit = true
			continue
		}
		if b, isb := e.(*ssa.BinOp); isb && b.Op == token.ADD && b.X == ssa.Value(phi) {
			if k, isc := b.Y.(*ssa.Const); isc && k.Int64() == 1 {
				okStep = true
			}
		}
	}
	if !okInit || !okStep {
		return 0, nil, false
	}
	for _, u := range *idx.Referrers() {
		b, isb := u.(*ssa.BinOp)
		if !isb {
			continue
		}
		isIf := false
		for _, w := range *b.Referrers() {
			if _, y := w.(*ssa.If); y {
				isIf = true
			}
		}
		if !isIf {
			continue
		}
		switch {
		case b.Op == token.LSS && b.X == idx:
			return start, b.Y, true
		case b.Op == token.GTR && b.Y == idx:
			return start, b.X, true
		case b.Op == token.NEQ && b.X == idx:
			return start, b.Y, true
		case (b.Op == token.LEQ || b.Op == token.GEQ):
			return start, b, true
		}
	}
	return 0, nil, false
}

func holds(op token.Token, d int64) bool {
	switch op {
	case token.EQL:
		return d == 0
	case token.NEQ:
		return d != 0
	case token.LSS:
		return d < 0
	case token.LEQ:
		return d <= 0
	case token.GTR:
		return d > 0
	case token.GEQ:
		return d >= 0
	}
	return true
}

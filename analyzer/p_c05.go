package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// decState: what one round of the frame decoder has done to the buffered bytes.
type decState struct {
	active   bool // a buffer over the pending bytes exists
	pos      lin  // bytes consumed in this round
	base     lin  // position at which the length field was read
	frameLen lin  // total length of the frame (payload-adjusted)
	haveU    bool
	lens     map[string]lin // Len() results
	disc     lin            // bytes still to discard
	discSet  bool
	flag     string // discarding mode: "", "T", "F"
	lastAt   lin    // where the last consumption started
	lastN    lin
	gotFrame bool
	deliver  int
	appended bool
	f        facts
	bufs     map[string]bool
}

func (s decState) Key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v|%v|%v|%v|%v|%v|%v|%s|%v|%v|%v|%d|%v|%s|", s.active, s.pos, s.base, s.frameLen, s.haveU, s.disc, s.discSet, s.flag, s.lastAt, s.lastN, s.gotFrame, s.deliver, s.appended, s.f.key())
	ks := []string{}
	for k, v := range s.lens {
		ks = append(ks, k+"="+v.String())
	}
	for k := range s.bufs {
		ks = append(ks, "b"+k)
	}
	sortStrings(ks)
	b.WriteString(strings.Join(ks, ";"))
	return b.String()
}

func init() {
	register("C05", func(c *C) {
		T := c.needType("zinterceptor", "FrameDecoder")
		if T == nil {
			return
		}
		c.Rule("account", "On every path of one decoding round the bytes removed from the stream equal the bytes consumed; a delivered frame starts where its length field was found (after the stripped prefix) and ends at start+length; a rejected oversized frame removes its own length now or records the exact rest to discard; an incomplete frame removes nothing; rounds stop only when a round delivers and consumes nothing")
		decoderAccount(c, T)
		c.Rule("width", "The length is read from exactly the configured bytes, with the configured width and byte order")
		decoderWidth(c, T)
		c.Rule("config", "The decoder is built from the configuration field by field, the end of the length field is offset plus length, and every connection gets a decoder of its own")
		decoderConfig(c, T)
	})
}

func decoderAccount(c *C, T *types.Named) {
	f := c.P.methodOf(T, "Decode")
	if f == nil {
		c.missing("FrameDecoder.Decode")
		return
	}
	g := c.graph(f, nil)
	inF := c.needField(T, "in", "[]byte")
	discF := c.needField(T, "bytesToDiscard", "")
	flagF := c.needField(T, "discardingTooLongFrame", "")
	if inF == "" || discF == "" || flagF == "" {
		return
	}
	me := g.psym(0)
	fld := func(n string) lin { return lv(me + "." + n) }
	embed := func(n string) lin { return lv(me + ".LengthField." + n) }
	endOff := fld("LengthFieldEndOffset")
	isBuf := func(n *Node, st *decState) bool {
		v, ok := g.arg(n, 0)
		return ok && st.bufs[g.sym(v)]
	}
	bad := map[string]bool{}
	fail := func(n *Node, why string) {
		if !bad[why] {
			bad[why] = true
			c.failN(why, n, why)
		}
	}
	nFrames, nRounds := 0, 0
	leaf := func(s *decState) func(v VC) (lin, bool) {
		return func(v VC) (lin, bool) {
			if l, ok := s.lens[vkey(v)]; ok {
				return l, true
			}
			if u, ok := v.v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if g.isField(v, T, discF) {
					if s.disc != nil {
						return s.disc, true
					}
					return lv("B0"), true
				}
			}
			if call, ok := v.v.(*ssa.Call); ok {
				if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && g.isField(VC{call.Call.Args[0], v.c}, T, inF) {
					return lv("L0"), true
				}
			}
			return nil, false
		}
	}
	consume := func(s decState, n lin) decState {
		s.lastAt, s.lastN = s.pos, n
		s.pos = s.pos.plus(n)
		return s
	}
	r := &Rule{Init: decState{pos: lin{}}}
	r.NodeE = func(g *Graph, n *Node, a Auto, e env) Auto {
		s := a.(decState)
		if n.instr == nil || n.kind != KInstr && n.kind != KDeferCall {
			return s
		}
		ev := func(v VC) lin { return g.linEval(v, leaf(&s)) }
		switch x := n.instr.(type) {
		case *ssa.Store:
			switch {
			case g.isField(VC{x.Addr, n.ctx}, T, inF):
				val := g.trace(VC{x.Val, n.ctx})
				if call, ok := val.v.(*ssa.Call); ok {
					if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && s.active {
						if in, ok := g.trace(VC{call.Call.Args[1], val.c}).v.(*ssa.Call); ok && strings.HasSuffix(calleeName(in), "bytes.Buffer).Bytes") {
							nRounds++
							checkRound(c, n, &s, fail)
							if s.gotFrame {
								nFrames++
							}
							return s
						}
					}
					if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && g.isField(VC{call.Call.Args[0], val.c}, T, inF) {
						if g.sym(VC{call.Call.Args[1], val.c}) == g.psym(1) {
							s.appended = true
							c.okN(n)
						}
						return s
					}
				}
				if sl, ok := val.v.(*ssa.Slice); ok && g.isField(VC{sl.X, val.c}, T, inF) {
					if !s.active {
						return s
					}
					low := lin{}
					if sl.Low != nil {
						low = ev(VC{sl.Low, val.c})
					}
					if sl.High != nil {
						fail(n, "bytes at the end of the pending stream are dropped")
					}
					if !low.eq(s.pos) {
						fail(n, fmt.Sprintf("a round removes other bytes from the stream than it consumed (removes %v, consumed %v)", low, s.pos))
					}
					nRounds++
					checkRound(c, n, &s, fail)
					if s.gotFrame {
						nFrames++
					}
				} else if call, ok := val.v.(*ssa.Call); ok && strings.HasSuffix(calleeName(call), "bytes.Buffer).Bytes") {
					// the unread rest of the buffer
					nRounds++
					checkRound(c, n, &s, fail)
					if s.gotFrame {
						nFrames++
					}
				}
				return s
			case g.isField(VC{x.Addr, n.ctx}, T, discF):
				s.disc, s.discSet = ev(VC{x.Val, n.ctx}), true
			case g.isField(VC{x.Addr, n.ctx}, T, flagF):
				switch g.symAt(VC{x.Val, n.ctx}, e) {
				case "#true":
					s.flag = "T"
				case "#false":
					s.flag = "F"
					d := lv("B0")
					if s.disc != nil {
						d = s.disc
					}
					if !s.f.zero(d) {
						fail(n, "discarding ends although bytes of the oversized frame are still to come")
					}
				}
			}
			return s
		case *ssa.Slice:
			// the length field
			if call, ok := g.trace(VC{x.X, n.ctx}).v.(*ssa.Call); ok && strings.HasSuffix(calleeName(call), "bytes.Buffer).Bytes") && x.Low != nil && x.High != nil {
				lo, hi := ev(VC{x.Low, n.ctx}), ev(VC{x.High, n.ctx})
				if !lo.eq(embed("LengthFieldOffset")) || !hi.eq(embed("LengthFieldOffset").plus(embed("LengthFieldLength"))) {
					fail(n, "the length is not read from the configured position of the length field")
				} else {
					c.okN(n)
				}
				if !s.f.nonneg(lv("L0").minus(s.pos).minus(endOff)) {
					fail(n, "the length field is read before all its bytes have arrived")
				}
				s.base, s.haveU = s.pos, true
			}
			return s
		case *ssa.Return:
			if n.ctx == g.root {
				if !s.appended {
					fail(n, "received bytes are not appended to the pending stream")
				}
				if s.gotFrame {
					fail(n, "decoding stops after a frame although more frames may be pending")
				} else if !s.f.zero(s.pos) && !s.f.zero(lv("L0").minus(s.pos)) && !s.f.nonneg(endOff.minus(lv("L0").minus(s.pos)).minus(lc(1))) {
					fail(n, "decoding stops after a round that consumed bytes although complete frames may be pending")
				} else {
					c.okN(n)
				}
			}
			return s
		}
		if !isCallNode(n) {
			return s
		}
		name := g.callName(n)
		switch name {
		case "bytes.NewBuffer", "bytes.NewReader":
			v, _ := g.arg(n, 0)
			if g.isField(v, T, inF) {
				if s.gotFrame && s.deliver != 1 {
					fail(n, "a decoded frame is not delivered exactly once")
				}
				ns := decState{active: true, pos: lin{}, appended: s.appended, bufs: map[string]bool{g.sym(VC{n.instr.(ssa.Value), n.ctx}): true}}
				return ns
			}
		case "(*bytes.Buffer).Len":
			if isBuf(n, &s) {
				m := map[string]lin{}
				for k, v := range s.lens {
					m[k] = v
				}
				m[vkey(VC{n.instr.(ssa.Value), n.ctx})] = lv("L0").minus(s.pos)
				s.lens = m
			}
		case "(*bytes.Buffer).Next":
			if isBuf(n, &s) {
				v, _ := g.arg(n, 1)
				return consume(s, ev(v))
			}
		case "(*bytes.Buffer).Read", "io.ReadFull":
			v, _ := g.arg(n, 1)
			if isBuf(n, &s) {
				if mk, ok := g.trace(v).v.(*ssa.MakeSlice); ok {
					s = consume(s, ev(VC{mk.Len, g.trace(v).c}))
					s.gotFrame = true
					return s
				}
				fail(n, "bytes are consumed into a buffer of unknown length")
			}
		case "builtin:copy":
			v, _ := g.arg(n, 1)
			if call, ok := g.trace(v).v.(*ssa.Call); ok && strings.HasSuffix(calleeName(call), "bytes.Buffer).Next") {
				s.gotFrame = true
				return s
			}
		case "builtin:append":
			v, _ := g.arg(n, 0)
			if v.v.Type().String() == "[][]byte" {
				s.deliver++
				if s.deliver > 1 {
					s.deliver = 2
				}
				if !s.gotFrame {
					fail(n, "something that is not a frame of this round is delivered")
				} else {
					c.okN(n)
				}
			}
		}
		return s
	}
	r.Edge = func(g *Graph, n *Node, a Auto, at []Atom) Auto {
		s := a.(decState)
		for _, x := range at {
			if x.Op == token.ILLEGAL || x.Op == token.NEQ {
				continue
			}
			if !isNumeric(x.X.v.Type()) {
				continue
			}
			s.f = s.f.add(x.Op, g.linEval(x.X, leaf(&s)), g.linEval(x.Y, leaf(&s)))
		}
		// learn the total frame length from the comparison with the maximum
		return s
	}
	c.run(g, g.entry, r)
	if nRounds == 0 {
		c.failF("rounds", f, "no round of decoding found: bytes are never removed from the pending stream")
	}
	if nFrames == 0 {
		c.failF("frames", f, "no path delivers a frame")
	}
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// checkRound judges a finished round.
func checkRound(c *C, n *Node, s *decState, fail func(n *Node, why string)) {
	me := "P0@0"
	fld := func(n string) lin { return lv(me + "." + n) }
	embed := func(n string) lin { return lv(me + ".LengthField." + n) }
	endOff, adj, max, strip := fld("LengthFieldEndOffset"), embed("LengthAdjustment"), embed("MaxFrameLength"), embed("InitialBytesToStrip")
	if !s.haveU {
		// no length field seen: only discarding may consume
		d := lv("B0")
		if s.disc != nil {
			d = s.disc
		}
		if !s.pos.zero() && !(s.discSet && s.pos.plus(d).eq(lv("B0"))) {
			fail(n, "bytes are removed although no complete length field was there")
		}
		if !s.f.nonneg(endOff.minus(lv("L0").minus(s.pos)).minus(lc(1))) {
			fail(n, "a round gives up although the length field has arrived completely")
		}
		c.okN(n)
		return
	}
	// the frame length: U + adj + endOff, U an opaque quantity
	rest := s.pos.minus(s.base)
	if s.gotFrame {
		fl := rest
		u := fl.minus(adj).minus(endOff)
		if len(u) != 1 || !isOpaqueU(u) {
			fail(n, fmt.Sprintf("a frame does not extend over length field value + adjustment + end of the length field (consumes %v)", rest))
			return
		}
		if !s.lastAt.eq(s.base.plus(strip)) {
			fail(n, "a delivered frame does not start after the bytes to strip")
		}
		if !s.lastN.eq(fl.minus(strip)) {
			fail(n, "a delivered frame is not its length minus the stripped bytes long")
		}
		if !s.f.nonneg(lv("L0").minus(s.base).minus(fl)) {
			fail(n, "a frame is delivered before all its bytes have arrived")
		}
		if !s.f.nonneg(max.minus(fl)) {
			fail(n, "a frame longer than the maximum is delivered")
		}
		if !s.f.nonneg(fl.minus(strip)) {
			fail(n, "a frame shorter than the bytes to strip is not rejected")
		}
		if !s.f.nonneg(fl.minus(endOff)) {
			fail(n, "a frame shorter than its header is not rejected")
		}
		if !s.f.nonneg(u) {
			fail(n, "a negative length is not rejected")
		}
		c.okN(n)
		return
	}
	// no frame: was it too long?
	long := false
	var fl lin
	for _, x := range s.f.ge {
		// FL - max - 1 >= 0
		y := x.plus(max).plus(lc(1))
		if x[me+".LengthField.MaxFrameLength"] == -1 {
			long, fl = true, y
		}
	}
	if long {
		if u := fl.minus(adj).minus(endOff); len(u) != 1 || !isOpaqueU(u) {
			fail(n, "the maximum is not compared with the length of the whole frame")
			return
		}
		if rest.eq(fl) {
			if !s.f.nonneg(lv("L0").minus(s.base).minus(fl)) {
				fail(n, "an oversized frame removes more bytes than have arrived without remembering the rest")
			}
			c.okN(n)
			return
		}
		d := lv("B0")
		if s.disc != nil {
			d = s.disc
		}
		if s.discSet && rest.plus(d).eq(fl) {
			if s.flag != "T" && !(s.flag == "F" && s.f.zero(d)) {
				fail(n, "bytes still to discard are recorded but discarding is not switched on")
			}
			c.okN(n)
			return
		}
		fail(n, fmt.Sprintf("an oversized frame does not remove exactly its own bytes (removed %v, to discard %v)", rest, d))
		return
	}
	if !rest.zero() {
		fail(n, "an incomplete frame loses bytes")
		return
	}
	incomplete := false
	for _, x := range s.f.ge {
		// FL - (L0 - base) - 1 >= 0
		u := x.plus(lv("L0")).minus(s.base).plus(lc(1)).minus(adj).minus(endOff)
		if len(u) == 1 && isOpaqueU(u) {
			incomplete = true
		}
	}
	if !incomplete {
		fail(n, "a round gives up although the frame has arrived completely")
	}
	c.okN(n)
}

func isOpaqueU(u lin) bool {
	for k, v := range u {
		return v == 1 && k != "" && !strings.HasPrefix(k, "P0@0.") && k != "L0" && k != "B0"
	}
	return false
}

func decoderWidth(c *C, T *types.Named) {
	f := c.P.methodOf(T, "Decode")
	if f == nil {
		return
	}
	g := c.graph(f, nil)
	me := g.psym(0)
	lenSym := me + ".LengthField.LengthFieldLength"
	ordSym := me + ".LengthField.Order"
	bad := map[string]bool{}
	fail := func(n *Node, why string) {
		if !bad[why] {
			bad[why] = true
			c.failN(why, n, why)
		}
	}
	covered := map[string]bool{}
	r := &Rule{Init: marks{}}
	r.Edge = func(g *Graph, n *Node, a Auto, at []Atom) Auto {
		m := a.(marks)
		for _, x := range at {
			if x.Op == token.EQL && x.SX == lenSym && strings.HasPrefix(x.SY, "#") {
				m.x = x.SY[1:] + "|"
			}
			if (x.Op == token.EQL || x.Op == token.NEQ) && (x.SX == ordSym || x.SY == ordSym) {
				o := x.SY
				if x.SY == ordSym {
					o = x.SX
				}
				little := strings.Contains(o, "LittleEndian")
				if x.Op == token.NEQ {
					little = !little
				}
				i := strings.Index(m.x, "|")
				if i >= 0 {
					m.x = m.x[:i+1] + map[bool]string{true: "LE", false: "BE"}[little]
				}
			}
		}
		return m
	}
	r.Node = func(g *Graph, n *Node, a Auto) Auto {
		m := a.(marks)
		if g.callName(n) == "bytes.NewBuffer" {
			if v, ok := g.arg(n, 0); ok && g.isField(v, T, "in") {
				m.x = ""
			}
		}
		if m.x == "" {
			return m
		}
		k, ord, _ := strings.Cut(m.x, "|")
		if g.callName(n) == "encoding/binary.Read" {
			v, _ := g.arg(n, 2)
			t := g.trace(v)
			if mi, ok := t.v.(*ssa.MakeInterface); ok {
				pt, ok := mi.X.Type().Underlying().(*types.Pointer)
				if !ok {
					return m
				}
				sz := fmt.Sprint(types.SizesFor("gc", "amd64").Sizeof(pt.Elem()))
				if sz != k {
					fail(n, fmt.Sprintf("a length field of %s bytes is read as %s bytes", k, sz))
				} else {
					b, _ := pt.Elem().Underlying().(*types.Basic)
					if b != nil && b.Info()&types.IsUnsigned == 0 && sz != "8" {
						fail(n, "a length field is read as a signed number of the same width")
					}
					covered[k] = true
					c.okN(n)
				}
				if g.argSym(n, 1) != ordSym {
					fail(n, "the length field is not read in the configured byte order")
				}
			}
		}
		// hand-made composition
		if b, ok := n.instr.(*ssa.BinOp); ok && n.kind == KInstr && (b.Op == token.OR || b.Op == token.ADD) {
			if parts, ok := g.byteParts(VC{b, n.ctx}); ok && topOr(b) {
				if fmt.Sprint(len(parts)) != k {
					fail(n, fmt.Sprintf("a length field of %s bytes is composed of %d bytes", k, len(parts)))
				} else {
					w := len(parts)
					for i, sh := range parts {
						want := int64(8 * i)
						if ord != "LE" {
							want = int64(8 * (w - 1 - i))
						}
						if sh != want {
							fail(n, fmt.Sprintf("the bytes of a %s byte length field are composed in the wrong order", k))
						}
					}
					covered[k] = true
					c.okN(n)
				}
			}
		}
		return m
	}
	c.run(g, g.entry, r)
	for _, k := range []string{"1", "2", "3", "4", "8"} {
		if !covered[k] {
			c.failF("width"+k, f, "no reading of a "+k+" byte length field found")
		}
	}
}

// topOr: the composition is not an operand of a larger one.
func topOr(b *ssa.BinOp) bool {
	for _, r := range *b.Referrers() {
		if x, ok := r.(*ssa.BinOp); ok && (x.Op == token.OR || x.Op == token.ADD) {
			return false
		}
	}
	return true
}

// byteParts recognises arr[0]<<a | arr[1]<<b | ...: index -> shift.
func (g *Graph) byteParts(v VC) (map[int]int64, bool) {
	out := map[int]int64{}
	var walk func(v VC, sh int64) bool
	walk = func(v VC, sh int64) bool {
		v = g.norm(v)
		switch x := v.v.(type) {
		case *ssa.Convert:
			return walk(VC{x.X, v.c}, sh)
		case *ssa.BinOp:
			switch x.Op {
			case token.OR, token.ADD:
				return walk(VC{x.X, v.c}, sh) && walk(VC{x.Y, v.c}, sh)
			case token.SHL:
				k, ok := x.Y.(*ssa.Const)
				if !ok {
					return false
				}
				return walk(VC{x.X, v.c}, sh+k.Int64())
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if ia, ok := x.X.(*ssa.IndexAddr); ok {
					if k, ok := ia.Index.(*ssa.Const); ok {
						out[int(k.Int64())] = sh
						return true
					}
				}
			}
		}
		return false
	}
	if !walk(v, 0) || len(out) < 2 {
		return nil, false
	}
	return out, true
}

func decoderConfig(c *C, T *types.Named) {
	f := c.needFunc("zinterceptor", "NewFrameDecoder")
	if f == nil {
		return
	}
	g := c.graph(f, nil)
	L := c.needType("ziface", "LengthField")
	if L == nil {
		return
	}
	p := g.psym(0)
	_ = p
	ls := L.Underlying().(*types.Struct)
	want := map[string]bool{}
	for i := 0; i < ls.NumFields(); i++ {
		want[ls.Field(i).Name()] = false
	}
	var end *Node
	whole := false
	for _, n := range g.nodes {
		st, ok := n.instr.(*ssa.Store)
		if !ok || n.kind != KInstr {
			continue
		}
		nm, fn, _, ok := g.fieldOf(VC{st.Addr, n.ctx})
		if !ok {
			continue
		}
		val := VC{st.Val, n.ctx}
		switch {
		case nm.Obj() == L.Obj():
			s := g.sym(val)
			if strings.HasSuffix(s, "."+fn) && g.isField(val, L, fn) {
				want[fn] = true
				c.okN(n)
			} else if fn == "Order" && strings.Contains(s, "BigEndian") {
				c.okN(n)
			} else if _, isphi := g.trace(val).v.(*ssa.Phi); isphi && fn == "Order" {
				want[fn] = true
				c.okN(n)
			} else {
				c.failN("copy "+fn, n, fmt.Sprintf("the decoder's %s is not taken from the configuration's %s", fn, fn))
			}
		case nm.Obj() == T.Obj() && fn == "LengthField":
			whole = true
		case nm.Obj() == T.Obj() && fn == "LengthFieldEndOffset":
			l := g.linEval(val, nil)
			ks := 0
			for k, v := range l {
				if (strings.HasSuffix(k, ".LengthFieldOffset") || strings.HasSuffix(k, ".LengthFieldLength")) && v == 1 {
					ks++
				} else {
					ks = -10
				}
			}
			if ks != 2 {
				c.failN("end", n, "the end of the length field is not its offset plus its length")
			} else {
				end = n
				c.okN(n)
			}
		}
	}
	for k, v := range want {
		if !v && !whole {
			c.failF("copy "+k, f, "the configuration's "+k+" does not reach the decoder")
		}
	}
	if end == nil {
		c.failF("end", f, "the end of the length field is not computed from offset and length")
	}
	// by-parameter constructor: same named fields
	if f := c.P.Func("zinterceptor", "NewFrameDecoderByParams"); f != nil {
		g := c.graph(f, nil)
		for _, n := range g.nodes {
			st, ok := n.instr.(*ssa.Store)
			if !ok || n.kind != KInstr || n.ctx != g.root {
				continue
			}
			nm, fn, _, ok := g.fieldOf(VC{st.Addr, n.ctx})
			if !ok || nm.Obj() != L.Obj() {
				continue
			}
			if p, ok := g.trace(VC{st.Val, n.ctx}).v.(*ssa.Parameter); ok {
				if !strings.EqualFold(p.Name(), fn) {
					c.failN("param "+fn, n, fmt.Sprintf("parameter %s ends up in %s", p.Name(), fn))
				} else {
					c.okN(n)
				}
			}
		}
	}
	// a decoder per connection
	for _, CT := range connTypes(c) {
		found := false
		for _, cf := range c.P.AllFuncs {
			if fnRel(cf) != "znet" {
				continue
			}
			for _, b := range cf.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if _, nm := structOf(fa.X.Type()); nm == nil || nm.Obj() != CT.Obj() || fieldName(fa.X.Type(), fa.Field) != "frameDecoder" {
						continue
					}
					v := st.Val
					if ci, ok := v.(*ssa.ChangeInterface); ok {
						v = ci.X
					}
					if call, ok := v.(*ssa.Call); ok && call.Parent() == cf {
						found = true
						c.ok(c.P.pos(st.Pos()))
					} else {
						c.fail("own decoder|"+CT.Obj().Name(), c.P.pos(st.Pos()), fnName(cf), "a connection uses a decoder that was not made for it: pending bytes of connections would mix")
					}
				}
			}
		}
		if !found {
			c.missing("a frame decoder made for " + CT.Obj().Name())
		}
	}
}

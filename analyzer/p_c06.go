package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// layout is where a protocol keeps the identifier, the length and the payload.
type layout struct {
	id, ln  wref
	data    lin
	hasID   bool
	hasLen  bool
	hasData bool
}

func init() {
	register("C06", func(c *C) {
		M := c.needType("zpack", "Message")
		if M == nil {
			return
		}
		c.Rule("pack", "On every successful path a packer writes exactly the message's identifier, the length of its payload and its payload, back to back from the start, identifier and length with their full width")
		packs := map[string]*layout{}
		for _, T := range c.P.implTypes("IDataPack") {
			if l := packLayout(c, T); l != nil {
				packs[T.Obj().Name()] = l
			}
		}
		c.atLeast(2, "packers")
		c.Rule("unpack", "The matching unpacker reads identifier and length from the very bytes the packer wrote them to, with the same width and byte order, and reports a header length equal to the bytes before the payload")
		for _, T := range c.P.implTypes("IDataPack") {
			if l := packs[T.Obj().Name()]; l != nil {
				unpackLayout(c, T, M, l)
			}
		}
		c.atLeast(2, "unpackers")
		c.Rule("decoder", "Each protocol's decoder takes identifier, length and payload of a frame from where the protocol's packer puts them, sets them on the message it passes on, and its length-field configuration describes the same layout and admits the longest frame it can describe")
		pairs := []struct{ dec, pack string }{{"TLVDecoder", "DataPack"}, {"LTV_Little_Decoder", "DataPackLtv"}}
		for _, pr := range pairs {
			T := c.needType("zdecoder", pr.dec)
			l := packs[pr.pack]
			if T == nil || l == nil {
				continue
			}
			cfg := lengthField(c, T)
			checkConfig(c, T, cfg, l.ln, l.data, lin{})
			decoderLayout(c, T, l, cfg)
		}
		if T := c.needType("zdecoder", "HtlvCrcDecoder"); T != nil {
			// head, function code, length (one byte each), body, two bytes of CRC
			cfg := lengthField(c, T)
			l := &layout{id: wref{lc(1), 1, ""}, ln: wref{lc(2), 1, ""}, data: lc(3), hasID: true, hasLen: true, hasData: true}
			checkConfig(c, T, cfg, l.ln, l.data, lc(2))
			decoderLayout(c, T, l, cfg)
		}
		c.atLeast(12, "layout facts of decoders")
		c.Rule("message", "The accessors of a message agree: what is set is what is read, a message made from an identifier and data carries that identifier, those data and their length")
		messageFields(c, M)
		c.atLeast(8, "message accessors")
		c.Rule("defaults", "A server and a client are created with a packer and a decoder of the same protocol, and the packer factory gives each protocol name its packer")
		defaultProtocol(c)
	})
	register("C07", func(c *C) {
		c.Rule("crc", "A checksummed frame is passed on as decoded only on paths that found both checksum bytes of the frame equal to those computed over every byte before them, and is dropped otherwise")
		crcRule(c)
		c.Rule("table", "The checksum walks every byte of its input from the first to the last, starting from 0xFF/0xFF, with the CRC-16/MODBUS tables")
		crcTable(c)
		c.Rule("bounds", "Whatever the length of a frame, a decoder takes out only bytes that are there: every access is covered by a length test on the way, or by the frame decoder's guarantee that a frame ends where its length field says; a frame shorter than the header is never passed on as decoded, and every other frame is")
		for _, n := range []string{"TLVDecoder", "LTV_Little_Decoder", "HtlvCrcDecoder"} {
			if T := c.needType("zdecoder", n); T != nil {
				boundsRule(c, T)
			}
		}
		c.atLeast(12, "byte accesses")
	})
}

// packLayout extracts what Pack writes.
func packLayout(c *C, T *types.Named) *layout {
	f := c.P.methodOf(T, "Pack")
	if f == nil {
		c.missing(T.Obj().Name() + ".Pack")
		return nil
	}
	g := c.graph(f, nil)
	m := g.psym(1)
	var out *layout
	name := T.Obj().Name()
	seg := func(v VC, w int, ord string) wseg {
		p := g.msgPart(v, m)
		if p == "data" {
			w, ord = 0, ""
		}
		return wseg{what: p, width: w, order: ord}
	}
	app := func(s wireState, b string, x wseg) wireState {
		s = s.clone()
		e, ok := segEnd(s.w[b])
		if !ok {
			s.bad = true
			return s
		}
		x.off = e
		s.w[b] = append(s.w[b], x)
		return s
	}
	var segsOf func(v VC, s wireState, d int) ([]wseg, bool)
	segsOf = func(v VC, s wireState, d int) ([]wseg, bool) {
		if d > 20 {
			return nil, false
		}
		v = g.trace(v)
		switch x := v.v.(type) {
		case *ssa.MakeSlice:
			if l := s.w[g.sym(v)]; len(l) > 0 {
				return l, true
			}
			if k, ok := x.Len.(*ssa.Const); ok && k.Int64() == 0 {
				return nil, true
			}
			return nil, false
		case *ssa.Alloc:
			return s.w[g.sym(v)], true
		case *ssa.Const:
			return nil, x.Value == nil
		case *ssa.Slice:
			if x.Low == nil && x.High == nil {
				if zeroCap(g, v) {
					return nil, true
				}
				return segsOf(VC{x.X, v.c}, s, d+1)
			}
			if k, ok := x.High.(*ssa.Const); ok && k.Int64() == 0 {
				return nil, true
			}
			return nil, false
		case *ssa.Call:
			nm := calleeName(x)
			if nm == "(*bytes.Buffer).Bytes" {
				return s.w[g.sym(VC{x.Call.Args[0], v.c})], true
			}
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 {
				l, ok := segsOf(VC{x.Call.Args[0], v.c}, s, d+1)
				if !ok {
					return nil, false
				}
				e, ok := segEnd(l)
				if !ok {
					return nil, false
				}
				p := g.msgPart(VC{x.Call.Args[1], v.c}, m)
				return append(append([]wseg{}, l...), wseg{what: p, off: e}), p == "data"
			}
			for _, w := range []int{16, 32, 64} {
				if strings.HasSuffix(nm, fmt.Sprintf(").AppendUint%d", w)) {
					i := 1
					ord := orderOf(nm)
					if x.Call.IsInvoke() {
						i, ord = 0, orderOf(g.sym(VC{x.Call.Value, v.c}))
					}
					l, ok := segsOf(VC{x.Call.Args[i], v.c}, s, d+1)
					if !ok {
						return nil, false
					}
					e, ok := segEnd(l)
					if !ok {
						return nil, false
					}
					y := seg(VC{x.Call.Args[i+1], v.c}, w/8, ord)
					y.off = e
					return append(append([]wseg{}, l...), y), true
				}
			}
		}
		return nil, false
	}
	for _, n := range g.nodes {
		if isCallNode(n) && g.callName(n) == "encoding/binary.Write" {
			v, _ := g.arg(n, 2)
			d := g.trace(v)
			if _, ok := d.v.(*ssa.MakeInterface); !ok && g.msgPart(d, m) == "other" {
				c.undecided(n.posn(c.P) + " " + name + ".Pack")
				return nil
			}
		}
	}
	reported := map[string]bool{}
	fail := func(n *Node, why string) {
		if !reported[why] {
			reported[why] = true
			c.failN(name+".Pack|"+why, n, why)
		}
	}
	r := &Rule{Init: wireState{}}
	r.NodeE = func(g *Graph, n *Node, a Auto, e env) Auto {
		s := a.(wireState)
		if ret, ok := n.instr.(*ssa.Return); ok && n.ctx == g.root && n.kind == KInstr && len(ret.Results) == 2 {
			if es := g.symAt(VC{ret.Results[1], n.ctx}, e); es != "nil" {
				return s
			}
			l, ok := segsOf(VC{ret.Results[0], n.ctx}, s, 0)
			if !ok || s.bad {
				c.undecided(n.posn(c.P) + " " + name + ".Pack")
				return s
			}
			lay := &layout{}
			for i, x := range l {
				switch x.what {
				case "id":
					if lay.hasID {
						fail(n, "the identifier is written twice")
					}
					lay.id, lay.hasID = wref{x.off, x.width, x.order}, true
					if x.width < 4 {
						fail(n, "the identifier is written with fewer bytes than it has")
					}
				case "len":
					if lay.hasLen {
						fail(n, "the length is written twice")
					}
					lay.ln, lay.hasLen = wref{x.off, x.width, x.order}, true
					if x.width < 4 {
						fail(n, "the length is written with fewer bytes than it has")
					}
				case "data":
					lay.data, lay.hasData = x.off, true
					if i != len(l)-1 {
						fail(n, "something follows the payload")
					}
				default:
					fail(n, "writes something that is neither the message's identifier, length nor payload")
				}
			}
			if !lay.hasID || !lay.hasLen || !lay.hasData {
				if len(l) == 0 {
					fail(n, "a packed message is empty")
				} else {
					fail(n, "a packed message lacks its identifier, length or payload")
				}
				return s
			}
			// back to back
			if d, isc := lay.data.isConst(); !isc || d != int64(lay.id.width+lay.ln.width) {
				fail(n, "the payload does not follow identifier and length directly")
			}
			if out == nil {
				out = lay
			} else if !out.id.eq(lay.id) || !out.ln.eq(lay.ln) || !out.data.eq(lay.data) {
				fail(n, "the layout differs between paths")
			}
			c.okN(n)
			return s
		}
		if !isCallNode(n) {
			return s
		}
		nm := g.callName(n)
		switch {
		case nm == "encoding/binary.Write":
			w, _ := g.arg(n, 0)
			o, _ := g.arg(n, 1)
			v, _ := g.arg(n, 2)
			b := g.sym(w)
			d := g.trace(v)
			width := 0
			if mi, ok := d.v.(*ssa.MakeInterface); ok {
				width = fixedWidth(mi.X.Type())
				d = VC{mi.X, d.c}
			}
			return app(s, b, seg(d, width, orderOf(g.sym(o))))
		case nm == "(*bytes.Buffer).Write":
			v, _ := g.arg(n, 1)
			return app(s, g.argSym(n, 0), seg(v, 0, ""))
		case strings.Contains(nm, "(*bytes.Buffer).Write") || nm == "(*bytes.Buffer).Reset" || nm == "(*bytes.Buffer).Truncate":
			s = s.clone()
			s.bad = true
			return s
		case strings.Contains(nm, ".PutUint"):
			w := 0
			fmt.Sscanf(nm[strings.Index(nm, ".PutUint")+8:], "%d", &w)
			dst, _ := g.arg(n, 1)
			v, _ := g.arg(n, 2)
			ord := orderOf(nm)
			if ord == "" {
				ord = orderOf(g.argSym(n, 0))
			}
			dst = g.trace(dst)
			off := lin{}
			for {
				sl, ok := dst.v.(*ssa.Slice)
				if !ok {
					break
				}
				if sl.Low != nil {
					off = off.plus(g.linEval(VC{sl.Low, dst.c}, nil))
				}
				dst = g.trace(VC{sl.X, dst.c})
			}
			s = s.clone()
			x := seg(v, w/8, ord)
			x.off = off
			s.w[g.sym(dst)] = append(s.w[g.sym(dst)], x)
			return s
		case nm == "builtin:copy":
			dst, _ := g.arg(n, 0)
			v, _ := g.arg(n, 1)
			dst = g.trace(dst)
			off := lin{}
			for {
				sl, ok := dst.v.(*ssa.Slice)
				if !ok {
					break
				}
				if sl.Low != nil {
					off = off.plus(g.linEval(VC{sl.Low, dst.c}, globalLeaf(g)))
				}
				dst = g.trace(VC{sl.X, dst.c})
			}
			s = s.clone()
			x := seg(v, 0, "")
			x.off = off
			s.w[g.sym(dst)] = append(s.w[g.sym(dst)], x)
			return s
		}
		return s
	}
	c.run(g, g.entry, r)
	return out
}

// globalConst: the value of a package variable that is only set by its
// declaration.
func (P *Program) globalConst(gl *ssa.Global) (int64, bool) {
	val, n := int64(0), 0
	for _, sp := range P.ByPkg {
		for _, m := range sp.Members {
			f, ok := m.(*ssa.Function)
			if !ok {
				continue
			}
			_ = f
		}
	}
	count := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(gl) {
					continue
				}
				n++
				if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && f.Name() == "init" {
					if i := constant.ToInt(k.Value); i.Kind() == constant.Int {
						val, _ = constant.Int64Val(i)
						continue
					}
				}
				n += 10
			}
		}
	}
	for _, f := range P.AllFuncs {
		count(f)
	}
	return val, n == 1
}

func globalLeaf(g *Graph) func(v VC) (lin, bool) {
	return func(v VC) (lin, bool) {
		if u, ok := v.v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if gl, ok := u.X.(*ssa.Global); ok {
				if k, ok := g.P.globalConst(gl); ok {
					return lc(k), true
				}
			}
		}
		return nil, false
	}
}

func unpackLayout(c *C, T, M *types.Named, l *layout) {
	name := T.Obj().Name()
	f := c.P.methodOf(T, "Unpack")
	if f == nil {
		c.missing(name + ".Unpack")
		return
	}
	g := c.graph(f, nil)
	data := g.psym(1)
	got := map[string]bool{}
	judge := func(n *Node, field string, w wref) {
		want, what := l.id, "identifier"
		if field == "DataLen" {
			want, what = l.ln, "length"
		}
		got[field] = true
		if !w.eq(want) {
			c.failN(name+".Unpack|"+field, n, fmt.Sprintf("the %s is read as %v, but packed as %v", what, w, want))
		} else {
			c.okN(n)
		}
	}
	r := &Rule{Init: wireState{}}
	r.Node = func(g *Graph, n *Node, a Auto) Auto {
		s := a.(wireState)
		if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr {
			nm, fn, _, ok := g.fieldOf(VC{st.Addr, n.ctx})
			if ok && nm.Obj() == M.Obj() && (fn == "ID" || fn == "DataLen") {
				if w, ok := g.wireRead(VC{st.Val, n.ctx}, data); ok {
					judge(n, fn, w)
				} else if w, ok := s.rd[g.sym(VC{st.Val, n.ctx})]; ok {
					judge(n, fn, w)
				}
			}
		}
		if isCallNode(n) && g.callName(n) == "encoding/binary.Read" {
			rd, _ := g.arg(n, 0)
			o, _ := g.arg(n, 1)
			d, _ := g.arg(n, 2)
			rv := g.deref(rd)
			call, ok := rv.v.(*ssa.Call)
			if !ok || len(call.Call.Args) == 0 || !hasAny(calleeName(call), "bytes.NewBuffer", "bytes.NewReader") {
				return s
			}
			lo, _, ok := g.byteSlice(VC{call.Call.Args[0], rv.c}, data, nil)
			if !ok {
				return s
			}
			ad := g.trace(d)
			if mi, ok := ad.v.(*ssa.MakeInterface); ok {
				ad = g.trace(VC{mi.X, ad.c})
			}
			pt, ok := ad.v.Type().Underlying().(*types.Pointer)
			if !ok {
				return s
			}
			w := fixedWidth(pt.Elem())
			k := g.sym(rv)
			ref := wref{lo.plus(lc(s.pos[k])), w, orderOf(g.sym(o))}
			s = s.clone()
			s.pos[k] += int64(w)
			if s.pos[k] > 64 {
				return nil
			}
			if nm, fn, _, ok := g.fieldOf(ad); ok && nm.Obj() == M.Obj() && (fn == "ID" || fn == "DataLen") {
				judge(n, fn, ref)
			}
			s.rd["cell("+g.sym(ad)+")"] = ref
		}
		return s
	}
	c.run(g, g.entry, r)
	for _, fn := range []string{"ID", "DataLen"} {
		if !got[fn] {
			c.undecided(name + ".Unpack " + fn)
			any := false
			for _, n := range g.nodes {
				if st, ok := n.instr.(*ssa.Store); ok {
					if g.isField(VC{st.Addr, n.ctx}, M, fn) {
						any = true
					}
				}
				if isCallNode(n) && hasAny(g.callName(n), "SetMsgID", "SetDataLen", "binary.Read", "Init") {
					any = true
				}
			}
			if !any {
				c.failF(name+".Unpack|none|"+fn, f, "does not read the message's "+fn)
			}
		}
	}
	// header length
	if h := c.P.methodOf(T, "GetHeadLen"); h != nil {
		gh := c.graph(h, nil)
		for _, rn := range gh.root.rets {
			ret := rn.instr.(*ssa.Return)
			k, isc := gh.linEval(VC{ret.Results[0], gh.root}, globalLeaf(gh)).isConst()
			want, _ := l.data.isConst()
			if isc && k != want {
				c.failN(name+".GetHeadLen", rn, fmt.Sprintf("reports a header of %d bytes, but the payload starts at %d", k, want))
			} else {
				c.okN(rn)
			}
		}
	}
}

type lfCfg struct {
	f    *ssa.Function
	vals map[string]int64
	ord  string
	ok   bool
}

// lengthField extracts the constants of a decoder's length-field configuration.
func lengthField(c *C, T *types.Named) *lfCfg {
	f := c.P.methodOf(T, "GetLengthField")
	if f == nil {
		c.missing(T.Obj().Name() + ".GetLengthField")
		return nil
	}
	g := c.graph(f, nil)
	out := &lfCfg{f: f, vals: map[string]int64{}, ord: "big", ok: true}
	for _, n := range g.nodes {
		st, ok := n.instr.(*ssa.Store)
		if !ok || n.kind != KInstr {
			continue
		}
		nm, fn, _, ok := g.fieldOf(VC{st.Addr, n.ctx})
		if !ok || nm.Obj().Name() != "LengthField" {
			continue
		}
		if fn == "Order" {
			if o := orderOf(g.sym(VC{st.Val, n.ctx})); o != "" {
				out.ord = o
			}
			continue
		}
		k, isc := g.linEval(VC{st.Val, n.ctx}, globalLeaf(g)).isConst()
		if !isc {
			out.ok = false
		}
		out.vals[fn] = k
	}
	return out
}

func checkConfig(c *C, T *types.Named, cfg *lfCfg, ln wref, data, trailer lin) {
	if cfg == nil || !cfg.ok {
		return
	}
	name := T.Obj().Name()
	check := func(cond bool, what, msg string) {
		if cond {
			c.ok(c.P.pos(cfg.f.Pos()) + " " + name + " " + what)
		} else {
			c.failF(name+".GetLengthField|"+what, cfg.f, msg)
		}
	}
	off, _ := ln.off.isConst()
	d, _ := data.isConst()
	t, _ := trailer.isConst()
	v := cfg.vals
	check(v["LengthFieldOffset"] == off, "offset", fmt.Sprintf("the length field is declared at offset %d but is at %d", v["LengthFieldOffset"], off))
	check(v["LengthFieldLength"] == int64(ln.width), "width", fmt.Sprintf("the length field is declared %d bytes long but has %d", v["LengthFieldLength"], ln.width))
	check(off+int64(ln.width)+v["LengthAdjustment"] == d+t, "adjustment", "the declared adjustment does not make a frame end where its payload (and trailer) ends")
	check(ln.width == 1 || cfg.ord == ln.order, "order", "the length field is declared "+cfg.ord+" endian but written "+ln.order+" endian")
	max := int64(1)<<(8*uint(ln.width)) - 1
	check(v["MaxFrameLength"] >= d+t+max || ln.width > 4, "max", "frames whose length the field can express are refused as too long")
}

// decoderLayout: the decoder's Intercept takes the fields from where the layout
// has them.
func decoderLayout(c *C, T *types.Named, l *layout, cfg *lfCfg) {
	name := T.Obj().Name()
	f := c.P.methodOf(T, "Intercept")
	if f == nil {
		c.missing(name + ".Intercept")
		return
	}
	g := c.graph(f, nil)
	data, msg := frameSym(g)
	if data == "" {
		c.failF(name+"|data", f, "does not look at the data of the message")
		return
	}
	strip := lin{}
	if cfg != nil {
		strip = lc(cfg.vals["InitialBytesToStrip"])
	}
	leaf := g.wireLeaf(data)
	shift := func(w wref) wref { w.off = w.off.plus(strip); return w }
	set := map[string]bool{}
	for _, n := range g.nodes {
		nm := ""
		var v VC
		if isCallNode(n) {
			full := g.callName(n)
			for _, x := range []string{"SetMsgID", "SetDataLen", "SetData"} {
				if strings.HasSuffix(full, "."+x) {
					nm = x
				}
			}
			if nm != "" {
				v, _ = g.arg(n, 1)
				if g.argSym(n, 0) != msg {
					nm = ""
				}
			}
		}
		switch nm {
		case "SetMsgID":
			set[nm] = true
			if w, ok := g.wireRead(v, data); ok {
				if shift(w).eq(l.id) {
					c.okN(n)
				} else {
					c.failN(name+"|id", n, fmt.Sprintf("the message identifier is taken from %v, but is %v", shift(w), l.id))
				}
			} else if k, isc := g.linEval(v, leaf).isConst(); isc {
				c.failN(name+"|id const", n, fmt.Sprintf("the message identifier is set to %d", k))
			}
		case "SetDataLen":
			set[nm] = true
			if w, ok := g.wireRead(v, data); ok {
				if shift(w).eq(l.ln) {
					c.okN(n)
				} else {
					c.failN(name+"|len", n, fmt.Sprintf("the data length is taken from %v, but is %v", shift(w), l.ln))
				}
			}
		case "SetData":
			set[nm] = true
			lo, hi, ok := g.copiedFrom(v, data, leaf)
			if !ok {
				c.undecided(n.posn(c.P) + " " + name + " payload")
				continue
			}
			if !lo.plus(strip).eq(l.data) {
				c.failN(name+"|payload start", n, fmt.Sprintf("the payload is taken from offset %v, but starts at %v", lo.plus(strip), l.data))
			} else {
				c.okN(n)
			}
			raw := l.ln
			raw.off = raw.off.minus(strip)
			end := lo.plus(lv("wire:" + raw.String()))
			if !hi.eq(end) && !hi.eq(lv("N")) {
				c.failN(name+"|payload end", n, fmt.Sprintf("the payload ends at %v instead of its start plus the length field", hi))
			} else {
				c.okN(n)
			}
		}
	}
	if !set["SetMsgID"] {
		c.failF(name+"|no id", f, "the message's identifier is never set from the frame")
	}
	// decoded values of structs handed on (fields named after the protocol parts)
	for _, n := range g.nodes {
		st, ok := n.instr.(*ssa.Store)
		if !ok || n.kind != KInstr {
			continue
		}
		nm, fn, _, ok := g.fieldOf(VC{st.Addr, n.ctx})
		if !ok || nm.Obj() != T.Obj() {
			continue
		}
		v := VC{st.Val, n.ctx}
		want := map[string]wref{"Tag": l.id, "Funcode": l.id, "Length": l.ln, "Head": {lc(0), 1, ""}}
		if wn, ok := want[fn]; ok {
			if w, ok := g.wireRead(v, data); ok {
				if shift(w).eq(wn) {
					c.okN(n)
				} else {
					c.failN(name+"|field "+fn, n, fmt.Sprintf("%s is taken from %v, but is %v", fn, shift(w), wn))
				}
			}
		}
		if fn == "Body" || fn == "Crc" {
			lo, hi, ok := g.copiedFrom(v, data, leaf)
			if !ok {
				continue
			}
			end := lv("N").minus(lc(2))
			byLen := l.data.plus(lv("wire:" + l.ln.String()))
			okk := lo.eq(l.data) && (hi.eq(end) || hi.eq(byLen))
			if fn == "Crc" {
				okk = (lo.eq(end) || lo.eq(byLen)) && (hi.eq(lv("N")) || hi.eq(lo.plus(lc(2))))
			}
			if okk {
				c.okN(n)
			} else {
				c.failN(name+"|field "+fn, n, fmt.Sprintf("%s is taken from bytes %v to %v of the frame", fn, lo, hi))
			}
		}
	}
}

// frameSym names the frame a decoder works on (the data of the chain's message)
// and the message.
func frameSym(g *Graph) (data, msg string) {
	for _, n := range g.nodes {
		if isCallNode(n) && strings.HasSuffix(g.callName(n), ".GetData") && n.kind == KInstr {
			v, _ := g.arg(n, 0)
			if call, ok := n.instr.(*ssa.Call); ok {
				return g.sym(VC{call, n.ctx}), g.sym(v)
			}
		}
	}
	return "", ""
}

func messageFields(c *C, M *types.Named) {
	pairs := map[string]string{"GetDataLen": "SetDataLen", "GetMsgID": "SetMsgID", "GetData": "SetData"}
	role := map[string]string{} // field -> part
	for _, get := range []string{"GetMsgID", "GetDataLen", "GetData"} {
		gf, sf := c.P.methodOf(M, get), c.P.methodOf(M, pairs[get])
		if gf == nil || sf == nil {
			c.missing("Message." + get + "/" + pairs[get])
			continue
		}
		gg := c.graph(gf, nil)
		field := ""
		for _, rn := range gg.root.rets {
			v := VC{rn.instr.(*ssa.Return).Results[0], gg.root}
			nm, fn, b, ok := gg.fieldOf(v)
			if !ok || nm.Obj() != M.Obj() || gg.sym(b) != gg.psym(0) {
				c.failN("get|"+get, rn, get+" does not return a field of the message")
				continue
			}
			field = fn
		}
		if field == "" {
			continue
		}
		if o := role[field]; o != "" {
			c.failF("shared|"+get, gf, get+" and "+o+" read the same field")
			continue
		}
		role[field] = get
		c.ok("Message." + get)
		gs := c.graph(sf, nil)
		c.track(gs, gs.entry, &track{key: pairs[get],
			ev: func(g *Graph, n *Node) []int {
				if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr && g.isField(VC{st.Addr, n.ctx}, M, field) && g.sym(VC{st.Val, n.ctx}) == g.psym(1) {
					return []int{0}
				}
				return nil
			},
			end: func(g *Graph, n *Node, m marks) string {
				if !m.has(0) {
					return "does not set what " + get + " reads"
				}
				return ""
			}})
	}
	inv := map[string]string{}
	for f, get := range role {
		inv[get] = f
	}
	cons := func(f *ssa.Function, id, ln, data int) {
		if f == nil {
			return
		}
		g := c.graph(f, nil)
		want := map[string]func(v VC) bool{}
		if id >= 0 {
			want[inv["GetMsgID"]] = func(v VC) bool { return g.sym(g.deref(v)) == g.psym(id) }
		}
		if ln >= 0 {
			want[inv["GetDataLen"]] = func(v VC) bool { return g.sym(g.deref(v)) == g.psym(ln) }
		} else {
			want[inv["GetDataLen"]] = func(v VC) bool {
				s := g.sym(g.deref(v))
				return s == "len("+g.psym(data)+")" || strings.HasPrefix(s, "len(") && strings.HasSuffix(s, "."+inv["GetData"]+")")
			}
		}
		want[inv["GetData"]] = func(v VC) bool { return g.sym(g.deref(v)) == g.psym(data) }
		for fld, pred := range want {
			seen := false
			for _, n := range g.nodes {
				st, ok := n.instr.(*ssa.Store)
				if !ok || n.kind != KInstr || !g.isField(VC{st.Addr, n.ctx}, M, fld) {
					continue
				}
				seen = true
				if pred(VC{st.Val, n.ctx}) {
					c.okN(n)
				} else {
					c.failN(fnName(f)+"|"+fld, n, fld+" of a new message is not what was given")
				}
			}
			if !seen {
				c.failF(fnName(f)+"|"+fld, f, fld+" of a new message is not set")
			}
		}
	}
	cons(c.P.Func("zpack", "NewMsgPackage"), 0, -1, 1)
	cons(c.P.Func("zpack", "NewMessage"), -1, 0, 1)
	cons(c.P.Func("zpack", "NewMessageByMsgId"), 0, 1, 2)
	cons(c.P.methodOf(M, "Init"), 1, -1, 2)
}

func defaultProtocol(c *C) {
	// factory
	if f := c.P.Method("zpack", "pack_factory", "NewPack"); f != nil {
		g := c.graph(f, nil)
		r := &Rule{Init: marks{}}
		r.Edge = func(g *Graph, n *Node, a Auto, at []Atom) Auto {
			m := a.(marks)
			for _, x := range at {
				if x.SX == g.psym(1) && x.Op == token.EQL {
					m.x = x.SY
				}
			}
			return m
		}
		r.NodeE = func(g *Graph, n *Node, a Auto, e env) Auto {
			m := a.(marks)
			if isCallNode(n) || n.instr != nil {
				if mi, ok := n.instr.(*ssa.MakeInterface); ok {
					if p, ok := mi.X.Type().(*types.Pointer); ok {
						if nt, ok := p.Elem().(*types.Named); ok && nt.Obj().Pkg().Name() == "zpack" {
							old := hasAny(strings.ToLower(m.x), "old", "ltv")
							ltv := strings.Contains(nt.Obj().Name(), "Ltv")
							if old != ltv {
								c.failN("factory|"+m.x, n, "the factory gives "+nt.Obj().Name()+" for the name "+m.x)
							} else {
								c.okN(n)
							}
						}
					}
				}
			}
			return m
		}
		c.run(g, g.entry, r)
	}
	// constructors
	for _, f := range c.P.AllFuncs {
		if fnRel(f) != "znet" || f.Parent() != nil {
			continue
		}
		pack, dec := "", ""
		var at *ssa.Function
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				sc := call.Call.StaticCallee()
				if sc == nil {
					continue
				}
				switch {
				case sc.Name() == "NewPack" && len(call.Call.Args) == 2:
					if k, ok := call.Call.Args[1].(*ssa.Const); ok && k.Value != nil {
						pack = "tlv"
						if hasAny(strings.ToLower(k.Value.ExactString()), "old", "ltv") {
							pack = "ltv"
						}
						at = f
					}
				case sc.Name() == "NewDataPack":
					pack, at = "tlv", f
				case sc.Name() == "NewDataPackLtv":
					pack, at = "ltv", f
				case sc.Name() == "NewTLVDecoder":
					dec, at = "tlv", f
				case sc.Name() == "NewLTV_Little_Decoder":
					dec, at = "ltv", f
				case sc.Name() == "NewHTLVCRCDecoder":
					dec, at = "htlv", f
				}
			}
		}
		if at == nil {
			continue
		}
		if pack != "" && dec != "" && pack != dec {
			c.failF("defaults|"+fnName(f), f, "is created with a packer for "+pack+" and a decoder for "+dec)
		} else {
			c.ok(fnName(f))
		}
	}
}

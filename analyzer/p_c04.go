package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// byteOrigin is where the memory behind a byte slice comes from.
type byteOrigin struct {
	kind string // fresh, shared, elem (element of a container), unknown
	v    VC     // the allocation or source
	why  string
}

func (g *Graph) byteOrigins(v VC, seen map[VC]bool) []byteOrigin {
	v = g.trace(v)
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.MakeSlice:
		return []byteOrigin{{"fresh", v, ""}}
	case *ssa.Alloc:
		return []byteOrigin{{"fresh", v, ""}}
	case *ssa.Slice:
		return g.byteOrigins(VC{x.X, v.c}, seen)
	case *ssa.Convert:
		return []byteOrigin{{"fresh", v, ""}} // string/[]byte conversions copy
	case *ssa.Phi:
		var out []byteOrigin
		for _, e := range x.Edges {
			out = append(out, g.byteOrigins(VC{e, v.c}, seen)...)
		}
		return out
	case *ssa.UnOp:
		if _, ok := x.X.(*ssa.IndexAddr); ok {
			ia := x.X.(*ssa.IndexAddr)
			return []byteOrigin{{"elem", g.trace(VC{ia.X, v.c}), ""}}
		}
		a := g.trace(VC{x.X, v.c})
		if _, ok := a.v.(*ssa.Alloc); ok {
			var out []byteOrigin
			for _, s := range g.stores[a] {
				out = append(out, g.byteOrigins(s, seen)...)
			}
			return out
		}
		if _, f, _, ok := g.fieldOf(v); ok {
			return []byteOrigin{{"shared", v, "field " + f}}
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if nm := calleeName(call); strings.HasSuffix(nm, "websocket.Conn).ReadMessage") || nm == "io.ReadAll" {
				return []byteOrigin{{"fresh", VC{call, v.c}, ""}}
			}
			return g.callOrigins(VC{call, v.c}, x.Index, seen)
		}
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			if r, ok := nx.Iter.(*ssa.Range); ok {
				return []byteOrigin{{"elem", g.trace(VC{r.X, v.c}), ""}}
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			first := g.trace(VC{x.Call.Args[0], v.c})
			if zeroCap(g, first) {
				return []byteOrigin{{"fresh", v, ""}}
			}
			return g.byteOrigins(first, seen)
		}
		switch calleeName(x) {
		case "bytes.Clone", "slices.Clone", "io.ReadAll", "bytes.Join", "bytes.Repeat":
			return []byteOrigin{{"fresh", v, ""}}
		}
		return g.callOrigins(v, 0, seen)
	case *ssa.Parameter:
		return []byteOrigin{{"shared", v, "parameter " + x.Name()}}
	}
	return []byteOrigin{{"unknown", v, v.v.String()}}
}

func (g *Graph) callOrigins(v VC, idx int, seen map[VC]bool) []byteOrigin {
	call := v.v.(*ssa.Call)
	ks := g.calls[callKey{v.c, call}]
	if len(ks) == 0 {
		return []byteOrigin{{"unknown", v, calleeName(call)}}
	}
	var out []byteOrigin
	for _, k := range ks {
		for _, r := range k.rets {
			ret := r.instr.(*ssa.Return)
			if idx < len(ret.Results) {
				out = append(out, g.byteOrigins(VC{ret.Results[idx], k}, seen)...)
			}
		}
	}
	return out
}

// zeroCap: appending to it always allocates.
func zeroCap(g *Graph, v VC) bool {
	switch x := v.v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Slice:
		// []byte{} is a slice of a zero-length array
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return a.Len() == 0
			}
		}
	case *ssa.MakeSlice:
		return true // a new array either way
	}
	return false
}

func init() {
	register("C04", func(c *C) {
		M := c.needType("zpack", "Message")
		if M == nil {
			return
		}
		c.Rule("reader", "The bytes a reader puts into a message are memory allocated for that message: a frame from the frame decoder, a copy, or a buffer made for that read; never a slice of a buffer that is read into again")
		for _, T := range connTypes(c) {
			f := c.P.methodOf(T, "StartReader")
			if f == nil {
				c.missing(T.Obj().Name() + ".StartReader")
				continue
			}
			g := c.graph(f, nil)
			n0 := c.oblig[c.rule]
			for _, n := range g.nodes {
				st, ok := n.instr.(*ssa.Store)
				if !ok || n.kind != KInstr || st.Val.Type().String() != "[]byte" {
					continue
				}
				nm, fn, _, ok := g.fieldOf(VC{st.Addr, n.ctx})
				if !ok || nm.Obj() != M.Obj() {
					continue
				}
				for _, o := range g.byteOrigins(VC{st.Val, n.ctx}, map[VC]bool{}) {
					key := T.Obj().Name() + ".Message." + fn
					switch o.kind {
					case "fresh":
						freshPer(c, g, n, o.v, key, "two messages share the memory of one buffer, and the next read overwrites it")
					case "elem":
						if decoded(g, o.v) {
							c.okN(n)
						} else {
							c.failN(key+"|elem", n, "message bytes come from a container that is not the frame decoder's result: "+g.sym(o.v))
						}
					case "shared":
						c.failN(key+"|shared", n, "message bytes are shared with "+o.why)
					default:
						c.stats["unknown_origins"]++
						c.failN(key+"|unknown", n, "cannot tell that message bytes are owned by the message: "+o.why)
					}
				}
			}
			if c.oblig[c.rule] == n0 {
				c.failF(T.Obj().Name()+"|none", f, "the reader builds no message")
			}
		}
		c.Rule("decoder", "Every frame the decoder hands out is memory allocated for that frame, and bytes the decoder keeps for later are a copy of what it was given")
		D := c.needType("zinterceptor", "FrameDecoder")
		f := c.P.methodOf(D, "Decode")
		if f == nil {
			c.missing("FrameDecoder.Decode")
			return
		}
		g := c.graph(f, nil)
		inF := c.needField(D, "in", "[]byte")
		for _, n := range g.nodes {
			if n.kind != KInstr || n.instr == nil {
				continue
			}
			// elements stored into the varargs array of append([][]byte, x...)
			if st, ok := n.instr.(*ssa.Store); ok && st.Val.Type().String() == "[]byte" {
				if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
					if p, ok := ia.X.Type().Underlying().(*types.Pointer); ok {
						if ar, ok := p.Elem().Underlying().(*types.Array); !ok || ar.Elem().String() != "[]byte" {
							continue
						}
					} else if ia.X.Type().String() != "[][]byte" {
						continue
					}
					for _, o := range g.byteOrigins(VC{st.Val, n.ctx}, map[VC]bool{}) {
						switch o.kind {
						case "fresh":
							freshPer(c, g, n, o.v, "Decode.frame", "two frames share the memory of one buffer")
						default:
							c.failN("Decode.frame|"+o.kind, n, fmt.Sprintf("a frame is not memory of its own: %s %s", o.why, g.sym(o.v)))
						}
					}
				}
				if g.isField(VC{st.Addr, n.ctx}, D, inF) {
					for _, o := range g.byteOrigins(VC{st.Val, n.ctx}, map[VC]bool{}) {
						if o.kind == "shared" && strings.HasPrefix(o.why, "parameter") {
							c.failN("Decode.keep", n, "the decoder keeps the caller's buffer, which the next read overwrites")
						} else {
							c.okN(n)
						}
					}
				}
			}
		}
		c.atLeast(2, "frames handed out and bytes kept by the decoder")
		c.Rule("noscribble", "Nothing the library does to a message after it was received writes into its bytes")
		scribble(c)
	})
}

// decoded: the value is the result of an IFrameDecoder's Decode.
func decoded(g *Graph, v VC) bool {
	t := v
	if call, ok := t.v.(*ssa.Call); ok {
		return call.Call.IsInvoke() && call.Call.Method.Name() == "Decode" || strings.HasSuffix(calleeName(call), ".Decode")
	}
	for x := v.c; x != nil; x = x.parent {
		if x.fn.Name() == "Decode" {
			return true
		}
	}
	return false
}

// freshPer: between two executions of the use, the allocation is executed
// again.
func freshPer(c *C, g *Graph, use *Node, alloc VC, key, why string) {
	bad := false
	r := &Rule{Init: marks{}}
	r.Node = func(g *Graph, n *Node, a Auto) Auto {
		m := a.(marks)
		if v, ok := n.instr.(ssa.Value); ok && n.kind == KInstr && (VC{v, n.ctx}) == alloc {
			m = m.clear(0)
		}
		if n == use {
			if m.has(0) && !bad {
				bad = true
				c.failN(key, n, why)
			}
			m = m.set(0)
			m.twice = 0
		}
		return m
	}
	start := g.entry
	if s := spawnOf(use); s != nil {
		start = s.entry
	}
	c.run(g, start, r)
	if !bad {
		c.okN(use)
	}
}

// scribble: no store through GetData()/GetRawData()/message data in decoders,
// dispatch and pack code.
func scribble(c *C) {
	for _, f := range c.P.Roots("zdecoder", "zpack", "znet", "zinterceptor") {
		g := c.graph(f, nil)
		for _, n := range g.nodes {
			if n.instr == nil || n.kind != KInstr {
				continue
			}
			var dst VC
			switch x := n.instr.(type) {
			case *ssa.Store:
				ia, ok := x.Addr.(*ssa.IndexAddr)
				if !ok || !isByteSlice(ia.X.Type()) {
					continue
				}
				dst = VC{ia.X, n.ctx}
			case *ssa.Call:
				nm := g.callName(n)
				switch {
				case nm == "builtin:copy":
					dst = VC{x.Call.Args[0], n.ctx}
				case nm == "builtin:append":
					// appending to a sub-slice of message bytes writes behind it
					first := g.trace(VC{x.Call.Args[0], n.ctx})
					if sl, ok := first.v.(*ssa.Slice); ok && isByteSlice(sl.Type()) {
						dst = first
					} else {
						continue
					}
				case strings.HasPrefix(nm, "(encoding/binary.") && strings.Contains(nm, "Put"):
					dst = VC{x.Call.Args[1], n.ctx}
				default:
					continue
				}
			default:
				continue
			}
			if !isByteSlice(dst.v.Type()) {
				continue
			}
			src := rootSlice(g, dst)
			if msgBytes(g, src) {
				c.failN("write|"+fnName(n.fn()), n, "writes into the bytes of a received message")
			} else {
				c.okN(n)
			}
		}
	}
	c.ok("sweep of decoders, packers and dispatch")
}

func isByteSlice(t types.Type) bool { return t.Underlying().String() == "[]byte" }

func rootSlice(g *Graph, v VC) VC {
	for i := 0; i < 20; i++ {
		v = g.trace(v)
		if s, ok := v.v.(*ssa.Slice); ok {
			v = VC{s.X, v.c}
			continue
		}
		break
	}
	return v
}

// msgBytes: the value is the data of a message.
func msgBytes(g *Graph, v VC) bool {
	if call, ok := v.v.(*ssa.Call); ok && call.Call.IsInvoke() {
		n := call.Call.Method.Name()
		return n == "GetData" || n == "GetRawData"
	}
	nm, f, _, ok := g.fieldOf(v)
	return ok && nm.Obj().Name() == "Message" && (f == "Data" || f == "rawData")
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// deref follows a value through fields of local structs that are set exactly
// once, on top of trace.
func (g *Graph) deref(v VC) VC {
	for i := 0; i < 12; i++ {
		v = g.trace(v)
		switch x := v.v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			ad := g.trace(VC{x.X, v.c})
			fa, ok := ad.v.(*ssa.FieldAddr)
			if !ok {
				return v
			}
			if w, ok := g.onlyStore(VC{fa.X, ad.c}, fa.Field); ok {
				v = w
				continue
			}
			return v
		case *ssa.Field:
			// a field of a loaded local struct
			b := g.trace(VC{x.X, v.c})
			if u, ok := b.v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if w, ok := g.onlyStore(VC{u.X, b.c}, x.Field); ok {
					v = w
					continue
				}
			}
			return v
		case *ssa.Convert:
			if isNumeric(x.Type()) && isNumeric(x.X.Type()) {
				v = VC{x.X, v.c}
				continue
			}
			return v
		case *ssa.MakeInterface:
			v = VC{x.X, v.c}
			continue
		}
		return v
	}
	return v
}

// onlyStore is the value of field i of a local struct that is stored once.
func (g *Graph) onlyStore(base VC, field int) (VC, bool) {
	b := g.localBase(base)
	if b.v == nil {
		return VC{}, false
	}
	var out VC
	n := 0
	for _, m := range g.nodes {
		st, ok := m.instr.(*ssa.Store)
		if !ok || m.kind != KInstr {
			continue
		}
		fa, ok := g.trace(VC{st.Addr, m.ctx}).v.(*ssa.FieldAddr)
		if !ok || fa.Field != field {
			continue
		}
		t := g.trace(VC{st.Addr, m.ctx})
		if g.localBase(VC{fa.X, t.c}) == b {
			out = VC{st.Val, m.ctx}
			n++
		}
	}
	return out, n == 1
}

// localBase: the local struct a pointer denotes, through copies of the pointer
// and a result that is nil on the other paths.
func (g *Graph) localBase(v VC) VC {
	v = g.trace(v)
	switch x := v.v.(type) {
	case *ssa.Alloc:
		return v
	case *ssa.Phi:
		var out VC
		for _, e := range x.Edges {
			w := g.trace(VC{e, v.c})
			if k, ok := w.v.(*ssa.Const); ok && k.Value == nil {
				continue
			}
			b := g.localBase(w)
			if b.v == nil || out.v != nil && out != b {
				return VC{}
			}
			out = b
		}
		return out
	case *ssa.Call, *ssa.Extract:
		idx := 0
		call, ok := x.(*ssa.Call)
		if !ok {
			ex := x.(*ssa.Extract)
			idx = ex.Index
			if call, ok = ex.Tuple.(*ssa.Call); !ok {
				return VC{}
			}
		}
		var out VC
		for _, k := range g.calls[callKey{v.c, call}] {
			for _, r := range k.rets {
				ret := r.instr.(*ssa.Return)
				if idx >= len(ret.Results) {
					return VC{}
				}
				w := g.trace(VC{ret.Results[idx], k})
				if kk, ok := w.v.(*ssa.Const); ok && kk.Value == nil {
					continue
				}
				b := g.localBase(w)
				if b.v == nil || out.v != nil && out != b {
					return VC{}
				}
				out = b
			}
		}
		return out
	}
	return VC{}
}

// wref is a run of bytes of a frame read as a number.
type wref struct {
	off   lin
	width int
	order string // big, little, "" for one byte
}

func (w wref) String() string { return fmt.Sprintf("%d bytes at %v %s", w.width, w.off, w.order) }
func (w wref) eq(o wref) bool {
	return w.width == o.width && w.off.eq(o.off) && (w.order == o.order || w.width == 1)
}

func orderOf(s string) string {
	s = strings.ToLower(s)
	switch {
	case strings.Contains(s, "bigendian"):
		return "big"
	case strings.Contains(s, "littleendian"):
		return "little"
	}
	return ""
}

// byteSlice resolves a slice to base[lo:hi] of the frame named data.
func (g *Graph) byteSlice(v VC, data string, leaf func(VC) (lin, bool)) (lo, hi lin, ok bool) {
	v = g.deref(v)
	if g.sym(v) == data {
		return lin{}, lv("N"), true
	}
	if s, isS := v.v.(*ssa.Slice); isS {
		l, h, ok := g.byteSlice(VC{s.X, v.c}, data, leaf)
		if !ok {
			return nil, nil, false
		}
		a, b := l, h
		if s.Low != nil {
			a = l.plus(g.linEval(VC{s.Low, v.c}, leaf))
		}
		if s.High != nil {
			b = l.plus(g.linEval(VC{s.High, v.c}, leaf))
		}
		return a, b, true
	}
	return nil, nil, false
}

// wireRead resolves a value to bytes of the frame named data.
func (g *Graph) wireRead(v VC, data string) (wref, bool) {
	v = g.deref(v)
	leaf := g.wireLeaf(data)
	switch x := v.v.(type) {
	case *ssa.Call:
		nm := calleeName(x)
		for _, w := range []int{16, 32, 64} {
			suf := fmt.Sprintf(").Uint%d", w)
			if strings.HasPrefix(nm, "(encoding/binary.") && strings.HasSuffix(nm, suf) {
				i := 0
				ord := orderOf(nm)
				if x.Call.IsInvoke() {
					ord = orderOf(g.sym(VC{x.Call.Value, v.c}))
				} else {
					i = 1
				}
				if ord == "" {
					return wref{}, false
				}
				lo, _, ok := g.byteSlice(VC{x.Call.Args[i], v.c}, data, leaf)
				return wref{lo, w / 8, ord}, ok
			}
		}
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			lo, _, ok := g.byteSlice(VC{ia.X, v.c}, data, leaf)
			if !ok {
				return wref{}, false
			}
			return wref{lo.plus(g.linEval(VC{ia.Index, v.c}, leaf)), 1, ""}, true
		}
	case *ssa.BinOp:
		if x.Op == token.OR || x.Op == token.ADD {
			// bytes put together by shifting
			sh := map[int64]lin{}
			if !g.shiftedBytes(v, 0, data, sh) || len(sh) < 2 {
				return wref{}, false
			}
			n := int64(len(sh))
			lo0, ok := sh[0]
			hi0, ok2 := sh[8*(n-1)]
			if !ok || !ok2 {
				return wref{}, false
			}
			base, ord, dir := lo0, "little", int64(1)
			if d, isc := hi0.minus(lo0).isConst(); !isc {
				return wref{}, false
			} else if d < 0 {
				base, ord, dir = hi0, "big", -1
			}
			for i := int64(0); i < n; i++ {
				o, ok := sh[8*i]
				if !ok || !o.eq(lo0.plus(lc(dir*i))) {
					return wref{}, false
				}
			}
			return wref{base, int(n), ord}, true
		}
	}
	return wref{}, false
}

func (g *Graph) shiftedBytes(v VC, sh int64, data string, out map[int64]lin) bool {
	v = g.deref(v)
	if b, ok := v.v.(*ssa.BinOp); ok {
		switch b.Op {
		case token.OR, token.ADD:
			return g.shiftedBytes(VC{b.X, v.c}, sh, data, out) && g.shiftedBytes(VC{b.Y, v.c}, sh, data, out)
		case token.SHL:
			if k, ok := b.Y.(*ssa.Const); ok {
				return g.shiftedBytes(VC{b.X, v.c}, sh+k.Int64(), data, out)
			}
		}
		return false
	}
	w, ok := g.wireRead(v, data)
	if !ok || w.width != 1 {
		return false
	}
	out[sh] = w.off
	return true
}

// wireLeaf names numbers read from the frame, and its length N.
func (g *Graph) wireLeaf(data string) func(VC) (lin, bool) {
	var busy int
	var leaf func(v VC) (lin, bool)
	leaf = func(v VC) (lin, bool) {
		if busy > 3 {
			return nil, false
		}
		busy++
		defer func() { busy-- }()
		if call, ok := v.v.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				lo, hi, ok := g.byteSlice(VC{call.Call.Args[0], v.c}, data, leaf)
				if ok {
					return hi.minus(lo), true
				}
			}
		}
		if w, ok := g.wireRead(v, data); ok {
			return lv("wire:" + w.String()), true
		}
		d := g.deref(v)
		if d != v {
			return g.linEval(d, leaf), true
		}
		return nil, false
	}
	return leaf
}

// copiedFrom: the bytes of the frame a value holds (a slice of the frame or a
// copy of one).
func (g *Graph) copiedFrom(v VC, data string, leaf func(VC) (lin, bool)) (lo, hi lin, ok bool) {
	v = g.deref(v)
	if lo, hi, ok = g.byteSlice(v, data, leaf); ok {
		return
	}
	switch x := v.v.(type) {
	case *ssa.Call:
		if b, isb := x.Call.Value.(*ssa.Builtin); isb && b.Name() == "append" && len(x.Call.Args) == 2 && zeroCap(g, g.trace(VC{x.Call.Args[0], v.c})) {
			return g.copiedFrom(VC{x.Call.Args[1], v.c}, data, leaf)
		}
		switch calleeName(x) {
		case "bytes.Clone", "slices.Clone":
			return g.copiedFrom(VC{x.Call.Args[0], v.c}, data, leaf)
		}
	case *ssa.MakeSlice:
		size := g.linEval(VC{x.Len, v.c}, leaf)
		for _, n := range g.nodes {
			if !isCallNode(n) {
				continue
			}
			var dst, src VC
			switch g.callName(n) {
			case "builtin:copy":
				dst, _ = g.arg(n, 0)
				src, _ = g.arg(n, 1)
			case "encoding/binary.Read":
				dst, _ = g.arg(n, 2)
				r, _ := g.arg(n, 0)
				rv := g.deref(r)
				call, ok := rv.v.(*ssa.Call)
				if !ok || len(call.Call.Args) == 0 || !hasAny(calleeName(call), "bytes.NewBuffer", "bytes.NewReader") {
					continue
				}
				src = VC{call.Call.Args[0], rv.c}
			case "io.ReadFull":
				dst, _ = g.arg(n, 1)
				r, _ := g.arg(n, 0)
				rv := g.deref(r)
				call, ok := rv.v.(*ssa.Call)
				if !ok || len(call.Call.Args) == 0 || !hasAny(calleeName(call), "bytes.NewBuffer", "bytes.NewReader") {
					continue
				}
				src = VC{call.Call.Args[0], rv.c}
			default:
				continue
			}
			if g.deref(dst) != v {
				continue
			}
			l, h, ok := g.byteSlice(src, data, leaf)
			if !ok {
				return nil, nil, false
			}
			// copying stops at the shorter of the two
			if d, isc := l.plus(size).minus(h).isConst(); isc && d <= 0 {
				return l, l.plus(size), true
			}
			return l, h, true
		}
	}
	return nil, nil, false
}

// ---------------------------------------------------------------- writing

type wseg struct {
	what  string // id, len, data, other
	off   lin
	width int // 0: the payload
	order string
}

type wireState struct {
	w   map[string][]wseg // buffers and what was put into them
	rd  map[string]wref   // addresses filled by binary.Read
	pos map[string]int64  // positions of readers
	bad bool
}

func (s wireState) Key() string {
	var ks []string
	for k, v := range s.w {
		ks = append(ks, "w"+k+fmt.Sprint(v))
	}
	for k, v := range s.rd {
		ks = append(ks, "r"+k+v.String())
	}
	for k, v := range s.pos {
		ks = append(ks, fmt.Sprintf("p%s%d", k, v))
	}
	sortStrings(ks)
	return fmt.Sprint(s.bad, ks)
}

func (s wireState) clone() wireState {
	n := wireState{map[string][]wseg{}, map[string]wref{}, map[string]int64{}, s.bad}
	for k, v := range s.w {
		n.w[k] = append([]wseg{}, v...)
	}
	for k, v := range s.rd {
		n.rd[k] = v
	}
	for k, v := range s.pos {
		n.pos[k] = v
	}
	return n
}

func fixedWidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8, types.Int8, types.Bool:
		return 1
	case types.Uint16, types.Int16:
		return 2
	case types.Uint32, types.Int32:
		return 4
	case types.Uint64, types.Int64:
		return 8
	}
	return 0
}

// msgPart says which part of the message m a value is.
func (g *Graph) msgPart(v VC, m string) string {
	v = g.deref(v)
	switch s := g.sym(v); s {
	case m + ".GetMsgID()", m + ".ID":
		return "id"
	case m + ".GetDataLen()", m + ".DataLen", "len(" + m + ".GetData())", "len(" + m + ".Data)":
		return "len"
	case m + ".GetData()", m + ".Data":
		return "data"
	}
	return "other"
}

func segEnd(l []wseg) (lin, bool) {
	if len(l) == 0 {
		return lin{}, true
	}
	e := l[len(l)-1]
	if e.width == 0 {
		return nil, false
	}
	return e.off.plus(lc(int64(e.width))), true
}

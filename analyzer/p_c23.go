package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", func(c *C) {
		W := c.needType("zutils", "Writer")
		if W == nil {
			return
		}
		t := &logT{W: W}
		pick := func(nm, ty string) string {
			if f := fieldsByType(W, func(x types.Type) bool { return x.String() == ty }); len(f) == 1 {
				return f[0]
			}
			return c.needField(W, nm, ty)
		}
		t.file, t.bw = pick("file", "*os.File"), pick("bw", "*bufio.Writer")
		if t.file == "" || t.bw == "" {
			return
		}
		c.Rule("guarded", "Every access to a field of the writer that changes after its construction holds the writer's mutex, and so does every use of its file and buffer")
		t.guarded(c)
		c.atLeast(20, "accesses to the writer's state")
		c.Rule("write", "A write hands all the given bytes to the buffer of the open file, once, or returns an error; the buffer's error is returned")
		t.write(c)
		c.atLeast(1, "writes")
		c.Rule("flush", "A file is closed, given up or replaced only after its buffer was flushed; it is not kept once closed; a new file gets a buffer of its own, is appended to and never truncated")
		t.files(c)
		c.atLeast(2, "closed files")
		c.Rule("remove", "A log file is removed only when archiving that file succeeded, or when its name carries a time older than the configured age")
		t.removes(c)
		c.atLeast(2, "removals")
		c.Rule("archive", "Archiving reports success only when every step, the closing of the archive included, reported none; every regular file's content is copied")
		t.archive(c)
		c.atLeast(3, "archiving steps")
		c.Rule("names", "Rotated files of different moments get different names, and ages are read from the names as they are written")
		t.names(c)
		c.atLeast(2, "name layouts")
	})
}

type logT struct {
	W        *types.Named
	file, bw string
}

func (t *logT) guarded(c *C) {
	w := lockWorldOf(c)
	written := map[string]bool{}
	for _, a := range w.lp.accesses {
		if a.T.Obj() == t.W.Obj() && a.write && !a.fresh {
			written[a.field] = true
		}
	}
	st := t.W.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i).Name(); written[f] {
			c.guarded(w.lp, t.W, f, nil)
		}
	}
	// uses of the file and the buffer
	lp := &lockPass{c: c, orders: map[[2]string]string{}, lockSites: map[token.Pos]bool{}}
	seen := map[token.Pos]bool{}
	lp.onNode = func(g *Graph, n *Node, h held) {
		if _, isgo := n.instr.(*ssa.Go); isgo && n.kind == KInstr {
			for _, a := range n.instr.(ssa.CallInstruction).Common().Args {
				if nm, f, _, ok := g.fieldOf(VC{a, n.ctx}); ok && nm.Obj() == t.W.Obj() && (f == t.file || f == t.bw) {
					c.failN("go|"+fnName(n.fn()), n, "the writer's file or buffer is used by a goroutine without the mutex")
				}
			}
		}
		if !isCallNode(n) || len(n.callees) > 0 {
			return
		}
		for _, a := range n.instr.(ssa.CallInstruction).Common().Args {
			v := g.trace(VC{a, n.ctx})
			nm, f, b, ok := g.fieldOf(v)
			if !ok || nm.Obj() != t.W.Obj() || f != t.file && f != t.bw || g.isFreshAt(n, b) {
				continue
			}
			has := false
			for _, l := range h.m {
				if l.mode == 'W' && strings.HasPrefix(l.base, g.sym(b)) {
					has = true
				}
			}
			if has {
				if !seen[n.instr.Pos()] {
					seen[n.instr.Pos()] = true
					c.okN(n)
				}
			} else if !seen[n.instr.Pos()+1<<30] {
				seen[n.instr.Pos()+1<<30] = true
				c.failN("use|"+fnName(n.fn()), n, "the writer's file or buffer is used without its mutex")
			}
		}
	}
	for _, f := range c.P.Roots("zutils") {
		lp.graph(c.graph(f, nil))
	}
}

// bufCall: the node calls a method of the writer's buffer / file.
func (t *logT) methodOn(g *Graph, n *Node, field string) string {
	if !isCallNode(n) || len(n.callees) > 0 {
		return ""
	}
	cc := n.instr.(ssa.CallInstruction).Common()
	sc := cc.StaticCallee()
	if sc == nil || sc.Signature.Recv() == nil || len(cc.Args) == 0 {
		return ""
	}
	if g.isField(VC{cc.Args[0], n.ctx}, t.W, field) {
		return sc.Name()
	}
	// the value just stored there
	want := "*os.File"
	if field == t.bw {
		want = "*bufio.Writer"
	}
	if cc.Args[0].Type().String() == want {
		v := g.trace(VC{cc.Args[0], n.ctx})
		for _, m := range g.nodes {
			if st, ok := m.instr.(*ssa.Store); ok && m.kind == KInstr && g.isFieldAddr(VC{st.Addr, m.ctx}, t.W, field) && g.trace(VC{st.Val, m.ctx}) == v {
				return sc.Name()
			}
		}
	}
	return ""
}

func (g *Graph) isFieldAddr(a VC, T *types.Named, f string) bool {
	nm, fl, _, ok := g.fieldOf(a)
	return ok && nm.Obj() == T.Obj() && fl == f
}

type logSt struct {
	file    byte // 0 unknown, 'o' open, 'n' nil
	val     string
	closed  bool
	flushed bool
	own     bool // the buffer was made for the file stored
	bwArg   string
	stored  bool
	wrote   int
	werr    bool // the error of the write is known to be nil
	leak    string
}

func (s logSt) Key() string { return fmt.Sprintf("%+v", s) }

func (t *logT) openCall(g *Graph, v VC) *ssa.Call {
	ex, ok := g.trace(v).v.(*ssa.Extract)
	if !ok {
		return nil
	}
	call, ok := ex.Tuple.(*ssa.Call)
	if !ok {
		return nil
	}
	switch calleeName(call) {
	case "os.OpenFile", "os.Create", "os.Open":
		return call
	}
	return nil
}

// walk runs the file protocol over the paths of g.
func (t *logT) walk(c *C, g *Graph, start *Node, node func(n *Node, s logSt, e env) (logSt, bool), end func(n *Node, s logSt, w func() []string)) {
	r := &Rule{Init: logSt{own: true}}
	rep := map[string]bool{}
	fail := func(n *Node, k, why string) {
		if !rep[k+n.posn(c.P)] {
			rep[k+n.posn(c.P)] = true
			c.failN(k+"|"+fnName(n.fn()), n, why)
		}
	}
	r.NodeE = func(g *Graph, n *Node, a Auto, e env) Auto {
		s := a.(logSt)
		if node != nil {
			var ok bool
			if s, ok = node(n, s, e); !ok {
				return nil
			}
		}
		if l, ok := g.lockOp(n); ok && l.op == "Lock" && !s.stored && !s.closed {
			s = logSt{own: true, wrote: s.wrote}
			return s
		}
		switch m := t.methodOn(g, n, t.bw); m {
		case "Flush":
			s.flushed = true
		case "Write", "WriteString", "WriteByte", "WriteRune", "ReadFrom":
			s.flushed = false
		case "Reset":
			if x, ok := g.arg(n, 1); ok {
				s.own, s.bwArg = s.stored && g.sym(g.trace(x)) == s.val || g.isField(x, t.W, t.file), g.sym(g.trace(x))
			}
		}
		switch t.methodOn(g, n, t.file) {
		case "Close":
			switch {
			case !s.flushed && s.file != 'n':
				fail(n, "close", "the file is closed although its buffer was not flushed: what is in it is lost")
				return nil
			default:
				c.okN(n)
			}
			s.closed = true
		case "Write", "WriteString", "WriteAt":
			if !s.flushed {
				fail(n, "around", "bytes are written to the file past the buffer: they come before what is still in it")
				return nil
			}
		case "Truncate":
			fail(n, "truncate", "the log file is truncated")
		}
		st, ok := n.instr.(*ssa.Store)
		if !ok || n.kind != KInstr {
			return s
		}
		if nm, _, b, ok := g.fieldOf(VC{st.Addr, n.ctx}); !ok || nm.Obj() != t.W.Obj() || g.isFresh(b) {
			return s
		}
		v := VC{st.Val, n.ctx}
		switch {
		case g.isFieldAddr(VC{st.Addr, n.ctx}, t.W, t.file):
			if !s.flushed && s.file != 'n' {
				fail(n, "drop", "the file is given up although its buffer was not flushed: what is in it is lost")
				return nil
			}
			c.okN(n)
			if g.symAt(v, e) == "nil" {
				s.file, s.closed, s.stored, s.val = 'n', false, false, ""
				s.flushed = true
				return s
			}
			if call := t.openCall(g, v); call != nil {
				if why := badOpen(c, call); why != "" {
					fail(n, "open", why)
				}
				s.file, s.closed, s.stored = 'o', false, true
				if a, ok := g.eval(g.errOf(call, v.c), e); ok && a.k == 'N' {
					s.file, s.stored = 'n', false
				}
				s.val = g.sym(g.trace(v))
				s.own = s.bwArg != "" && s.bwArg == s.val
				return s
			}
			c.undecided(n.posn(c.P) + " file of unknown origin")
			s.file, s.closed, s.stored, s.val, s.own = 'o', false, true, g.sym(g.trace(v)), true
		case g.isFieldAddr(VC{st.Addr, n.ctx}, t.W, t.bw):
			if !s.flushed && s.file != 'n' && !s.stored {
				fail(n, "dropbuf", "the buffer is replaced although it was not flushed: what is in it is lost")
				return nil
			}
			c.okN(n)
			call, ok := g.trace(v).v.(*ssa.Call)
			if !ok || !strings.HasPrefix(calleeName(call), "bufio.NewWriter") {
				if g.symAt(v, e) != "nil" {
					c.undecided(n.posn(c.P) + " buffer of unknown origin")
					s.own = true
				}
				return s
			}
			x := g.trace(VC{call.Call.Args[0], g.trace(v).c})
			if mi, ok := x.v.(*ssa.MakeInterface); ok {
				x = g.trace(VC{mi.X, x.c})
			}
			s.bwArg = g.sym(x)
			s.own = s.stored && s.bwArg == s.val || g.isField(x, t.W, t.file)
		}
		return s
	}
	r.Edge = func(g *Graph, n *Node, a Auto, at []Atom) Auto {
		s := a.(logSt)
		for _, x := range at {
			v, isnil, ok := x.nilness()
			if !ok {
				continue
			}
			switch {
			case g.isField(v, t.W, t.file):
				if s.stored || s.closed {
					break
				}
				if isnil {
					if s.file == 'o' {
						return nil
					}
					s.file, s.flushed = 'n', true
				} else {
					if s.file == 'n' {
						return nil
					}
					s.file = 'o'
				}
			case g.isField(v, t.W, t.bw):
				if isnil {
					s.flushed = true
				}
			default:
				tv := g.trace(v)
				ex, ok := tv.v.(*ssa.Extract)
				if !ok || !isError(ex.Type()) {
					break
				}
				call, ok := ex.Tuple.(*ssa.Call)
				if !ok {
					break
				}
				if s.stored && strings.HasPrefix(s.val, strings.TrimSuffix(g.sym(tv), "1")) && !isnil && strings.HasPrefix(calleeName(call), "os.Open") {
					s.file, s.stored = 'n', false
				}
				if isnil && s.wrote > 0 && strings.HasSuffix(calleeName(call), "bufio.Writer).Write") {
					s.werr = true
				}
			}
		}
		return s
	}
	r.End = func(g *Graph, n *Node, a Auto, w func() []string) {
		s := a.(logSt)
		if !normalEnd(n) {
			return
		}
		switch {
		case s.closed:
			c.fail("kept|"+fnName(g.root.fn), n.posn(c.P), fnName(g.root.fn), "a closed file stays the writer's file: nothing is written to it from then on", w()...)
		case s.stored && !s.own:
			c.fail("oldbuf|"+fnName(g.root.fn), n.posn(c.P), fnName(g.root.fn), "the new file gets no buffer: what is written goes to the file before", w()...)
		}
		if end != nil {
			end(n, s, w)
		}
	}
	c.run(g, start, r)
}

// errOf: the error result of a call.
func (g *Graph) errOf(call *ssa.Call, c *Ctx) VC {
	for _, u := range *call.Referrers() {
		if ex, ok := u.(*ssa.Extract); ok && isError(ex.Type()) {
			return VC{ex, c}
		}
	}
	return VC{call, c}
}

func badOpen(c *C, call *ssa.Call) string {
	switch calleeName(call) {
	case "os.Create":
		return "the log file is truncated when it is opened: what it held is lost"
	case "os.Open":
		return "the log file is opened for reading only"
	}
	if k, ok := constInt(call.Call.Args[1]); ok {
		if k&int64(os.O_TRUNC) != 0 {
			return "the log file is truncated when it is opened: what it held is lost"
		}
		if k&int64(os.O_APPEND) == 0 {
			return "the log file is not opened for appending: what it held is written over"
		}
		if k&int64(os.O_CREATE) == 0 {
			return "a log file that is not there is not created"
		}
		if k&int64(os.O_RDWR|os.O_WRONLY) == 0 {
			return "the log file is opened for reading only"
		}
	}
	return ""
}

func (t *logT) write(c *C) {
	f := c.needMethod("zutils", "Writer", "Write")
	if f == nil {
		return
	}
	g := c.graph(f, nil)
	p := g.psym(1)
	bad := map[string]bool{}
	fail := func(n *Node, k, why string) {
		if !bad[k] {
			bad[k] = true
			c.failN(k+"|Write", n, why)
		}
	}
	t.walk(c.quietSub(), g, g.entry, func(n *Node, s logSt, e env) (logSt, bool) {
		if m := t.methodOn(g, n, t.bw); m == "Write" || m == "WriteString" || m == "WriteByte" || m == "ReadFrom" {
			switch {
			case s.file != 'o' || s.closed:
				fail(n, "noopen", "bytes are given to the buffer although the file may be closed (after closing, or after a failed rotation)")
				return s, false
			case s.stored && !s.own:
				fail(n, "oldbuf", "bytes are given to the buffer of the file before")
				return s, false
			case m != "Write" && m != "WriteString":
				c.undecided(n.posn(c.P) + " written by " + m)
			case s.wrote > 0 && !inLoopNode(n):
				fail(n, "twice", "the bytes are written twice")
				return s, false
			}
			x, _ := g.arg(n, 1)
			if sy := g.symAt(x, e); sy != p {
				w := g.trace(x)
				if cv, ok := w.v.(*ssa.Convert); ok {
					w = g.trace(VC{cv.X, w.c})
				}
				switch w.v.(type) {
				case *ssa.Slice:
					if inLoopNode(n) {
						c.undecided(n.posn(c.P) + " written in pieces")
					} else {
						fail(n, "part", "only a part of the bytes is written")
						return s, false
					}
				default:
					if g.sym(w) != p {
						fail(n, "other", "the bytes written are not the ones given")
						return s, false
					}
				}
			}
			if s.wrote == 0 {
				s.wrote = 1
			}
			c.okN(n)
			return s, true
		}
		ret, ok := n.instr.(*ssa.Return)
		if !ok || n.kind != KInstr || n.ctx != g.root || len(ret.Results) != 2 {
			return s, true
		}
		er := g.symAt(VC{ret.Results[1], n.ctx}, e)
		v, _ := g.resolve1(VC{ret.Results[1], n.ctx}, e)
		v = g.trace(v)
		switch {
		case s.wrote == 0 && er == "nil":
			fail(n, "lost", "a write can succeed without the bytes having been written")
		case s.wrote > 0 && er == "nil" && !s.werr:
			fail(n, "error", "the error of writing to the buffer is not returned")
		default:
			c.okN(n)
		}
		return s, true
	}, nil)
}

// quietSub: a scratch context for a walk whose own rule is reported elsewhere.
func (c *C) quietSub() *C {
	sub := *c
	sub.viols, sub.stats = nil, map[string]int{}
	sub.oblig, sub.skips = map[string]int{}, map[string]int{}
	return &sub
}

func (t *logT) files(c *C) {
	for _, f := range c.P.Roots("zutils") {
		g := c.graph(f, nil)
		touches := func(start *Node) bool {
			for n := range g.reach(start) {
				if t.methodOn(g, n, t.file) != "" || t.methodOn(g, n, t.bw) != "" {
					return true
				}
				if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr {
					if g.isFieldAddr(VC{st.Addr, n.ctx}, t.W, t.file) || g.isFieldAddr(VC{st.Addr, n.ctx}, t.W, t.bw) {
						return true
					}
				}
			}
			return false
		}
		starts := []*Node{g.entry}
		for _, s := range g.spawns {
			starts = append(starts, s.entry)
		}
		for _, s := range starts {
			if touches(s) {
				t.walk(c, g, s, nil, nil)
			}
		}
	}
}

func (g *Graph) reach(start *Node) map[*Node]bool {
	seen := map[*Node]bool{start: true}
	work := []*Node{start}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		for i := range n.succ {
			if m := n.succ[i].to; !seen[m] {
				seen[m] = true
				work = append(work, m)
			}
		}
	}
	return seen
}

// removes checks every removal of a file.
func (t *logT) removes(c *C) {
	isRemove := func(g *Graph, n *Node) bool {
		if !isCallNode(n) || len(n.callees) > 0 {
			return false
		}
		sc := n.instr.(ssa.CallInstruction).Common().StaticCallee()
		return sc != nil && (sc.String() == "os.Remove" || sc.String() == "os.RemoveAll")
	}
	done := map[token.Pos]bool{}
	pol := func() *Policy {
		return &Policy{Inline: func(f *ssa.Function) bool { return f.Name() != "ZipToFile" }}
	}
	c.rootsReaching([]string{"zutils"}, pol, isRemove, func(g *Graph, hits []*Node) {
		starts := map[*Node]bool{}
		for _, h := range hits {
			if !done[h.instr.Pos()] {
				done[h.instr.Pos()] = true
				starts[spawnEntry(g, h)] = true
			}
		}
		for start := range starts {
			r := &Rule{Init: remSt{}}
			rep := map[string]bool{}
			r.NodeE = func(g *Graph, n *Node, a Auto, e env) Auto {
				s := a.(remSt)
				if !isRemove(g, n) {
					return s
				}
				v, _ := g.arg(n, 0)
				name := t.path(g, v, e, 0)
				switch {
				case s.zipped != "" && name == s.zipped:
					c.okN(n)
				case s.old && s.age:
					nm, ok := t.joinedName(g, v, e)
					if !ok || s.name.v == nil || g.derives(s.name, func(w VC) bool { return t.path(g, w, e, 0) == nm }) {
						c.okN(n)
						break
					}
					if !rep["which"] {
						rep["which"] = true
						c.failN("which|"+fnName(n.fn()), n, "the file removed is not the one whose age was looked at")
					}
				case s.old:
					if !rep["age"] {
						rep["age"] = true
						c.failN("age|"+fnName(n.fn()), n, "files are removed although no age is configured")
					}
				default:
					if !rep["remove"] {
						rep["remove"] = true
						c.failN("remove|"+fnName(n.fn()), n, "a log file can be removed although archiving it did not succeed and its age does not call for it")
					}
					return nil
				}
				return s
			}
			r.Edge = func(g *Graph, n *Node, a Auto, at []Atom) Auto {
				s := a.(remSt)
				for _, x := range at {
					if v, isnil, ok := x.nilness(); ok && isnil {
						w := g.norm(v)
						if call, ok := w.v.(*ssa.Call); ok && t.archives(g, call) {
							s.zipped = t.path(g, VC{call.Call.Args[1], w.c}, env{}, 0)
						} else if call, cx, ok := g.resultOf(v); ok && t.archives(g, call) {
							s.zipped = t.path(g, VC{call.Call.Args[1], cx}, env{}, 0)
						}
						if ex, ok := g.trace(v).v.(*ssa.Extract); ok {
							if call, ok := ex.Tuple.(*ssa.Call); ok && calleeName(call) == "time.Parse" {
								s.parsed = true
								s.name = VC{call.Call.Args[1], g.trace(v).c}
							}
						}
						continue
					}
					if x.Op == 0 {
						call, ok := g.norm(x.X).v.(*ssa.Call)
						if ok && x.Val {
							cx := g.norm(x.X).c
							switch calleeName(call) {
							case "(time.Time).Before":
								if g.isLimit(VC{call.Call.Args[1], cx}) && g.isParsed(VC{call.Call.Args[0], cx}) && s.parsed {
									s.old = true
								}
							case "(time.Time).After":
								if g.isLimit(VC{call.Call.Args[0], cx}) && g.isParsed(VC{call.Call.Args[1], cx}) && s.parsed {
									s.old = true
								}
							}
						}
						continue
					}
					if x.Op == token.GTR || x.Op == token.GEQ || x.Op == token.NEQ {
						if k, ok := x.Y.v.(*ssa.Const); ok && k.Value != nil && strings.HasSuffix(g.sym(x.X), "axAge") || t.isAge(g, x.X) {
							if x.Op == token.GTR || x.Op == token.GEQ && !isZeroConst(x.Y.v) {
								s.age = true
							}
						}
					}
				}
				return s
			}
			c.run(g, start, r)
		}
	})
}

type remSt struct {
	zipped           string
	name             VC
	old, parsed, age bool
}

func (s remSt) Key() string {
	k := fmt.Sprint(s.zipped, s.old, s.parsed, s.age)
	if s.name.v != nil {
		k += vkey(s.name)
	}
	return k
}

// path names a file name by how it is put together.
func (t *logT) path(g *Graph, v VC, e env, d int) string {
	w, _ := g.resolve1(v, e)
	w = g.trace(w)
	if d > 8 {
		return g.sym(w)
	}
	switch x := w.v.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return t.path(g, VC{x.X, w.c}, e, d+1) + "+" + t.path(g, VC{x.Y, w.c}, e, d+1)
		}
	case *ssa.Call:
		switch nm := calleeName(x); nm {
		case "path/filepath.Join":
			out := "join("
			for _, a := range g.variadic(VC{x.Call.Args[0], w.c}) {
				if a.v == nil {
					return g.sym(w)
				}
				out += t.path(g, a, e, d+1) + ","
			}
			return out + ")"
		case "path/filepath.Dir", "path/filepath.Base", "path/filepath.Clean":
			return nm + "(" + t.path(g, VC{x.Call.Args[0], w.c}, e, d+1) + ")"
		}
		if x.Call.IsInvoke() && x.Call.Method.Name() == "Name" {
			return "name(" + g.sym(VC{x.Call.Value, w.c}) + ")"
		}
	}
	return g.symAt(w, e)
}

func isZeroConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.Int && constant.Sign(k.Value) == 0
}

func (t *logT) isAge(g *Graph, v VC) bool {
	nm, f, _, ok := g.fieldOf(v)
	return ok && nm.Obj() == t.W.Obj() && strings.Contains(strings.ToLower(f), "age")
}

// resultOf: the call whose result the value is (an expanded callee's frame
// included).
func (g *Graph) resultOf(v VC) (*ssa.Call, *Ctx, bool) {
	w := g.norm(v)
	for x := w.c; x != nil; x = x.parent {
		if call, ok := x.site.(*ssa.Call); ok {
			return call, x.parent, true
		}
	}
	return nil, nil, false
}

// archives: the call makes an archive of the file named by its second argument.
func (t *logT) archives(g *Graph, call *ssa.Call) bool {
	f := call.Call.StaticCallee()
	return f != nil && f.Name() == "ZipToFile" && len(call.Call.Args) == 2
}

// isLimit: now, moved back by the configured age.
func (g *Graph) isLimit(v VC) bool {
	return g.derives(v, func(w VC) bool {
		call, ok := w.v.(*ssa.Call)
		return ok && (calleeName(call) == "(time.Time).AddDate" || calleeName(call) == "(time.Time).Add")
	})
}

func (g *Graph) isParsed(v VC) bool {
	return g.derives(v, func(w VC) bool {
		call, ok := w.v.(*ssa.Call)
		return ok && calleeName(call) == "time.Parse"
	})
}

func (t *logT) joinedName(g *Graph, v VC, e env) (string, bool) {
	w, _ := g.resolve1(v, e)
	w = g.trace(w)
	switch x := w.v.(type) {
	case *ssa.Call:
		if calleeName(x) != "path/filepath.Join" {
			return "", false
		}
		l := g.variadic(VC{x.Call.Args[0], w.c})
		if len(l) == 0 || l[len(l)-1].v == nil {
			return "", false
		}
		return t.path(g, l[len(l)-1], e, 0), true
	case *ssa.BinOp:
		return t.path(g, VC{x.Y, w.c}, e, 0), true
	}
	return "", false
}

// important: the call is a step of archiving whose failure leaves the archive
// incomplete.
func archiveStep(g *Graph, n *Node) bool {
	call, ok := n.instr.(*ssa.Call)
	if !ok || n.kind != KInstr || len(n.callees) > 0 {
		return false
	}
	switch nm := calleeName(call); {
	case nm == "os.Create", nm == "os.OpenFile", nm == "os.Open", nm == "path/filepath.Walk", nm == "path/filepath.WalkDir",
		strings.HasPrefix(nm, "io.Copy"), nm == "archive/zip.FileInfoHeader",
		strings.HasPrefix(nm, "(*archive/zip.Writer)."), nm == "(*bufio.Writer).Flush", nm == "os.ReadFile":
		return isErrResult(call)
	case nm == "(*os.File).Close":
		return isWrittenFile(g, VC{call.Call.Args[0], n.ctx})
	case nm == "(*os.File).Write", nm == "(io.Writer).Write":
		return true
	}
	return false
}

func isErrResult(call *ssa.Call) bool {
	switch x := call.Type().(type) {
	case *types.Tuple:
		return x.Len() > 0 && isError(x.At(x.Len()-1).Type())
	}
	return isError(call.Type())
}

func isWrittenFile(g *Graph, v VC) bool {
	ex, ok := g.trace(v).v.(*ssa.Extract)
	if !ok {
		return false
	}
	call, ok := ex.Tuple.(*ssa.Call)
	return ok && (calleeName(call) == "os.Create" || calleeName(call) == "os.OpenFile")
}

type arcSt struct {
	pend map[string]bool
	open map[string]bool // archive or file made and not closed
	copy bool
	dir  bool
	perr bool
}

func (s arcSt) Key() string {
	return setKey(s.pend) + "|" + setKey(s.open) + fmt.Sprint(s.copy, s.dir, s.perr)
}

func setKey(m map[string]bool) string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func with(m map[string]bool, k string, on bool) map[string]bool {
	n := map[string]bool{}
	for x := range m {
		n[x] = true
	}
	if on {
		n[k] = true
	} else {
		delete(n, k)
	}
	return n
}

func (t *logT) archive(c *C) {
	var walks []*ssa.Function
	for _, nm := range []string{"ZipToFile", "Zip"} {
		f := c.needFunc("zutils", nm)
		if f == nil {
			continue
		}
		g := c.graph(f, nil)
		t.errs(c, g, nm, -1)
		for _, n := range g.nodes {
			call, ok := n.instr.(*ssa.Call)
			if !ok || n.kind != KInstr || !strings.HasPrefix(calleeName(call), "path/filepath.Walk") {
				continue
			}
			if fc, ok := g.funcOf(VC{call.Call.Args[1], n.ctx}); ok {
				dup := false
				for _, w := range walks {
					dup = dup || w == fc.fn
				}
				if !dup {
					walks = append(walks, fc.fn)
				}
			}
		}
	}
	for _, w := range walks {
		g := c.graph(w, nil)
		t.errs(c, g, "walk", len(w.Params)-1)
	}
	if len(walks) == 0 {
		c.undecided("no directory walk in the archiving")
		c.ok("no walk")
	}
}

// errs: the function returns no error only when none of its steps did.
func (t *logT) errs(c *C, g *Graph, key string, errParam int) {
	r := &Rule{Init: arcSt{}}
	rep := map[string]bool{}
	fail := func(n *Node, k, why string) {
		if !rep[k] {
			rep[k] = true
			c.failN(k+"|"+key, n, why)
		}
	}
	site := func(call *ssa.Call, cx *Ctx) string { return vkey(VC{call, cx}) + c.P.pos(call.Pos()) }
	errSite := func(v VC) string {
		w := g.trace(v)
		if ex, ok := w.v.(*ssa.Extract); ok {
			w = VC{ex.Tuple, w.c}
		}
		if call, ok := w.v.(*ssa.Call); ok {
			return site(call, w.c)
		}
		return ""
	}
	r.NodeE = func(g *Graph, n *Node, a Auto, e env) Auto {
		s := a.(arcSt)
		if archiveStep(g, n) {
			call := n.instr.(*ssa.Call)
			s.pend = with(s.pend, site(call, n.ctx), true)
			switch nm := calleeName(call); {
			case strings.HasSuffix(nm, ").Close"):
				s.open = with(s.open, nm, false)
			case nm == "os.Create" || nm == "os.OpenFile":
				s.open = with(s.open, "(*os.File).Close", true)
			case strings.HasPrefix(nm, "io.Copy"):
				s.copy = true
			}
		}
		if call, ok := n.instr.(*ssa.Call); ok && n.kind == KInstr {
			if calleeName(call) == "archive/zip.NewWriter" {
				s.open = with(s.open, "(*archive/zip.Writer).Close", true)
			}
		}
		ret, ok := n.instr.(*ssa.Return)
		if !ok || n.kind != KInstr || n.ctx != g.root || len(ret.Results) == 0 {
			return s
		}
		rv := VC{ret.Results[len(ret.Results)-1], n.ctx}
		if a, ok := g.eval(rv, e); ok && a.k == 'N' {
			c.okN(n)
			return s
		}
		v, _ := g.resolve1(rv, e)
		own := errSite(v)
		pend := s.pend
		if own != "" {
			if _, isp := pend[own]; !isp {
				// decided before: a value known to be an error
				if a, ok := g.eval(v, e); !ok || a.k != 'n' {
					if _, was := s.pend[own]; !was && g.symAt(rv, e) != "nil" {
						own = "err"
					}
				}
			}
			pend = with(pend, own, false)
		}
		if errParam >= 0 && own == "" && g.sym(v) == g.psym(errParam) {
			s.perr = true
		}
		switch {
		case own == "err":
			c.okN(n)
		case len(pend) > 0:
			w := ""
			for k := range pend {
				if w == "" || k < w {
					w = k
				}
			}
			fail(n, "lost", "success can be reported although a step of archiving failed ("+w[strings.Index(w, ">")+1:]+")")
		case len(s.open) > 0:
			fail(n, "close", "success is reported although the archive was not seen to be closed: it may be incomplete")
		case errParam >= 0 && !s.perr:
			fail(n, "param", "success can be reported for a file that could not be read")
		case errParam >= 0 && !s.copy && !s.dir:
			fail(n, "copy", "a file's content can be left out of the archive")
		default:
			c.okN(n)
		}
		return s
	}
	r.Edge = func(g *Graph, n *Node, a Auto, at []Atom) Auto {
		s := a.(arcSt)
		for _, x := range at {
			if v, isnil, ok := x.nilness(); ok {
				if k := errSite(v); k != "" {
					s.pend = with(s.pend, k, false)
					if !isnil {
						// an error seen: it has to come out
						s.pend = with(s.pend, "!"+k, true)
					}
				}
				if errParam >= 0 && g.sym(v) == g.psym(errParam) {
					s.perr = isnil
					if !isnil {
						s.pend = with(s.pend, "!>the error given", true)
					}
				}
				continue
			}
			if x.Op == 0 {
				if call, ok := g.norm(x.X).v.(*ssa.Call); ok {
					nm := calleeName(call)
					if strings.HasSuffix(nm, "IsRegular") && !x.Val || strings.HasSuffix(nm, "IsDir") && x.Val {
						s.dir = true
					}
				}
			}
		}
		return s
	}
	c.run(g, g.entry, r)
}

func (t *logT) names(c *C) {
	var fmts, parses []string
	var fn, pn *Node
	frac := regexp.MustCompile(`[.,][09]{6,9}`)
	seen := map[token.Pos]bool{}
	for _, f := range c.P.Roots("zutils") {
		g := c.graph(f, nil)
		for _, n := range g.nodes {
			call, ok := n.instr.(*ssa.Call)
			if !ok || n.kind != KInstr || len(n.callees) > 0 || seen[call.Pos()] {
				continue
			}
			switch calleeName(call) {
			case "os.Rename":
				seen[call.Pos()] = true
				found := false
				if g.derives(VC{call.Call.Args[1], n.ctx}, func(w VC) bool {
					k, ok := w.v.(*ssa.Call)
					if !ok || calleeName(k) != "(time.Time).Format" {
						return false
					}
					if l, ok := k.Call.Args[1].(*ssa.Const); ok && l.Value != nil {
						fmts = append(fmts, constant.StringVal(l.Value))
						fn = n
						found = true
					}
					return true
				}) && found {
					continue
				}
				c.undecided(n.posn(c.P) + " name of the rotated file")
				c.okN(n)
			case "time.Parse", "time.ParseInLocation":
				seen[call.Pos()] = true
				if l, ok := call.Call.Args[0].(*ssa.Const); ok && l.Value != nil {
					parses = append(parses, constant.StringVal(l.Value))
					pn = n
				} else {
					c.undecided(n.posn(c.P) + " layout")
					c.okN(n)
				}
			}
		}
	}
	for _, l := range fmts {
		if !frac.MatchString(l) {
			c.failN("coarse", fn, fmt.Sprintf("files rotated within the same second get the same name (layout %q): the earlier one is overwritten", l))
		} else {
			c.okN(fn)
		}
		for _, p := range parses {
			if p != l {
				c.failN("differ", pn, fmt.Sprintf("the age of a rotated file is not read from its name as it was written (%q, written as %q)", p, l))
			} else {
				c.okN(pn)
			}
		}
	}
}

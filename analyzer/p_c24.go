package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C24", func(c *C) {
		L := c.needType("zlog", "ZinxLoggerCore")
		if L == nil {
			return
		}
		t := &zlogT{L: L}
		pick := func(nm, ty string) string {
			if f := fieldsByType(L, func(x types.Type) bool { return strings.HasSuffix(x.String(), ty) }); len(f) == 1 {
				return f[0]
			}
			return c.needField(L, nm, ty)
		}
		t.fw, t.hook = pick("fw", "zutils.Writer"), pick("onLogHook", "func([]byte)")
		if hasField(L, "isolationLevel") {
			t.iso = "isolationLevel"
		} else {
			t.iso = c.isoField(L)
		}
		if t.fw == "" || t.hook == "" || t.iso == "" {
			c.missing("the logger's level")
			return
		}
		c.Rule("guarded", "Every access to the logger's prefix, flags, buffer, file and hook holds its mutex, and so does every use of the buffer and the file")
		t.guarded(c)
		c.atLeast(20, "accesses to the logger's state")
		c.Rule("line", "A line is put together in one critical section, from an empty buffer, as header, message and one line break, and is written out once, as a whole, to the file if there is one and to the console otherwise")
		t.line(c)
		c.atLeast(2, "lines written")
		c.Rule("level", "A logging method writes one line with its own level and its message exactly when the level is enabled, and nothing otherwise")
		t.levels(c)
		c.atLeast(12, "logging methods")
		c.Rule("forward", "The package's functions and the default logger pass each call on to the method of that name or level with its arguments")
		t.forward(c)
		c.atLeast(18, "functions passing on")
		c.Rule("exit", "The process is ended only after the message was written and the file was closed")
		t.exit(c)
		c.atLeast(2, "exits")
		c.Rule("set", "Setting prefix, flags, hook or file stores what was given; a file that is replaced is closed")
		t.set(c)
		c.atLeast(4, "settings")
	})
}

// isoField: the int field SetLogLevel stores its argument in.
func (c *C) isoField(L *types.Named) string {
	f := c.P.Method("zlog", "ZinxLoggerCore", "SetLogLevel")
	if f == nil {
		return ""
	}
	g := c.graph(f, nil)
	for _, n := range g.nodes {
		if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr {
			if nm, fl, _, ok := g.fieldOf(VC{st.Addr, n.ctx}); ok && nm.Obj() == L.Obj() {
				return fl
			}
		}
	}
	return ""
}

type zlogT struct {
	L             *types.Named
	fw, hook, iso string
}

func (t *zlogT) guarded(c *C) {
	lp := &lockPass{c: c, orders: map[[2]string]string{}, lockSites: map[token.Pos]bool{}}
	lp.want = func(T *types.Named, f string) bool { return T.Obj() == t.L.Obj() }
	seen := map[token.Pos]bool{}
	lp.onNode = func(g *Graph, n *Node, h held) {
		ci, ok := n.instr.(ssa.CallInstruction)
		if !ok {
			return
		}
		_, isGo := n.instr.(*ssa.Go)
		if isGo && n.kind == KInstr {
			h = held{}
		} else if !isCallNode(n) || len(n.callees) > 0 {
			return
		}
		args := ci.Common().Args
		if !ci.Common().IsInvoke() && ci.Common().StaticCallee() == nil {
			args = append([]ssa.Value{ci.Common().Value}, args...)
		}
		for _, a := range args {
			v := g.trace(VC{a, n.ctx})
			if call, ok := v.v.(*ssa.Call); ok && strings.HasPrefix(calleeName(call), "(*bytes.Buffer).") && (!isGo || calleeName(call) == "(*bytes.Buffer).Bytes") {
				v = g.trace(VC{call.Call.Args[0], v.c})
			}
			nm, f, b, ok := g.fieldOf(v)
			if !ok || nm.Obj() != t.L.Obj() || g.isFreshAt(n, b) {
				continue
			}
			ft := fieldType(t.L, f)
			if isGo && f == t.hook {
				continue // the function was read before
			}
			if ft == nil || f != t.fw && f != t.hook && !strings.HasSuffix(ft.String(), "bytes.Buffer") {
				continue
			}
			has := false
			for _, l := range h.m {
				if l.mode == 'W' && strings.HasPrefix(l.base, g.sym(b)) {
					has = true
				}
			}
			switch {
			case has && !seen[n.instr.Pos()]:
				seen[n.instr.Pos()] = true
				c.okN(n)
			case !has && !seen[-n.instr.Pos()]:
				seen[-n.instr.Pos()] = true
				c.failN("use|"+f+"|"+fnName(n.fn()), n, "the logger's "+f+" is used without its mutex")
			}
		}
	}
	for _, f := range c.P.Roots("zlog") {
		lp.graph(c.graph(f, t.pol()))
	}
	written := map[string]bool{}
	for _, a := range lp.accesses {
		if a.T.Obj() == t.L.Obj() && a.write && !a.fresh && a.g.root.fn.Name() != "init" {
			written[a.field] = true
		}
	}
	st := t.L.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i).Name()
		if written[f] && f != t.iso && !strings.HasSuffix(st.Field(i).Type().String(), "bytes.Buffer") {
			c.guarded(lp, t.L, f, func(a access) string {
				if strings.HasPrefix(a.g.root.fn.Name(), "init") {
					return "before anything runs"
				}
				return ""
			})
		}
	}
}

func fieldType(T *types.Named, f string) types.Type {
	st := T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			return st.Field(i).Type()
		}
	}
	return nil
}

// pol: expand the logger only, not the file writer.
func (t *zlogT) pol() *Policy {
	return &Policy{Inline: func(f *ssa.Function) bool { return fnRel(f) == "zlog" }}
}

func (t *zlogT) polKeep(names ...string) *Policy {
	return &Policy{Inline: func(f *ssa.Function) bool {
		if r := f.Signature.Recv(); r != nil && typeIs(r.Type(), t.L.Obj().Name()) && (len(names) == 0 || contains(names, f.Name())) {
			return false
		}
		return fnRel(f) == "zlog"
	}}
}

// output: the node writes to the file ('f') or to the console ('c').
func (t *zlogT) output(g *Graph, n *Node) (byte, VC) {
	if !isCallNode(n) || len(n.callees) > 0 {
		return 0, VC{}
	}
	cc := n.instr.(ssa.CallInstruction).Common()
	if cc.IsInvoke() {
		if (cc.Method.Name() == "Write" || cc.Method.Name() == "WriteString") && len(cc.Args) == 1 {
			v := g.trace(VC{cc.Value, n.ctx})
			if mi, ok := v.v.(*ssa.MakeInterface); ok {
				if strings.HasSuffix(mi.X.Type().String(), "zutils.Writer") {
					return 'f', VC{cc.Args[0], n.ctx}
				}
				if mi.X.Type().String() == "*os.File" {
					return 'c', VC{cc.Args[0], n.ctx}
				}
			}
			if ph, ok := v.v.(*ssa.Phi); ok && ph != nil {
				return 'x', VC{cc.Args[0], n.ctx}
			}
			return 'x', VC{cc.Args[0], n.ctx}
		}
		return 0, VC{}
	}
	sc := cc.StaticCallee()
	if sc == nil {
		return 0, VC{}
	}
	switch s := sc.String(); {
	case strings.HasSuffix(s, "zutils.Writer).Write"):
		return 'f', VC{cc.Args[1], n.ctx}
	case s == "(*os.File).Write" || s == "(*os.File).WriteString":
		return 'c', VC{cc.Args[1], n.ctx}
	case s == "fmt.Fprint" || s == "fmt.Fprintf" || s == "fmt.Fprintln":
		return 'x', VC{cc.Args[0], n.ctx}
	}
	return 0, VC{}
}

type lineSt struct {
	state   byte // 0 nothing, 'h' header, 's' message written, 'n' line break written, 'o' out
	ends    byte // 0 unknown, 'y' the message ends its line, 'n' it does not
	fw      byte // 'n' nil, 'o' set
	hook    byte
	out     int
	unsure  bool
	outKind byte
}

func (s lineSt) Key() string { return fmt.Sprintf("%+v", s) }

func (t *zlogT) line(c *C) {
	f := c.needMethod("zlog", "ZinxLoggerCore", "OutPut")
	if f == nil {
		return
	}
	g := c.graph(f, t.pol())
	msg := g.psym(2)
	bad := map[string]bool{}
	fail := func(n *Node, k, why string) {
		if !bad[k] {
			bad[k] = true
			c.failN(k, n, why)
		}
	}
	bufOf := func(v VC) string {
		w := g.trace(v)
		if w.v == nil {
			return ""
		}
		return g.sym(w)
	}
	// the buffer written out
	buf := ""
	for _, n := range g.nodes {
		if k, d := t.output(g, n); k != 0 {
			w := g.trace(d)
			if cv, ok := w.v.(*ssa.Convert); ok {
				w = g.trace(VC{cv.X, w.c})
			}
			if call, ok := w.v.(*ssa.Call); ok && (calleeName(call) == "(*bytes.Buffer).Bytes" || calleeName(call) == "(*bytes.Buffer).String") {
				buf = bufOf(VC{call.Call.Args[0], w.c})
			}
		}
	}
	if buf == "" {
		for _, n := range g.nodes {
			if k, _ := t.output(g, n); k != 0 {
				c.undecided(n.posn(c.P) + " line not taken from a buffer")
				c.okN(n)
				c.okN(n)
			}
		}
		return
	}
	local := !strings.HasPrefix(buf, "P0@0")
	r := &Rule{Init: lineSt{}}
	r.NodeE = func(g *Graph, n *Node, a Auto, e env) Auto {
		s := a.(lineSt)
		if l, ok := g.lockOp(n); ok {
			if (l.op == "Unlock") && s.state != 0 && s.state != 'o' && !local {
				fail(n, "split", "the lock is given up while the line is being put together: lines of several goroutines mix")
				return nil
			}
			return s
		}
		if k, d := t.output(g, n); k != 0 {
			w := g.trace(d)
			if cv, ok := w.v.(*ssa.Convert); ok {
				w = g.trace(VC{cv.X, w.c})
			}
			call, isb := w.v.(*ssa.Call)
			whole := isb && (calleeName(call) == "(*bytes.Buffer).Bytes" || calleeName(call) == "(*bytes.Buffer).String") && bufOf(VC{call.Call.Args[0], w.c}) == buf
			switch {
			case s.out > 0:
				fail(n, "twice", "a line is written out twice")
				return nil
			case k == 'f' && s.fw != 'o':
				fail(n, "nofile", "the line is written to a file that may not be set")
				return nil
			case k == 'c' && s.fw != 'n':
				fail(n, "console", "the line is not written to the file that is set")
				return nil
			case !whole && k != 'x':
				fail(n, "whole", "what is written out is not the whole line")
				return nil
			case s.state == 0 || s.state == 'h':
				fail(n, "message", "the line is written out without its message")
				return nil
			case s.unsure:
				c.undecided(n.posn(c.P) + " line break")
			case s.state == 's' && s.ends != 'y':
				fail(n, "break", "the line is written out without a line break: the next line is glued to it")
				return nil
			case s.state == 'n' && s.ends == 'y':
				fail(n, "break2", "a message that ends its line gets a second line break")
				return nil
			}
			c.okN(n)
			s.out++
			s.state = 'o'
			return s
		}
		if !isCallNode(n) || len(n.callees) > 0 {
			return s
		}
		cc := n.instr.(ssa.CallInstruction).Common()
		if !cc.IsInvoke() && cc.StaticCallee() == nil {
			if _, isb := cc.Value.(*ssa.Builtin); !isb && g.isField(VC{cc.Value, n.ctx}, t.L, t.hook) {
				if s.hook != 'o' {
					fail(n, "hook", "the hook is called although it may not be set")
					return nil
				}
				c.okN(n)
			}
			return s
		}
		sc := cc.StaticCallee()
		if sc == nil || !strings.HasPrefix(sc.String(), "(*bytes.Buffer).") || bufOf(VC{cc.Args[0], n.ctx}) != buf {
			// the buffer passed on as a writer
			for _, a := range cc.Args {
				v := g.trace(VC{a, n.ctx})
				if mi, ok := v.v.(*ssa.MakeInterface); ok && bufOf(VC{mi.X, v.c}) == buf {
					if s.state == 0 && !local {
						fail(n, "reset", "the line is put together in a buffer that was not emptied")
						return nil
					}
					s.unsure = true
				}
			}
			return s
		}
		switch sc.Name() {
		case "Reset":
			s.state, s.unsure = 'h', false
		case "Truncate":
			s.state = 'h'
		case "WriteString", "Write", "WriteByte", "WriteRune":
			if s.state == 0 {
				if !local {
					fail(n, "reset", "the line is put together in a buffer that was not emptied: the lines before come again")
					return nil
				}
				s.state = 'h'
			}
			v, _ := g.resolve1(VC{cc.Args[1], n.ctx}, e)
			v = g.trace(v)
			if cv, ok := v.v.(*ssa.Convert); ok && isBytes(cv.Type()) {
				v = g.trace(VC{cv.X, v.c})
			}
			isMsg := g.sym(v) == msg
			if k, ok := v.v.(*ssa.Const); ok && k.Value != nil {
				nl := false
				if k.Value.Kind() == constant.String {
					nl = strings.Contains(constant.StringVal(k.Value), "\n")
				} else if i, ok := constant.Int64Val(k.Value); ok {
					nl = i == '\n'
				}
				switch {
				case nl && s.state == 's':
					if s.ends == 0 && !s.unsure {
						fail(n, "break2", "every line gets a line break, also when its message ends with one: an empty line follows")
						return nil
					}
					s.state = 'n'
				case nl:
					fail(n, "early", "the line is broken before its message")
					return nil
				}
				return s
			}
			if isMsg {
				if s.state == 's' || s.state == 'n' {
					fail(n, "again", "the message is written twice")
					return nil
				}
				s.state = 's'
				c.okN(n)
				return s
			}
			if g.derives(v, func(w VC) bool { return g.sym(w) == msg }) {
				if s.state == 's' || s.state == 'n' {
					fail(n, "again", "the message is written twice")
					return nil
				}
				if _, ok := v.v.(*ssa.Slice); ok {
					fail(n, "part", "only a part of the message is written")
					return nil
				}
				s.state, s.unsure = 's', true
				return s
			}
			if s.state == 's' && s.ends == 0 && !s.unsure {
				s.unsure = true
			}
		}
		return s
	}
	r.Edge = func(g *Graph, n *Node, a Auto, at []Atom) Auto {
		s := a.(lineSt)
		for _, x := range at {
			if v, isnil, ok := x.nilness(); ok {
				set := byte('o')
				if isnil {
					set = 'n'
				}
				switch {
				case g.isField(v, t.L, t.fw):
					if s.fw != 0 && s.fw != set {
						return nil
					}
					s.fw = set
				case g.isField(v, t.L, t.hook):
					s.hook = set
				}
				continue
			}
			if x.Op == 0 {
				if call, ok := g.norm(x.X).v.(*ssa.Call); ok && calleeName(call) == "strings.HasSuffix" && g.sym(VC{call.Call.Args[0], g.norm(x.X).c}) == msg {
					s.ends = 'n'
					if x.Val {
						s.ends = 'y'
					}
				}
				continue
			}
			if t.emptyTest(g, x, msg) {
				s.ends = 'n'
				continue
			}
			if k, ok := x.Y.v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int && t.lastByte(g, x.X, msg) {
				if i, _ := constant.Int64Val(k.Value); i == '\n' {
					switch x.Op {
					case token.EQL:
						s.ends = 'y'
					case token.NEQ:
						s.ends = 'n'
					}
				}
			}
		}
		return s
	}
	r.End = func(g *Graph, n *Node, a Auto, w func() []string) {
		if normalEnd(n) && a.(lineSt).out == 0 && !bad["none"] {
			bad["none"] = true
			c.fail("none", n.posn(c.P), fnName(g.root.fn), "a line can be left unwritten", w()...)
		}
	}
	c.run(g, g.entry, r)
}

// emptyTest: the condition establishes that the message is empty.
func (t *zlogT) emptyTest(g *Graph, x Atom, msg string) bool {
	k, ok := x.Y.v.(*ssa.Const)
	if !ok || k.Value == nil {
		return false
	}
	if k.Value.Kind() == constant.String {
		return x.Op == token.EQL && constant.StringVal(k.Value) == "" && g.sym(x.X) == msg
	}
	if !strings.HasPrefix(g.sym(x.X), "len(") || g.sym(x.X) != "len("+msg+")" {
		return false
	}
	i, _ := constant.Int64Val(k.Value)
	return x.Op == token.EQL && i == 0 || x.Op == token.LEQ && i == 0 || x.Op == token.LSS && i == 1
}

// lastByte: the value is the last byte of the message.
func (t *zlogT) lastByte(g *Graph, v VC, msg string) bool {
	w := g.trace(v)
	var x, idx ssa.Value
	switch y := w.v.(type) {
	case *ssa.Lookup:
		x, idx = y.X, y.Index
	case *ssa.Index:
		x, idx = y.X, y.Index
	default:
		return false
	}
	if g.sym(VC{x, w.c}) != msg {
		return false
	}
	l := g.linEval(VC{idx, w.c}, nil)
	return l.eq(lv("len(" + msg + ")").minus(lc(1)))
}

var logMethods = []struct{ name, level string }{
	{"Debugf", "LogDebug"}, {"Debug", "LogDebug"}, {"Infof", "LogInfo"}, {"Info", "LogInfo"}, {"Warnf", "LogWarn"}, {"Warn", "LogWarn"},
	{"Errorf", "LogError"}, {"Error", "LogError"}, {"Fatalf", "LogFatal"}, {"Fatal", "LogFatal"}, {"Panicf", "LogPanic"}, {"Panic", "LogPanic"},
}

func (t *zlogT) levels(c *C) {
	order := []string{"LogDebug", "LogInfo", "LogWarn", "LogError", "LogPanic", "LogFatal"}
	last := int64(-1 << 40)
	for _, o := range order {
		k, ok := pkgConst(c, "zlog", o)
		if !ok {
			c.missing("zlog." + o)
			return
		}
		if k <= last {
			c.fail("order|"+o, "zlog", "", "the levels are not ordered by severity: enabling one does not enable the more severe")
		}
		last = k
	}
	for _, m := range append(logMethods, struct{ name, level string }{"Stack", ""}) {
		f := c.needMethod("zlog", "ZinxLoggerCore", m.name)
		if f == nil {
			continue
		}
		lev := int64(0)
		if m.level != "" {
			lev, _ = pkgConst(c, "zlog", m.level)
		}
		g := c.graph(f, t.polKeep("OutPut"))
		nt := &numT{watch: g.fieldCell(t.L, "P0@0", t.iso)}
		iso := lv(t.iso + "@0")
		bad := map[string]bool{}
		fail := func(n *Node, k, why string) {
			if !bad[k] {
				bad[k] = true
				c.failN(k+"|"+m.name, n, m.name+": "+why)
			}
		}
		const done = 0
		judge := func(n *Node, s nstate) {
			switch {
			case s.has(done):
				c.okN(n)
			case m.level == "" || !s.f.nonneg(iso.minus(lc(lev)).minus(lc(1))):
				fail(n, "lost", "an enabled call can write no line")
			default:
				c.okN(n)
			}
		}
		c.numPaths(g, g.entry, nt, nstate{}, func(n *Node, s nstate, e env) (nstate, bool) {
			if _, ok := n.instr.(*ssa.Panic); ok && n.kind == KInstr {
				judge(n, s)
				return s, true
			}
			k, _ := t.output(g, n)
			isOut := isCallNode(n) && isNamedCall(n, t.L, "OutPut")
			if k == 0 && !isOut {
				return s, true
			}
			if s.has(done) {
				fail(n, "twice", "one call writes several lines")
				return s, false
			}
			if m.level != "" && !s.f.nonneg(lc(lev).minus(iso)) {
				fail(n, "filter", "a line is written although its level is filtered out")
				return s, false
			}
			if isOut {
				if lv, ok := g.arg(n, 1); ok && m.level != "" {
					if x, ok := nt.val(lv, s).isConst(); !ok || x != lev {
						fail(n, "level", "the line is written with another level")
						return s, false
					}
				}
				if mv, ok := g.arg(n, 2); ok && !t.fromArgs(g, mv, m.name) {
					fail(n, "text", "the line written is not made of the call's arguments")
					return s, false
				}
			}
			c.okN(n)
			s.marks = s.marks.set(done)
			return s, true
		}, nil, func(n *Node, s nstate, w func() []string) {
			if normalEnd(n) {
				judge(n, s)
			}
		})
	}
}

func isNamedCall(n *Node, T *types.Named, name string) bool {
	cc := n.instr.(ssa.CallInstruction).Common()
	sc := cc.StaticCallee()
	return sc != nil && sc.Name() == name && sc.Signature.Recv() != nil && typeIs(sc.Signature.Recv().Type(), T.Obj().Name())
}

// fromArgs: the message is formatted from the method's own arguments.
func (t *zlogT) fromArgs(g *Graph, v VC, name string) bool {
	vs := g.psym(len(g.root.fn.Params) - 1)
	return g.derives(v, func(w VC) bool {
		call, ok := w.v.(*ssa.Call)
		if !ok || !strings.HasPrefix(calleeName(call), "fmt.Sprint") {
			return false
		}
		a := call.Call.Args
		if g.sym(VC{a[len(a)-1], w.c}) != vs {
			return false
		}
		if calleeName(call) == "fmt.Sprintf" && strings.HasSuffix(name, "f") {
			return g.sym(VC{a[0], w.c}) == g.psym(1)
		}
		return true
	})
}

func (t *zlogT) forward(c *C) {
	check := func(f *ssa.Function, want string, skip int) {
		if f == nil {
			return
		}
		g := c.graph(f, t.polKeep())
		tr := &track{key: f.Name()}
		tr.ev = func(g *Graph, n *Node) []int {
			if !isCallNode(n) {
				return nil
			}
			sc := n.instr.(ssa.CallInstruction).Common().StaticCallee()
			if sc == nil || sc.Signature.Recv() == nil || !typeIs(sc.Signature.Recv().Type(), t.L.Obj().Name()) {
				return nil
			}
			return []int{0}
		}
		tr.on = func(g *Graph, n *Node, i int, m marks) string {
			sc := n.instr.(ssa.CallInstruction).Common().StaticCallee()
			if m.has(0) {
				return f.Name() + " passes one call on several times"
			}
			if sc.Name() != want {
				return f.Name() + " is passed on as " + sc.Name()
			}
			for i := 1; i < sc.Signature.Params().Len()+1; i++ {
				v, ok := g.arg(n, i)
				if ok && i-1+skip < len(f.Params) && g.sym(v) != g.psym(i-1+skip) {
					return f.Name() + " does not pass on its arguments as they are"
				}
			}
			return ""
		}
		tr.end = func(g *Graph, n *Node, m marks) string {
			if normalEnd(n) && !m.has(0) {
				return f.Name() + " is not passed on to the logger"
			}
			return ""
		}
		c.track(g, g.entry, tr)
	}
	for _, m := range logMethods {
		check(c.needFunc("zlog", m.name), m.name, 0)
	}
	for _, nm := range []string{"Stack", "Flags", "ResetFlags", "AddFlag", "SetPrefix", "SetLogFile", "SetLogLevel"} {
		check(c.P.Func("zlog", nm), nm, 0)
	}
	// the default logger behind Ins
	for _, T := range c.P.implTypes("ILogger") {
		for _, m := range []struct {
			name, to string
			skip     int
		}{{"InfoF", "Infof", 1}, {"ErrorF", "Errorf", 1}, {"DebugF", "Debugf", 1}, {"InfoFX", "Infof", 2}, {"ErrorFX", "Errorf", 2}, {"DebugFX", "Debugf", 2}} {
			if f := c.P.Method("zlog", T.Obj().Name(), m.name); f != nil {
				check(f, m.to, m.skip)
			}
		}
	}
}

func (t *zlogT) exit(c *C) {
	isExit := func(g *Graph, n *Node) bool {
		if !isCallNode(n) {
			return false
		}
		sc := n.instr.(ssa.CallInstruction).Common().StaticCallee()
		return sc != nil && sc.String() == "os.Exit"
	}
	done := map[token.Pos]bool{}
	c.rootsReaching([]string{"zlog"}, func() *Policy { return t.polKeep("OutPut") }, isExit, func(g *Graph, hits []*Node) {
		todo := false
		for _, h := range hits {
			todo = todo || !done[h.instr.Pos()]
			done[h.instr.Pos()] = true
		}
		if !todo {
			return
		}
		const (
			eOut = iota
			eClosed
		)
		tr := &track{key: "exit"}
		tr.ev = func(g *Graph, n *Node) []int {
			if isExit(g, n) {
				return []int{5}
			}
			if k, _ := t.output(g, n); k != 0 {
				return []int{eOut}
			}
			if !isCallNode(n) {
				return nil
			}
			if isNamedCall(n, t.L, "OutPut") {
				return []int{eOut}
			}
			sc := n.instr.(ssa.CallInstruction).Common().StaticCallee()
			if sc != nil && len(n.callees) == 0 && (strings.HasSuffix(sc.String(), "zutils.Writer).Close") || strings.HasSuffix(sc.String(), "zutils.Writer).Flush")) {
				return []int{eClosed}
			}
			return nil
		}
		tr.step = func(g *Graph, n *Node, m marks) (marks, bool) {
			if k, _ := t.output(g, n); k != 0 || isCallNode(n) && isNamedCall(n, t.L, "OutPut") {
				m = m.clear(eClosed)
			}
			m.twice = 0
			return m, true
		}
		tr.edge = func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
			for _, a := range at {
				if v, isnil, ok := a.nilness(); ok && isnil && g.isField(v, t.L, t.fw) {
					m = m.set(eClosed)
				}
			}
			m.twice = 0
			return m, true
		}
		tr.on = func(g *Graph, n *Node, i int, m marks) string {
			if i != 5 {
				return ""
			}
			if !m.has(eOut) {
				return "the process is ended before the message was written"
			}
			if !m.has(eClosed) {
				return "the process is ended while the message may still be in the file's buffer"
			}
			return ""
		}
		c.track(g, g.entry, tr)
	})
}

func (t *zlogT) set(c *C) {
	// field setters
	for _, m := range []struct{ name, field string }{{"SetPrefix", "prefix"}, {"ResetFlags", "flag"}, {"SetLogHook", t.hook}, {"SetLogLevel", t.iso}, {"AddFlag", "flag"}} {
		f := c.needMethod("zlog", "ZinxLoggerCore", m.name)
		if f == nil || !hasField(t.L, m.field) {
			continue
		}
		g := c.graph(f, t.pol())
		tr := &track{key: m.name}
		p := g.psym(1)
		tr.ev = func(g *Graph, n *Node) []int {
			st, ok := n.instr.(*ssa.Store)
			if ok && n.kind == KInstr && g.isFieldAddr(VC{st.Addr, n.ctx}, t.L, m.field) {
				return []int{0}
			}
			return nil
		}
		tr.on = func(g *Graph, n *Node, i int, _ marks) string {
			st := n.instr.(*ssa.Store)
			v := g.trace(VC{st.Val, n.ctx})
			if m.name == "AddFlag" {
				if b, ok := v.v.(*ssa.BinOp); ok && b.Op == token.OR {
					x, y := VC{b.X, v.c}, VC{b.Y, v.c}
					if g.sym(x) == p && g.isField(y, t.L, m.field) || g.sym(y) == p && g.isField(x, t.L, m.field) {
						return ""
					}
				}
				return "adding a flag does not keep the flags set before"
			}
			if g.symAt(v, tr.e) != p {
				return m.name + " does not store what it was given"
			}
			return ""
		}
		tr.end = func(g *Graph, n *Node, mk marks) string {
			if normalEnd(n) && !mk.has(0) {
				return m.name + " can leave the setting as it was"
			}
			return ""
		}
		tr.once = true
		c.track(g, g.entry, tr)
	}
	f := c.needMethod("zlog", "ZinxLoggerCore", "SetLogFile")
	if f == nil {
		return
	}
	g := c.graph(f, t.pol())
	const (
		fClosed = iota
		fStored
	)
	tr := &track{key: "SetLogFile", once: true}
	tr.ev = func(g *Graph, n *Node) []int {
		if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr && g.isFieldAddr(VC{st.Addr, n.ctx}, t.L, t.fw) {
			return []int{fStored}
		}
		if isCallNode(n) && len(n.callees) == 0 {
			if sc := n.instr.(ssa.CallInstruction).Common().StaticCallee(); sc != nil && strings.HasSuffix(sc.String(), "zutils.Writer).Close") {
				return []int{fClosed}
			}
		}
		return nil
	}
	tr.on = func(g *Graph, n *Node, i int, m marks) string {
		if i != fStored {
			return ""
		}
		st := n.instr.(*ssa.Store)
		if g.symAt(VC{st.Val, n.ctx}, tr.e) == "nil" {
			return "setting a file takes the file away"
		}
		v := g.trace(VC{st.Val, n.ctx})
		if call, ok := v.v.(*ssa.Call); ok && strings.HasSuffix(calleeName(call), "zutils.New") {
			for i := 1; i <= 2; i++ {
				if !g.derives(VC{call.Call.Args[0], v.c}, func(w VC) bool { return g.sym(w) == g.psym(i) }) {
					return "the file set is not the one asked for"
				}
			}
		}
		return ""
	}
	tr.edge = func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
		for _, a := range at {
			if v, isnil, ok := a.nilness(); ok && isnil && g.isField(v, t.L, t.fw) {
				m = m.set(fClosed)
			}
		}
		m.twice = 0
		return m, true
	}
	tr.end = func(g *Graph, n *Node, m marks) string {
		if !normalEnd(n) {
			return ""
		}
		if !m.has(fStored) {
			return "setting a file can leave the output as it was"
		}
		if !m.has(fClosed) {
			return "the file replaced is not closed: what its buffer holds comes late or not at all"
		}
		return ""
	}
	c.track(g, g.entry, tr)
}

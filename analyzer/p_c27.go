package main

import (
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const globalConf = "G:zconf.GlobalObject"

func init() {
	register("C27", func(c *C) {
		CF := c.needType("zconf", "Config")
		if CF == nil {
			return
		}
		k := &confT{T: CF}
		st := CF.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			k.fields = append(k.fields, st.Field(i).Name())
		}
		c.Rule("merge", "For every field of the configuration: after merging a given configuration the global field of the same name holds the given value if that is not zero, and is left alone otherwise")
		k.merge(c)
		c.atLeast(len(k.fields), "merged fields")
		c.Rule("load", "Loading reads the configuration file into the global configuration under the fields' own names, refuses a file that cannot be read or parsed, and then hands the logging settings on")
		k.load(c, st)
		c.atLeast(5, "loading steps")
		c.Rule("log", "Every logging setting that is given reaches the logger's setter for it")
		k.logging(c)
		c.atLeast(10, "logging settings")
		c.Rule("server", "A server gets its name, address, ports, path, modes and protocol parameters from the settings named after them, after the given configuration was merged")
		k.server(c)
		c.atLeast(30, "server settings")
		c.Rule("listen", "Every listener listens on the server's own host and the port of its kind; TLS is used exactly if both files are set, with those files; the listeners started are those of the mode")
		k.listen(c)
		c.atLeast(10, "listener settings")
		c.Rule("limits", "Queues, send buffers and read buffers have the configured size")
		k.limits(c)
		c.atLeast(6, "buffers")
		c.Rule("options", "Every option given for a server or client is applied to it, and sets what it is named after to the given value")
		k.options(c)
		c.atLeast(6, "options")
		c.Rule("connections", "Every connection made for a server or client uses its packer, hooks and message handler, and a frame decoder for its length field")
		c.inherits("packet", "onConnStart", "onConnStop", "msgHandler", "connManager")
		c.frames()
		c.atLeast(10, "inherited fields")
		c.Rule("setters", "What is set through a setter is kept, and is what the getter of the same name returns")
		k.setters(c)
		c.atLeast(10, "setters and getters")
	})
}

type confT struct {
	T      *types.Named
	fields []string
}

// zeroTests reads what a decided branch says about configuration fields:
// for each, "z" (zero, empty, not positive) or "nz".
func (k *confT) zeroTests(g *Graph, at []Atom, base string) map[string]string {
	out := map[string]string{}
	for _, a := range at {
		x := g.trace(a.X)
		isl := false
		if l, ok := isLen(x.v); ok {
			x, isl = g.trace(VC{l, x.c}), true
		}
		nm, f, b, ok := g.fieldOf(x)
		if !ok || nm.Obj() != k.T.Obj() || g.sym(b) != base {
			continue
		}
		if a.Op == token.ILLEGAL {
			if a.Val {
				out[f] = "nz"
			} else {
				out[f] = "z"
			}
			continue
		}
		y, isc := g.trace(a.Y).v.(*ssa.Const)
		if !isc || y.Value == nil {
			continue
		}
		zero := y.Value.ExactString() == "0" || y.Value.ExactString() == `""` || y.Value.ExactString() == "false"
		one := y.Value.ExactString() == "1"
		_ = isl
		switch {
		case zero && a.Op == token.EQL:
			out[f] = "z"
		case zero && a.Op == token.NEQ, zero && a.Op == token.GTR, one && a.Op == token.GEQ:
			out[f] = "nz"
		case zero && a.Op == token.LEQ, one && a.Op == token.LSS:
			out[f] = "z"
		case a.Op == token.EQL:
			out[f] = "nz"
		}
	}
	return out
}

// globalStore: the node stores to a field of the global configuration.
func (k *confT) globalStore(g *Graph, n *Node) (field string, val VC, ok bool) {
	st, iss := n.instr.(*ssa.Store)
	if !iss || n.kind != KInstr {
		return
	}
	nm, f, b, isf := g.fieldOf(VC{st.Addr, n.ctx})
	if !isf || nm.Obj() != k.T.Obj() || g.sym(b) != globalConf {
		return
	}
	return f, VC{st.Val, n.ctx}, true
}

// isConf: the value is the field of the configuration with the given base.
func (k *confT) isConf(g *Graph, v VC, base, f string) bool {
	nm, fl, b, ok := g.fieldOf(g.trace(v))
	return ok && nm.Obj() == k.T.Obj() && fl == f && g.sym(b) == base
}

func (k *confT) merge(c *C) {
	f := c.needFunc("zconf", "UserConfToGlobal")
	if f == nil {
		return
	}
	g := c.graph(f, nil)
	given := g.psym(0)
	stores := 0
	for _, n := range g.nodes {
		if _, _, ok := k.globalStore(g, n); ok {
			stores++
		}
		st, ok := n.instr.(*ssa.Store)
		if !ok || n.kind != KInstr {
			continue
		}
		if a := g.sym(VC{st.Addr, n.ctx}); a == globalConf {
			if g.sym(VC{st.Val, n.ctx}) == given {
				c.failN("whole", n, "the whole configuration is replaced: settings left out lose their defaults")
			} else {
				c.undecided(n.posn(c.P) + " the whole configuration is replaced")
				for range k.fields {
					c.undecided("merge")
				}
			}
			return
		}
	}
	if stores == 0 {
		for range k.fields {
			c.undecided("merge of unknown shape")
		}
		return
	}
	// settings whose zero value is a value of its own
	own := []string{"LogIsolationLevel", "KcpStreamMode"}
	for _, fl := range k.fields {
		fl := fl
		// x: two characters, what is known of the given value and of the global one
		at := func(m marks, i int) byte {
			if m.x == "" {
				return '?'
			}
			return m.x[i]
		}
		set := func(m marks, i int, b byte) marks {
			x := []byte("??")
			if m.x != "" {
				x = []byte(m.x)
			}
			x[i] = b
			m.x = string(x)
			return m
		}
		tr := &track{key: fl, once: true}
		tr.ev = func(g *Graph, n *Node) []int { return nil }
		tr.step = func(g *Graph, n *Node, m marks) (marks, bool) {
			if to, v, ok := k.globalStore(g, n); ok && to == fl {
				if k.isConf(g, v, given, fl) {
					m = set(m, 1, 's')
				} else {
					m = set(m, 1, 'w')
				}
			}
			return m, true
		}
		tr.edge = func(g *Graph, n *Node, a []Atom, m marks) (marks, bool) {
			if z := k.zeroTests(g, a, given)[fl]; z != "" {
				b := z[0]
				if old := at(m, 0); old != '?' && old != b {
					return m, false
				}
				m = set(m, 0, b)
			}
			return m, true
		}
		tr.end = func(g *Graph, n *Node, m marks) string {
			if !normalEnd(n) || n.kind != KExit {
				return ""
			}
			z, s := at(m, 0), at(m, 1)
			switch {
			case s == 'w':
				return "setting " + fl + " becomes something else than what was given for it"
			case s == 's' && z != 'n' && !contains(own, fl):
				return "setting " + fl + " is overwritten although it was left out"
			case s == '?' && z != 'z':
				return "setting " + fl + " is given but does not take effect"
			}
			return ""
		}
		c.track(g, g.entry, tr)
	}
}

func (k *confT) load(c *C, st *types.Struct) {
	names := map[string]string{}
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i)
		nm := fl.Name()
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if t := strings.Split(tag, ",")[0]; t != "" {
			nm = t
		}
		switch {
		case !fl.Exported():
			c.fail("field|"+fl.Name(), c.P.pos(fl.Pos()), "zconf.Config", "setting "+fl.Name()+" cannot be loaded from a file: it is not exported")
		case !strings.EqualFold(nm, fl.Name()):
			c.fail("field|"+fl.Name(), c.P.pos(fl.Pos()), "zconf.Config", "setting "+fl.Name()+" is loaded under another name: "+nm)
		case names[strings.ToLower(nm)] != "":
			c.fail("field|"+fl.Name(), c.P.pos(fl.Pos()), "zconf.Config", "two settings are loaded under the name "+nm)
		default:
			c.ok("Config." + fl.Name())
		}
		names[strings.ToLower(nm)] = fl.Name()
	}
	if f := c.needMethod("zconf", "Config", "Reload"); f != nil {
		g := c.graph(f, &Policy{Inline: func(f *ssa.Function) bool {
			return defaultInline(f) && fnRel(f) == "zconf" && !contains([]string{"InitLogConfig", "PathExists", "GetConfigFilePath"}, f.Name())
		}})
		const (
			read = iota
			parsed
			logged
			missing
			rok
			pok
		)
		seen := map[int]bool{}
		isRes := func(v VC, callee string, i int) bool {
			x := g.trace(v)
			if ex, ok := x.v.(*ssa.Extract); ok && ex.Index == i {
				call, ok := ex.Tuple.(*ssa.Call)
				return ok && hasAny(calleeName(call), callee)
			}
			call, ok := x.v.(*ssa.Call)
			return ok && hasAny(calleeName(call), callee) && (i == 0 || call.Call.Signature().Results().Len() == 1)
		}
		c.track(g, g.entry, &track{key: "Reload", once: true,
			ev: func(g *Graph, n *Node) []int {
				call, ok := n.instr.(*ssa.Call)
				if !ok || n.kind != KInstr {
					return nil
				}
				i := -1
				switch nm := calleeName(call); {
				case hasAny(nm, "os.ReadFile", "ioutil.ReadFile"):
					i = read
				case hasAny(nm, "encoding/json.Unmarshal"):
					i = parsed
				case hasAny(nm, ".InitLogConfig"):
					i = logged
				}
				if i < 0 {
					return nil
				}
				seen[i] = true
				return []int{i}
			},
			on: func(g *Graph, n *Node, i int, m marks) string {
				a, _ := g.arg(n, 0)
				switch i {
				case read:
					if !isRes(a, ".GetConfigFilePath", 0) {
						return "another file than the configuration file is read"
					}
				case parsed:
					b, _ := g.arg(n, 1)
					x := g.trace(b)
					if mi, ok := x.v.(*ssa.MakeInterface); ok {
						x = VC{mi.X, x.c}
					}
					if !isRes(a, "ReadFile", 0) {
						return "something else than the configuration file is parsed"
					}
					if g.sym(x) != g.psym(0) {
						return "the configuration file is not parsed into the configuration being loaded"
					}
				case logged:
					if g.sym(a) != g.psym(0) {
						return "the logging settings of another configuration are handed on"
					}
					if m.has(read) && !m.has(parsed) {
						return "the logging settings are handed on before the file is parsed"
					}
				}
				return ""
			},
			edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
				for _, a := range at {
					if a.Op == token.ILLEGAL && !a.Val && isRes(a.X, ".PathExists", 0) {
						m = m.set(missing)
					}
					if v, isnil, ok := a.nilness(); ok && isnil {
						if isRes(v, "ReadFile", 1) {
							m = m.set(rok)
						}
						if isRes(v, "json.Unmarshal", 1) {
							m = m.set(pok)
						}
					}
				}
				m.twice = 0
				return m, true
			},
			end: func(g *Graph, n *Node, m marks) string {
				if !normalEnd(n) || n.kind != KExit || !seen[read] || !seen[parsed] {
					return ""
				}
				switch {
				case !m.has(read) && !m.has(missing):
					return "loading returns without having read the configuration file, although it may exist"
				case m.has(read) && !m.has(parsed):
					return "loading returns without having parsed the configuration file"
				case m.has(read) && (!m.has(rok) || !m.has(pok)):
					return "a configuration file that cannot be read or parsed is ignored"
				case !m.has(logged):
					return "loading returns without having handed on the logging settings"
				}
				return ""
			}})
		if !seen[read] || !seen[parsed] {
			c.undecided("Reload reads the file in an unknown way")
			c.undecided("Reload")
		}
	}
	// the configuration file is loaded when the program starts
	pk := c.P.ByPkg["zconf"]
	if pk == nil {
		c.missing("package zconf")
		return
	}
	loaded := false
	for _, f := range c.P.AllFuncs {
		if f.Pkg != pk || !strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		g := c.graph(f, &Policy{Inline: func(f *ssa.Function) bool {
			return defaultInline(f) && fnRel(f) == "zconf" && f.Name() != "Reload"
		}})
		has := false
		for _, n := range g.nodes {
			if _, ok := isMethodCall(n, "Reload"); ok {
				has, loaded = true, true
			}
		}
		if !has {
			continue
		}
		c.track(g, g.entry, &track{key: "init", once: true,
			ev: func(g *Graph, n *Node) []int {
				if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr && g.sym(VC{st.Addr, n.ctx}) == globalConf {
					return []int{0}
				}
				if _, ok := isMethodCall(n, "Reload"); ok {
					return []int{1}
				}
				return nil
			},
			on: func(g *Graph, n *Node, i int, m marks) string {
				if i == 1 && !m.has(0) {
					return "the file is loaded before the defaults are set"
				}
				if i == 0 && m.has(1) {
					return "what was loaded from the file is replaced by the defaults"
				}
				return ""
			},
			end: func(g *Graph, n *Node, m marks) string {
				if normalEnd(n) && n.kind == KExit && !m.has(1) {
					return "the configuration file is not loaded"
				}
				return ""
			}})
	}
	if !loaded {
		c.fail("init", "zconf/zconf.go", "zconf.init", "the configuration file is not loaded when the program starts")
	}
}

// logSettings: which setter of the logger takes which settings.
var logSettings = []struct {
	call string
	key  string
	args []string
}{
	{"SetLogFile", "LogFile", []string{"LogDir", "LogFile"}},
	{"SetCons", "LogCons", []string{"LogCons"}},
	{"SetMaxAge", "LogSaveDays", []string{"LogSaveDays"}},
	{"SetMaxSize", "LogFileSize", []string{"LogFileSize"}},
	{"SetLogLevel", "LogIsolationLevel", []string{"LogIsolationLevel"}},
}

func (k *confT) logging(c *C) {
	for _, q := range []struct {
		f    *ssa.Function
		user bool
	}{{c.needFunc("zconf", "UserConfToGlobal"), true}, {c.needMethod("zconf", "Config", "InitLogConfig"), false}} {
		if q.f == nil {
			continue
		}
		g := c.graph(q.f, &Policy{Inline: func(f *ssa.Function) bool { return defaultInline(f) && fnRel(f) == "zconf" }})
		base := g.psym(0)
		for _, ls := range logSettings {
			ls, user := ls, q.user
			// x: knowledge of the key, of LogFile, and for a merge whether
			// each argument's setting has been merged
			at := func(m marks, i int) byte {
				if i < len(m.x) {
					return m.x[i]
				}
				return '?'
			}
			set := func(m marks, i int, b byte) marks {
				x := []byte("??????")
				copy(x, m.x)
				x[i] = b
				m.x = string(x)
				return m
			}
			c.track(g, g.entry, &track{key: q.f.Name() + "|" + ls.call, once: true,
				ev: func(g *Graph, n *Node) []int {
					ci, ok := n.instr.(ssa.CallInstruction)
					if !ok || !isCallNode(n) || len(n.callees) > 0 || ci.Common().StaticCallee() == nil {
						return nil
					}
					if sc := ci.Common().StaticCallee(); sc.Name() == ls.call && fnRel(sc) == "zlog" {
						return []int{0}
					}
					return nil
				},
				on: func(g *Graph, n *Node, i int, m marks) string {
					off := len(n.instr.(ssa.CallInstruction).Common().Args) - len(ls.args)
					for j, fl := range ls.args {
						a, ok := g.arg(n, off+j)
						if !ok {
							return "the logger's " + ls.call + " is called with too few settings"
						}
						merged := k.isConf(g, a, globalConf, fl)
						if !merged && (!k.isConf(g, a, base, fl) || user && fl == "LogDir") {
							return "the logger's " + ls.call + " gets something else than setting " + fl
						}
						if merged && user && at(m, 2+j) != 's' && at(m, 4+j) != 'z' {
							return "the logger's " + ls.call + " gets setting " + fl + " before it was merged"
						}
					}
					return ""
				},
				step: func(g *Graph, n *Node, m marks) (marks, bool) {
					if to, _, ok := k.globalStore(g, n); ok {
						for j, fl := range ls.args {
							if fl == to {
								m = set(m, 2+j, 's')
							}
						}
					}
					return m, true
				},
				edge: func(g *Graph, n *Node, a []Atom, m marks) (marks, bool) {
					z := k.zeroTests(g, a, base)
					if user {
						for f, v := range k.zeroTests(g, a, globalConf) {
							if f == "LogIsolationLevel" {
								z[f] = v
							}
						}
					}
					if v := z[ls.key]; v != "" {
						if o := at(m, 0); o != '?' && o != v[0] {
							return m, false
						}
						m = set(m, 0, v[0])
					}
					if v := z["LogFile"]; v != "" {
						m = set(m, 1, v[0])
					}
					for j, fl := range ls.args {
						if v := z[fl]; v == "z" {
							m = set(m, 4+j, 'z')
						}
					}
					return m, true
				},
				end: func(g *Graph, n *Node, m marks) string {
					if !normalEnd(n) || n.kind != KExit || m.has(0) || at(m, 0) == 'z' {
						return ""
					}
					if ls.key == "LogCons" && !user && at(m, 1) == 'z' {
						return ""
					}
					return "setting " + ls.key + " is given but does not reach the logger"
				}})
		}
	}
	// and the package functions hand on what they are given
	for _, ls := range logSettings {
		f := c.needFunc("zlog", ls.call)
		if f == nil {
			continue
		}
		g := c.graph(f, &Policy{Inline: func(f *ssa.Function) bool { return false }})
		found := false
		for _, n := range g.nodes {
			ci, ok := n.instr.(ssa.CallInstruction)
			if !ok || !isCallNode(n) || ci.Common().StaticCallee() == nil || ci.Common().StaticCallee().Name() != ls.call {
				continue
			}
			found = true
			same := len(ci.Common().Args) == len(ls.args)+1
			for j := range ls.args {
				if same && g.argSym(n, j+1) != g.psym(j) {
					same = false
				}
			}
			if same {
				c.okN(n)
			} else {
				c.failN("forward|"+ls.call, n, "the logger does not get what "+ls.call+" was given")
			}
		}
		if !found {
			c.undecided(ls.call)
		}
	}
}

func (k *confT) server(c *C) {
	S := c.needType("znet", "Server")
	KC := c.needType("znet", "KcpConfig")
	if S == nil || KC == nil {
		return
	}
	from := map[string]string{"Name": "Name", "IP": "Host", "Port": "TCPPort", "WsPort": "WsPort", "WsPath": "WsPath", "KcpPort": "KcpPort", "RouterSlicesMode": "RouterSlicesMode", "RequestPoolMode": "RequestPoolMode"}
	for _, nm := range []string{"NewServer", "NewUserConfServer", "NewDefaultRouterSlicesServer", "NewUserConfDefaultRouterSlicesServer"} {
		f := c.needFunc("znet", nm)
		if f == nil {
			continue
		}
		g := c.graph(f, &Policy{Inline: func(f *ssa.Function) bool {
			return defaultInline(f) && fnRel(f) == "znet" && f.Signature.Recv() == nil && !hasAny(strings.ToLower(f.Name()), "msghandle", "connmanager")
		}})
		user := strings.HasPrefix(nm, "NewUserConf")
		conf := map[string]map[string]bool{} // server field -> values
		kcp := map[string]map[string]bool{}
		where := map[string]*Node{}
		isSrv := func(n *Node) (T *types.Named, f string, v VC, ok bool) {
			st, iss := n.instr.(*ssa.Store)
			if !iss || n.kind != KInstr {
				return
			}
			t, f, _, isf := g.fieldOf(VC{st.Addr, n.ctx})
			if !isf || t.Obj() != S.Obj() && t.Obj() != KC.Obj() {
				return
			}
			return t, f, VC{st.Val, n.ctx}, true
		}
		for _, n := range g.nodes {
			T, fl, v, ok := isSrv(n)
			if !ok {
				continue
			}
			m := conf
			if T.Obj() == KC.Obj() {
				m = kcp
			}
			if m[fl] == nil {
				m[fl] = map[string]bool{}
			}
			m[fl][g.sym(v)] = true
			where[T.Obj().Name()+"."+fl] = n
		}
		check := func(T *types.Named, m map[string]map[string]bool, fl, setting string) {
			key := T.Obj().Name() + "." + fl
			want := globalConf + "." + setting
			if len(m[fl]) == 0 {
				// Server.X set with a whole struct elsewhere is not understood
				if len(m) == 0 {
					c.undecided(nm + " " + key)
				} else {
					c.failF(nm+"|"+key, f, "setting "+setting+" does not reach the server's "+fl)
				}
				return
			}
			for v := range m[fl] {
				switch {
				case v == want, v == g.psym(0)+"."+setting && user:
					c.okN(where[key])
				case setting == "RouterSlicesMode" && v == "#true" && strings.Contains(nm, "RouterSlices"):
					c.okN(where[key])
				default:
					c.failN(nm+"|"+key, where[key], "the server's "+fl+" is not what setting "+setting+" says")
				}
			}
		}
		for _, fl := range sortedKeys(from) {
			if !hasField(S, fl) {
				continue
			}
			check(S, conf, fl, from[fl])
		}
		ks := KC.Underlying().(*types.Struct)
		for i := 0; i < ks.NumFields(); i++ {
			if fl := ks.Field(i).Name(); contains(k.fields, fl) {
				check(KC, kcp, fl, fl)
			}
		}
		if !user {
			continue
		}
		c.track(g, g.entry, &track{key: nm + "|merged", once: true,
			ev: func(g *Graph, n *Node) []int {
				if call, ok := n.instr.(*ssa.Call); ok && n.kind == KInstr && strings.HasSuffix(calleeName(call), "zconf.UserConfToGlobal") {
					return []int{0}
				}
				if _, _, _, ok := isSrv(n); ok {
					return []int{1}
				}
				if call, ok := n.instr.(*ssa.Call); ok && n.kind == KInstr && hasAny(strings.ToLower(calleeName(call)), "newmsghandle") {
					return []int{2}
				}
				return nil
			},
			on: func(g *Graph, n *Node, i int, m marks) string {
				if i == 0 {
					if g.argSym(n, 0) != g.psym(0) {
						return "another configuration than the given one is merged"
					}
					return ""
				}
				if !m.has(0) {
					return "the server is made before the given configuration is merged"
				}
				return ""
			},
			end: func(g *Graph, n *Node, m marks) string {
				if normalEnd(n) && n.kind == KExit && !m.has(0) {
					return "the given configuration is not merged"
				}
				return ""
			}})
	}
}

// confSlice lists the fields of T that the value is computed from.
func (g *Graph) confSlice(v VC, T *types.Named, out map[string]bool, d int) {
	v = g.trace(v)
	if d > 14 || v.v == nil {
		return
	}
	if nm, f, _, ok := g.fieldOf(v); ok {
		if nm.Obj() == T.Obj() {
			out[f] = true
		}
		return
	}
	switch x := v.v.(type) {
	case *ssa.Slice:
		for _, w := range g.variadic(v) {
			g.confSlice(w, T, out, d+1)
		}
		g.confSlice(VC{x.X, v.c}, T, out, d+1)
		return
	case *ssa.Alloc:
		return
	case *ssa.Call:
		for _, a := range x.Call.Args {
			g.confSlice(VC{a, v.c}, T, out, d+1)
		}
		return
	case ssa.Instruction:
		for _, o := range x.Operands(nil) {
			if *o != nil {
				g.confSlice(VC{*o, v.c}, T, out, d+1)
			}
		}
	}
}

func (k *confT) listen(c *C) {
	S := c.needType("znet", "Server")
	KC := c.needType("znet", "KcpConfig")
	if S == nil || KC == nil {
		return
	}
	pol := func() *Policy {
		return &Policy{Inline: func(f *ssa.Function) bool {
			return defaultInline(f) && fnRel(f) == "znet" && !contains([]string{"StartConn", "newServerConn", "newKcpServerConn", "newWebsocketConn"}, f.Name())
		}}
	}
	addr := func(g *Graph, n *Node, v VC, port string) {
		got := map[string]bool{}
		g.confSlice(v, S, got, 0)
		delete(got, "IPVersion")
		switch {
		case len(got) == 0:
			c.undecided(n.posn(c.P) + " listening address")
		case len(got) == 2 && got["IP"] && got[port]:
			c.okN(n)
		default:
			l := sortedKeys2(got)
			c.failN("addr|"+port, n, "the listening address is made from "+strings.Join(l, ", ")+" instead of IP and "+port)
		}
	}
	if f := c.needMethod("znet", "Server", "ListenTcpConn"); f != nil {
		g := c.graph(f, pol())
		certs := globalConf + ".CertFile"
		keys := globalConf + ".PrivateKeyFile"
		for _, n := range g.nodes {
			call, ok := n.instr.(*ssa.Call)
			if !ok || n.kind != KInstr {
				continue
			}
			switch nm := calleeName(call); {
			case nm == "crypto/tls.Listen" || nm == "net.Listen":
				addr(g, n, VC{call.Call.Args[1], n.ctx}, "Port")
			case nm == "net.ListenTCP":
				addr(g, n, VC{call.Call.Args[1], n.ctx}, "Port")
			case nm == "crypto/tls.LoadX509KeyPair":
				if g.argSym(n, 0) == certs && g.argSym(n, 1) == keys {
					c.okN(n)
				} else {
					c.failN("tlsfiles", n, "TLS is set up from other files than CertFile and PrivateKeyFile")
				}
			}
		}
		c.track(g, g.entry, &track{key: "tls", once: true,
			ev: func(g *Graph, n *Node) []int {
				call, ok := n.instr.(*ssa.Call)
				if !ok || n.kind != KInstr {
					return nil
				}
				switch nm := calleeName(call); {
				case nm == "crypto/tls.Listen", nm == "crypto/tls.NewListener":
					return []int{0}
				case nm == "net.ListenTCP", nm == "net.Listen":
					return []int{1}
				}
				return nil
			},
			on: func(g *Graph, n *Node, i int, m marks) string {
				set := strings.Count(m.x, "+") == 2
				unset := strings.Contains(m.x, "-")
				switch {
				case i == 0 && !set:
					return "TLS is used although the files for it may not be set"
				case i == 1 && !unset:
					return "connections are not encrypted although both files for TLS may be set"
				}
				return ""
			},
			edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
				z := k.zeroTests(g, at, globalConf)
				for i, f := range []string{"CertFile", "PrivateKeyFile"} {
					x := []byte("??")
					copy(x, m.x)
					switch z[f] {
					case "z":
						x[i] = '-'
					case "nz":
						x[i] = '+'
					default:
						continue
					}
					m.x = string(x)
				}
				return m, true
			},
			end: func(g *Graph, n *Node, m marks) string { return "" }})
	}
	if f := c.needMethod("znet", "Server", "ListenWebsocketConn"); f != nil {
		g := c.graph(f, pol())
		for _, n := range g.nodes {
			if n.kind != KInstr {
				continue
			}
			if st, ok := n.instr.(*ssa.Store); ok {
				if nm, fl, _, ok := g.fieldOf(VC{st.Addr, n.ctx}); ok && nm.Obj().Pkg().Path() == "net/http" && nm.Obj().Name() == "Server" && fl == "Addr" {
					addr(g, n, VC{st.Val, n.ctx}, "WsPort")
				}
			}
			if call, ok := n.instr.(*ssa.Call); ok {
				switch nm := calleeName(call); {
				case nm == "net/http.ListenAndServe":
					addr(g, n, VC{call.Call.Args[0], n.ctx}, "WsPort")
				case hasAny(nm, "net/http.HandleFunc", "ServeMux).HandleFunc", "net/http.Handle", "ServeMux).Handle"):
					a, _ := g.arg(n, len(call.Call.Args)-2)
					if nm, fl, _, ok := g.fieldOf(g.trace(a)); ok && nm.Obj() == S.Obj() && fl == "WsPath" {
						c.okN(n)
					} else {
						c.failN("path", n, "websocket connections are not accepted at the configured path")
					}
				}
			}
		}
	}
	if f := c.needMethod("znet", "Server", "ListenKcpConn"); f != nil {
		g := c.graph(f, pol())
		calls := []struct {
			name string
			args []string
		}{
			{"SetACKNoDelay", []string{"KcpACKNoDelay"}},
			{"SetStreamMode", []string{"KcpStreamMode"}},
			{"SetNoDelay", []string{"KcpNoDelay", "KcpInterval", "KcpResend", "KcpNc"}},
			{"SetWindowSize", []string{"KcpSendWindow", "KcpRecvWindow"}},
		}
		okArgs := func(n *Node, off int, args []string) string {
			for j, a := range args {
				v, ok := g.arg(n, off+j)
				if !ok {
					return "too few settings are passed"
				}
				if nm, fl, _, ok := g.fieldOf(g.trace(v)); !ok || nm.Obj() != KC.Obj() || fl != a {
					return "something else than setting " + a + " is passed"
				}
			}
			return ""
		}
		for _, n := range g.nodes {
			if call, ok := n.instr.(*ssa.Call); ok && n.kind == KInstr && strings.Contains(calleeName(call), "kcp-go") && strings.HasSuffix(calleeName(call), ".ListenWithOptions") {
				addr(g, n, VC{call.Call.Args[0], n.ctx}, "KcpPort")
				if why := okArgs(n, 2, []string{"KcpFecDataShards", "KcpFecParityShards"}); why != "" {
					c.failN("kcplisten", n, "KCP listener: "+why)
				} else {
					c.okN(n)
				}
			}
		}
		for _, s := range g.entries() {
			c.track(g, s, &track{key: "kcp", once: true,
				ev: func(g *Graph, n *Node) []int {
					call, ok := n.instr.(*ssa.Call)
					if !ok || n.kind != KInstr {
						return nil
					}
					nm := calleeName(call)
					for i, q := range calls {
						if strings.Contains(nm, "kcp-go") && strings.HasSuffix(nm, "."+q.name) {
							return []int{i}
						}
					}
					if strings.HasSuffix(nm, ".newKcpServerConn") {
						return []int{10}
					}
					return nil
				},
				step: func(g *Graph, n *Node, m marks) (marks, bool) {
					if call, ok := n.instr.(*ssa.Call); ok && n.kind == KInstr && hasAny(calleeName(call), "kcp-go") && hasAny(calleeName(call), ".Accept") {
						for i := range calls {
							m = m.clear(i)
						}
					}
					return m, true
				},
				on: func(g *Graph, n *Node, i int, m marks) string {
					if i < len(calls) {
						if why := okArgs(n, 1, calls[i].args); why != "" {
							return "KCP session, " + calls[i].name + ": " + why
						}
						return ""
					}
					for j, q := range calls {
						if !m.has(j) {
							return "a KCP connection is made without its session's " + q.name
						}
					}
					return ""
				}})
		}
	}
	if f := c.needMethod("znet", "Server", "Start"); f != nil {
		ls := []string{"ListenTcpConn", "ListenWebsocketConn", "ListenKcpConn"}
		g := c.graph(f, &Policy{NoSpawn: true, Inline: func(f *ssa.Function) bool {
			return defaultInline(f) && fnRel(f) == "znet" && !contains(ls, f.Name()) && f.Name() != "StartWorkerPool"
		}})
		mode := globalConf + ".Mode"
		want := map[string]string{`"tcp"`: "T", `"websocket"`: "W", `"kcp"`: "K", "": "TW"}
		c.track(g, g.entry, &track{key: "mode", once: true,
			ev: func(g *Graph, n *Node) []int {
				ci, ok := n.instr.(ssa.CallInstruction)
				if !ok || n.kind != KInstr {
					return nil
				}
				nm := ""
				if sc := ci.Common().StaticCallee(); sc != nil {
					nm = sc.Name()
					if mc, ok := ci.Common().Value.(*ssa.MakeClosure); ok {
						// go func() { s.ListenX() }()
						for _, b := range mc.Fn.(*ssa.Function).Blocks {
							for _, in := range b.Instrs {
								if cc, ok := in.(ssa.CallInstruction); ok && cc.Common().StaticCallee() != nil && contains(ls, cc.Common().StaticCallee().Name()) {
									nm = cc.Common().StaticCallee().Name()
								}
							}
						}
					}
				}
				for i, l := range ls {
					if nm == l {
						return []int{i}
					}
				}
				return nil
			},
			on: func(g *Graph, n *Node, i int, m marks) string { return "" },
			edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
				for _, a := range at {
					if a.SX != mode || a.Op != token.EQL && a.Op != token.NEQ || !strings.HasPrefix(a.SY, "#") {
						continue
					}
					if a.Op == token.EQL {
						if m.x != "" && m.x != a.SY[1:] {
							return m, false
						}
						m.x = a.SY[1:]
					}
				}
				return m, true
			},
			end: func(g *Graph, n *Node, m marks) string {
				if !normalEnd(n) || n.kind != KExit {
					return ""
				}
				got := ""
				for i, l := range "TWK" {
					if m.has(i) {
						got += string(l)
					}
				}
				w, known := want[m.x]
				if !known {
					return ""
				}
				if got != w {
					md := m.x
					if md == "" {
						md = "any other"
					}
					return "in mode " + md + " the listeners started are not those of the mode"
				}
				return ""
			}})
	}
}

func sortedKeys2(m map[string]bool) []string {
	var l []string
	for x := range m {
		l = append(l, x)
	}
	sort.Strings(l)
	return l
}

// limits: sizes of queues and buffers.
func (k *confT) limits(c *C) {
	for _, f := range c.P.AllFuncs {
		if fnRel(f) != "znet" || f.Blocks == nil {
			continue
		}
		g := c.graph(f, &Policy{NoSpawn: true, Inline: func(*ssa.Function) bool { return false }})
		for _, n := range g.nodes {
			if n.kind != KInstr || n.ctx != g.root {
				continue
			}
			var size VC
			want := ""
			switch x := n.instr.(type) {
			case *ssa.MakeChan:
				e := x.Type().Underlying().(*types.Chan).Elem()
				switch {
				case typeIs(e, "IRequest"):
					want = "MaxWorkerTaskLen"
				case e.String() == "[]byte" && k.kept(x, "msgBuffChan"):
					want = "MaxMsgChanLen"
				}
				size = VC{x.Size, n.ctx}
			case *ssa.Alloc: // make with a constant size
				if a, ok := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && x.Comment == "makeslice" && a.Elem().String() == "byte" {
					for _, r := range *x.Referrers() {
						if s, ok := r.(*ssa.Slice); ok && k.readInto(s) {
							c.failN("size|IOReadBuffSize", n, "the size is fixed instead of being what setting IOReadBuffSize says")
						}
					}
				}
			case *ssa.MakeSlice:
				if x.Type().String() == "[]byte" && k.readInto(x) {
					want = "IOReadBuffSize"
				}
				size = VC{x.Len, n.ctx}
			}
			if want == "" {
				continue
			}
			v := g.trace(size)
			if cv, ok := v.v.(*ssa.Convert); ok {
				v = g.trace(VC{cv.X, v.c})
			}
			switch {
			case k.isConf(g, v, globalConf, want):
				c.okN(n)
			default:
				if _, isc := v.v.(*ssa.Const); isc {
					c.failN("size|"+want, n, "the size is fixed instead of being what setting "+want+" says")
				} else if nm, _, _, ok := g.fieldOf(v); ok && nm.Obj() == k.T.Obj() {
					c.failN("size|"+want, n, "the size is not what setting "+want+" says")
				} else {
					c.undecided(n.posn(c.P) + " size")
				}
			}
		}
	}
}

func (k *confT) kept(v ssa.Value, field string) bool {
	for _, r := range *v.Referrers() {
		if st, ok := r.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == field {
				return true
			}
		}
	}
	return false
}

// readInto: the buffer is what a connection's Read is given.
func (k *confT) readInto(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case ssa.CallInstruction:
			cc := x.Common()
			if cc.IsInvoke() && cc.Method.Name() == "Read" || cc.StaticCallee() != nil && cc.StaticCallee().Name() == "Read" {
				return true
			}
		case *ssa.Slice:
			if k.readInto(x) {
				return true
			}
		}
	}
	return false
}

func (k *confT) options(c *C) {
	for _, q := range []struct {
		ctor string
		elem string
	}{{"NewServer", "Option"}, {"NewUserConfServer", "Option"}, {"NewDefaultRouterSlicesServer", "Option"}, {"NewUserConfDefaultRouterSlicesServer", "Option"},
		{"NewClient", "ClientOption"}, {"NewWsClient", "ClientOption"}, {"NewTLSClient", "ClientOption"}} {
		f := c.needFunc("znet", q.ctor)
		if f == nil {
			continue
		}
		g := c.graph(f, &Policy{Inline: func(f *ssa.Function) bool {
			return defaultInline(f) && fnRel(f) == "znet" && f.Signature.Recv() == nil && !hasAny(strings.ToLower(f.Name()), "msghandle", "connmanager")
		}})
		kind := func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return ok && typeIs(s.Elem(), q.elem)
		}
		// calling an option: the callee is an element of the options
		apply := func(g *Graph, n *Node) (VC, bool) {
			ci, ok := n.instr.(ssa.CallInstruction)
			if !ok || !isCallNode(n) || ci.Common().IsInvoke() || ci.Common().StaticCallee() != nil || !typeIs(ci.Common().Value.Type(), q.elem) || len(ci.Common().Args) != 1 {
				return VC{}, false
			}
			return VC{ci.Common().Args[0], n.ctx}, true
		}
		applied := false
		for _, n := range g.nodes {
			if a, ok := apply(g, n); ok {
				applied = true
				x := g.trace(a)
				if mi, ok := x.v.(*ssa.MakeInterface); ok {
					x = g.trace(VC{mi.X, x.c})
				}
				if _, ok := x.v.(*ssa.Alloc); ok {
					c.okN(n)
				} else {
					c.undecided(n.posn(c.P) + " target of the option")
				}
			}
		}
		if !applied {
			c.failF(q.ctor+"|none", f, "the options given are not applied")
			continue
		}
		loops := c.everyRound(g, q.ctor, kind, func(g *Graph, n *Node) bool { _, ok := apply(g, n); return ok }, func(v VC) (bool, bool) { return false, false })
		if loops == 0 {
			c.undecided(q.ctor + ": loop over the options of unknown shape")
		}
		// all options get there: the slice looped over is the one given
		for _, n := range g.nodes {
			if ia, ok := n.instr.(*ssa.IndexAddr); ok && n.kind == KInstr && kind(ia.X.Type()) {
				last := len(f.Params) - 1
				if cnt, _ := counterOf(ia.Index); cnt == nil || cnt.phi == nil {
					c.failN(q.ctor+"|single", n, "only a single one of the options given is applied")
				} else if g.sym(VC{ia.X, n.ctx}) == g.psym(last) {
					c.okN(n)
				} else if k, isk := g.trace(VC{ia.X, n.ctx}).v.(*ssa.Const); isk && k.Value == nil {
					c.failN(q.ctor+"|nil", n, "the options given are not applied")
				} else if _, isp := g.trace(VC{ia.X, n.ctx}).v.(*ssa.Slice); isp {
					c.failN(q.ctor+"|part", n, "only a part of the options given is applied")
				} else {
					c.undecided(n.posn(c.P) + " options")
				}
			}
		}
	}
	// what each option does
	for _, q := range [][2]string{{"WithPacket", "SetPacket"}, {"WithPacketClient", "SetPacket"}, {"WithNameClient", "SetName"}, {"WithUrl", "SetUrl"}} {
		f := c.needFunc("znet", q[0])
		if f == nil {
			continue
		}
		n := 0
		for _, cl := range f.AnonFuncs {
			n++
			g := c.graph(cl, &Policy{Inline: func(f *ssa.Function) bool {
				return defaultInline(f) && fnRel(f) == "znet" && !strings.HasPrefix(f.Name(), "Set")
			}})
			c.track(g, g.entry, &track{key: q[0],
				ev: func(g *Graph, n *Node) []int {
					ci, ok := n.instr.(ssa.CallInstruction)
					if !ok || !isCallNode(n) || len(n.callees) > 0 {
						return nil
					}
					nm := ""
					if cc := ci.Common(); cc.IsInvoke() {
						nm = cc.Method.Name()
					} else if cc.StaticCallee() != nil && cc.StaticCallee().Signature.Recv() != nil {
						nm = cc.StaticCallee().Name()
					}
					if strings.HasPrefix(nm, "Set") {
						return []int{0}
					}
					return nil
				},
				on: func(g *Graph, n *Node, i int, m marks) string {
					ci := n.instr.(ssa.CallInstruction).Common()
					nm := ""
					if ci.IsInvoke() {
						nm = ci.Method.Name()
					} else {
						nm = ci.StaticCallee().Name()
					}
					if nm != q[1] {
						return "the option sets something else: " + nm
					}
					if g.argSym(n, 0) != g.psym(0) {
						return "the option is applied to something else than the object it was given for"
					}
					a, _ := g.arg(n, 1)
					fv, ok := capturedParam(g.trace(a).v, f)
					if !ok || fv != 0 {
						return "the option does not set the value it was made with"
					}
					return ""
				},
				end: func(g *Graph, n *Node, m marks) string {
					if normalEnd(n) && n.kind == KExit && !m.has(0) {
						return "the option may do nothing"
					}
					return ""
				}})
		}
		if n == 0 {
			c.undecided(q[0])
		}
	}
}

// capturedParam: the free variable holds the i-th parameter of the maker.
func capturedParam(v ssa.Value, maker *ssa.Function) (int, bool) {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		v = u.X
	}
	fv, ok := v.(*ssa.FreeVar)
	if !ok {
		return 0, false
	}
	cl := fv.Parent()
	idx := -1
	for i, x := range cl.FreeVars {
		if x == fv {
			idx = i
		}
	}
	for _, b := range maker.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(cl) || idx < 0 {
				continue
			}
			bv := mc.Bindings[idx]
			if al, ok := bv.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						bv = st.Val
					}
				}
			}
			for i, p := range maker.Params {
				if bv == ssa.Value(p) {
					return i, true
				}
			}
		}
	}
	return 0, false
}

func (k *confT) setters(c *C) {
	for _, lt := range c.P.LibTypes {
		T, ok := lt.(*types.Named)
		if !ok || T.TypeParams().Len() > 0 || !contains([]string{"znet", "zpack"}, relPkg(T.Obj().Pkg().Path())) {
			continue
		}
		if _, ok := T.Underlying().(*types.Struct); !ok {
			continue
		}
		ms := types.NewMethodSet(types.NewPointer(T))
		get := map[string]*ssa.Function{}
		var sets []*ssa.Function
		for i := 0; i < ms.Len(); i++ {
			f := c.P.SSA.MethodValue(ms.At(i))
			if f == nil || f.Blocks == nil || len(ms.At(i).Index()) > 1 {
				continue
			}
			sg := f.Signature
			if strings.HasPrefix(f.Name(), "Get") && sg.Params().Len() == 0 && sg.Results().Len() == 1 {
				get[f.Name()[3:]] = f
			}
			if strings.HasPrefix(f.Name(), "Set") && sg.Params().Len() == 1 && !sg.Variadic() && sg.Results().Len() == 0 {
				sets = append(sets, f)
			}
		}
		for _, s := range sets {
			gt := get[s.Name()[3:]]
			must := contains([]string{"Server", "Client"}, T.Obj().Name()) && fnRel(s) == "znet"
			if !must && (gt == nil || !types.Identical(gt.Signature.Results().At(0).Type(), s.Signature.Params().At(0).Type())) {
				continue
			}
			g := c.graph(s, nil)
			kept := map[string]bool{}
			for _, n := range g.nodes {
				if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr && g.sym(VC{st.Val, n.ctx}) == g.psym(1) {
					if nm, fl, b, ok := g.fieldOf(VC{st.Addr, n.ctx}); ok && nm.Obj() == T.Obj() && g.sym(b) == g.psym(0) {
						kept[fl] = true
					}
				}
			}
			if len(kept) == 0 {
				stores := 0
				for _, n := range g.nodes {
					if isCallNode(n) && len(n.callees) == 0 {
						stores++
					}
					if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr {
						if nm, _, b, ok := g.fieldOf(VC{st.Addr, n.ctx}); ok && nm.Obj() == T.Obj() && g.sym(b) == g.psym(0) {
							stores++
						}
					}
				}
				if stores == 0 {
					c.failF("set|"+fnName(s), s, "what is set is not kept")
				} else {
					c.undecided(fnName(s))
				}
				continue
			}
			c.track(g, g.entry, &track{key: "set|" + fnName(s), once: true,
				ev: func(g *Graph, n *Node) []int {
					if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr {
						if nm, fl, b, ok := g.fieldOf(VC{st.Addr, n.ctx}); ok && nm.Obj() == T.Obj() && g.sym(b) == g.psym(0) && kept[fl] {
							return []int{0}
						}
					}
					return nil
				},
				on: func(g *Graph, n *Node, i int, m marks) string {
					if g.sym(VC{n.instr.(*ssa.Store).Val, n.ctx}) != g.psym(1) {
						return "what is set is replaced by something else"
					}
					return ""
				},
				end: func(g *Graph, n *Node, m marks) string {
					if normalEnd(n) && n.kind == KExit && !m.has(0) {
						return "a path through the setter does not keep what is set"
					}
					return ""
				}})
			if gt == nil {
				continue
			}
			gg := c.graph(gt, nil)
			for _, n := range gg.nodes {
				ret, ok := n.instr.(*ssa.Return)
				if !ok || n.kind != KInstr || n.ctx != gg.root || len(ret.Results) != 1 {
					continue
				}
				nm, fl, b, ok := gg.fieldOf(gg.trace(VC{ret.Results[0], n.ctx}))
				switch {
				case !ok || nm.Obj() != T.Obj() || gg.sym(b) != gg.psym(0):
					c.undecided(n.posn(c.P) + " " + fnName(gt))
				case kept[fl]:
					c.okN(n)
				default:
					c.failN("get|"+fnName(gt), n, "the getter returns field "+fl+", which its setter does not set")
				}
			}
		}
	}
}

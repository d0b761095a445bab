package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C14", func(c *C) {
		T := c.needType("znet", "Request")
		if T == nil {
			return
		}
		c.Rule("fresh", "Every field of a request that is handed out, from the pool or not, is set to what a new request has: the given connection and message, the first step, and nothing of an earlier use")
		requestFresh(c, T)
		c.atLeast(3, "ways to obtain a request")
		c.Rule("release", "The library does not use a request after giving it back or handing it to a worker, gives it back at most once, and not while a goroutine it started still uses it")
		requestRelease(c, T)
		c.atLeast(4, "hand-overs and releases")
		c.Rule("copy", "A copy is an object of its own with a message of its own and a map of its own that holds every key; it has no connection, router or handlers")
		requestCopy(c, T)
		c.atLeast(3, "parts of a copy")
		c.Rule("keys", "The keys of a request are accessed only under its lock by the methods a handler calls")
		requestKeys(c, T)
		c.atLeast(3, "accesses to keys")
	})
}

func isPoolCall(g *Graph, n *Node, m string) bool {
	if g.callName(n) != "(*sync.Pool)."+m {
		return false
	}
	s := g.argSym(n, 0)
	return strings.Contains(s, "RequestPool")
}

// requestWant says what a field of a request handed out must hold.
func requestWant(c *C, f, conn, msg string) (want []string, skip bool) {
	switch f {
	case "conn":
		return []string{conn}, false
	case "msg":
		return []string{msg}, false
	case "needNext":
		return []string{"#true"}, false
	case "index":
		return []string{"#-1"}, false
	case "stepLock", "BaseRequest":
		return nil, true
	case "steps":
		if v, ok := pkgConst(c, "znet", "PRE_HANDLE"); ok {
			return []string{zeroSym(fmt.Sprintf("#%d", v))}, false
		}
	}
	return []string{"0"}, false
}

func requestFresh(c *C, T *types.Named) {
	judge := func(g *Graph, n *Node, key, obj, conn, msg string, s ostate, at map[string]string) {
		for _, f := range fieldNames(T) {
			want, skip := requestWant(c, f, conn, msg)
			if skip {
				continue
			}
			got, ok := s.f[obj+"|"+f]
			if !ok && at != nil {
				got, ok = at[f]
			}
			switch {
			case !ok:
				c.failN("stale|"+f+"|"+key, n, fmt.Sprintf("the request handed out still has the %s of its previous use", f))
			case contains(want, got):
				c.okN(n)
			case f == "keys" && (strings.Contains(got, "makemap") || strings.Contains(got, "map[")):
				c.okN(n)
			case strings.HasPrefix(got, "#") || strings.HasPrefix(got, "P") || got == "0" || strings.HasPrefix(got, obj+"."):
				c.failN("value|"+f+"|"+key, n, fmt.Sprintf("the %s of the request handed out is %s, not %s", f, got, want[0]))
			default:
				c.undecided(n.posn(c.P) + " " + f + "=" + got)
			}
		}
	}
	// what Reset leaves behind
	reset := map[string]string{}
	if f := c.needMethod("znet", "Request", "Reset"); f != nil {
		g := c.graph(f, nil)
		first := true
		c.objPaths(g, T, nil, func(n *Node, s ostate, e env) (ostate, bool) {
			if _, ok := n.instr.(*ssa.Return); ok && n.kind == KInstr && n.ctx == g.root {
				judge(g, n, fnName(f), "P0@0", g.psym(1), g.psym(2), s, nil)
				cur := map[string]string{}
				for _, fl := range fieldNames(T) {
					if v, ok := s.f["P0@0|"+fl]; ok {
						switch v {
						case g.psym(1):
							v = "$1"
						case g.psym(2):
							v = "$2"
						}
						cur[fl] = v
					}
				}
				if first {
					reset, first = cur, false
				} else {
					for k, v := range reset {
						if cur[k] != v {
							delete(reset, k)
						}
					}
				}
			}
			return s, true
		}, nil, nil)
	}
	sum := map[string]map[string]string{"Reset": reset}
	// what a request in the pool holds: what every release leaves in it, and the
	// pool's constructor puts in it
	var pooled map[string]string
	meet := func(m map[string]string) {
		if pooled == nil {
			pooled = m
			return
		}
		for k, v := range pooled {
			if m[k] != v {
				delete(pooled, k)
			}
		}
	}
	gets := 0
	for _, f := range c.P.AllFuncs {
		if fnRel(f) != "znet" || f.Blocks == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil {
					continue
				}
				switch ci.Common().StaticCallee().String() {
				case "(*sync.Pool).Put":
					g := c.graph(f, nil)
					c.objPaths(g, T, sum, func(n *Node, s ostate, e env) (ostate, bool) {
						if n.instr == in && n.ctx == g.root && isPoolCall(g, n, "Put") && !s.has(1) {
							v, _ := g.arg(n, 1)
							_, o := g.objOf(v, e)
							m := map[string]string{}
							for _, fl := range fieldNames(T) {
								if x, ok := s.f[o+"|"+fl]; ok {
									m[fl] = x
								}
							}
							meet(m)
						}
						return s, true
					}, func(n *Node, s ostate, at []Atom) (ostate, bool) {
						if t, _, holds, ok := typeTest(g, at); ok && !holds && typeIs(derefT(t), "Request") {
							s.marks = s.marks.set(1)
							s.marks.twice = 0
						}
						return s, true
					}, nil)
				case "(*sync.Pool).Get":
					gets++
				}
			}
		}
	}
	for _, nm := range []string{"GetRequest", "NewRequest"} {
		f := c.needFunc("znet", nm)
		if f == nil {
			continue
		}
		g := c.graph(f, nil)
		c.objPaths(g, T, sum, func(n *Node, s ostate, e env) (ostate, bool) {
			if ret, ok := n.instr.(*ssa.Return); ok && n.kind == KInstr && n.ctx == g.root && len(ret.Results) == 1 {
				w, o := g.objOf(VC{ret.Results[0], n.ctx}, e)
				var at map[string]string
				if call, ok := w.v.(*ssa.Call); ok && calleeName(call) == "(*sync.Pool).Get" {
					at = pooled
				}
				judge(g, n, nm, o, g.psym(0), g.psym(1), s, at)
			}
			return s, true
		}, nil, nil)
	}
	if gets > 1 {
		c.undecided("pooled requests are taken in several places")
	}
}

func requestRelease(c *C, T *types.Named) {
	isReq := func(v VC, g *Graph) bool {
		t := v.v.Type()
		if typeIs(t, "IRequest") || typeIs(t, "IcReq") {
			return true
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return typeIs(p.Elem(), "Request") || typeIs(t, "Request")
		}
		return false
	}
	// event of a node on a request: "put", "hand", "use"
	event := func(g *Graph, n *Node, e env) (kind, obj string, v VC) {
		if n.kind != KInstr && n.kind != KDeferCall || n.instr == nil {
			return
		}
		if snd, ok := n.instr.(*ssa.Send); ok {
			x := VC{snd.X, n.ctx}
			if isReq(x, g) {
				w, o := g.objOf(x, e)
				return "hand", o, w
			}
			return
		}
		if sel, ok := n.instr.(*ssa.Select); ok {
			for _, st := range sel.States {
				if st.Dir == types.SendOnly && isReq(VC{st.Send, n.ctx}, g) {
					w, o := g.objOf(VC{st.Send, n.ctx}, e)
					return "hand", o, w
				}
			}
			return
		}
		ci, ok := n.instr.(ssa.CallInstruction)
		if !ok {
			return
		}
		cc := ci.Common()
		if isPoolCall(g, n, "Put") {
			x, _ := g.arg(n, 1)
			w, o := g.objOf(x, e)
			return "put", o, w
		}
		if _, isgo := ci.(*ssa.Go); isgo {
			for i := 0; ; i++ {
				x, ok := g.arg(n, i)
				if !ok {
					break
				}
				if isReq(x, g) {
					w, o := g.objOf(x, e)
					return "hand", o, w
				}
			}
			// a closure that works on a captured request
			if mc, ok := g.trace(VC{cc.Value, n.ctx}).v.(*ssa.MakeClosure); ok {
				for _, b := range mc.Bindings {
					bv := VC{b, g.trace(VC{cc.Value, n.ctx}).c}
					if p, ok := b.Type().Underlying().(*types.Pointer); ok && (typeIs(p.Elem(), "IRequest") || typeIs(p.Elem(), "Request")) {
						if al, ok := b.(*ssa.Alloc); ok {
							var st *ssa.Store
							for _, r := range *al.Referrers() {
								if s, ok := r.(*ssa.Store); ok && s.Addr == al {
									st = s
								}
							}
							if st != nil {
								w, o := g.objOf(VC{st.Val, bv.c}, e)
								return "hand", o, w
							}
						}
					}
					if isReq(bv, g) {
						w, o := g.objOf(bv, e)
						return "hand", o, w
					}
				}
			}
			return
		}
		if !isCallNode(n) {
			return
		}
		if cc.IsInvoke() {
			nm := cc.Method.Name()
			x := VC{cc.Value, n.ctx}
			if isReq(x, g) {
				w, o := g.objOf(x, e)
				return "use", o, w
			}
			if len(n.callees) == 0 && (calleeIface(cc) == "IMsgHandle" && (nm == "Execute" || nm == "SendMsgToTaskQueue")) {
				a, _ := g.arg(n, 1)
				w, o := g.objOf(a, e)
				return "hand", o, w
			}
			return
		}
		if sc := cc.StaticCallee(); sc != nil && sc.Signature.Recv() != nil && len(cc.Args) > 0 && isReq(VC{cc.Args[0], n.ctx}, g) {
			w, o := g.objOf(VC{cc.Args[0], n.ctx}, e)
			return "use", o, w
		}
		return
	}
	interesting := func(g *Graph, n *Node) bool {
		k, _, _ := event(g, n, env{})
		return k == "put" || k == "hand"
	}
	c.rootsReaching([]string{"znet", "zasync_op"}, nil, interesting, func(g *Graph, hits []*Node) {
		key := fnName(g.root.fn)
		if g.root.fn.Name() == "PutRequest" {
			// the release itself: exactly one put of the given request per path
			c.track(g, g.entry, &track{key: key, ev: func(g *Graph, n *Node) []int {
				if isPoolCall(g, n, "Put") {
					return []int{0}
				}
				return nil
			}, on: func(g *Graph, n *Node, i int, m marks) string {
				if m.has(0) {
					return "a request is given back twice"
				}
				return ""
			}})
			return
		}
		starts := []*Node{g.entry}
		for _, s := range g.spawns {
			starts = append(starts, s.entry)
		}
		for _, start := range starts {
			r := &Rule{Init: marks{}}
			bad := map[string]bool{}
			r.NodeE = func(g *Graph, n *Node, a Auto, e env) Auto {
				m := a.(marks)
				// a value computed anew denotes another request
				if v, ok := n.instr.(ssa.Value); ok && n.kind == KInstr && m.x != "" {
					var keep []string
					id := vkey(VC{v, n.ctx})
					for _, x := range strings.Split(m.x, "\x01") {
						if !strings.HasSuffix(x, id) {
							keep = append(keep, x)
						}
					}
					m.x = strings.Join(keep, "\x01")
				}
				k, o, w := event(g, n, e)
				if k == "" {
					return m
				}
				was := ""
				for _, x := range strings.Split(m.x, "\x01") {
					if p := strings.Split(x, "\x02"); len(p) == 3 && p[1] == o {
						was = p[0]
					}
				}
				rep := func(why string) Auto {
					if !bad[why+n.posn(g.P)] {
						bad[why+n.posn(g.P)] = true
						c.failN(why+"|"+fnName(n.fn()), n, why)
					}
					return nil
				}
				switch {
				case was == "put" && k == "put":
					return rep("a request is given back to the pool twice")
				case was == "put":
					return rep("a request is used after it was given back to the pool")
				case was == "hand" && k == "put":
					return rep("a request is given back to the pool although it was handed on")
				case was == "hand" && k == "hand":
					return rep("a request is handed on twice")
				case was == "hand":
					return rep("a request is used after it was handed on")
				}
				if k != "use" {
					c.okN(n)
					def := ""
					switch x := w.v.(type) {
					case *ssa.Extract:
						def = vkey(VC{x.Tuple, w.c})
					case ssa.Value:
						def = vkey(VC{x, w.c})
					}
					ent := k + "\x02" + o + "\x02" + def
					if m.x == "" {
						m.x = ent
					} else {
						m.x += "\x01" + ent
					}
				}
				return m
			}
			c.run(g, start, r)
		}
	})
}

func requestCopy(c *C, T *types.Named) {
	f := c.needMethod("znet", "Request", "Copy")
	if f == nil {
		return
	}
	g := c.graph(f, nil)
	key := fnName(f)
	// the copying loop: every key read is written before the next is read
	full := map[string]bool{} // destination map sym -> filled from r.keys on every round
	keysSrc := "P0@0.keys"
	for _, n := range g.nodes {
		rg, ok := n.instr.(*ssa.Range)
		if !ok || n.kind != KInstr || g.sym(VC{rg.X, n.ctx}) != keysSrc {
			continue
		}
		for _, r := range *rg.Referrers() {
			nx, ok := r.(*ssa.Next)
			if !ok {
				continue
			}
			for _, m := range g.nodes {
				mu, ok := m.instr.(*ssa.MapUpdate)
				if !ok || m.kind != KInstr {
					continue
				}
				k, okk := g.trace(VC{mu.Key, m.ctx}).v.(*ssa.Extract)
				v, okv := g.trace(VC{mu.Value, m.ctx}).v.(*ssa.Extract)
				if !okk || !okv || k.Tuple != ssa.Value(nx) || k.Index != 1 || v.Tuple != ssa.Value(nx) || v.Index != 2 {
					continue
				}
				if m.ctx != n.ctx {
					c.undecided(m.posn(c.P))
					continue
				}
				// the body entered with ok must pass the update before the next round
				body := bodyOfNext(nx)
				if body == nil {
					c.undecided(m.posn(c.P))
					continue
				}
				if (mu.Block() == body || !reachesAvoiding(body, nx.Block(), mu.Block())) && !leavesLoop(body, nx.Block()) {
					full[g.sym(VC{mu.Map, m.ctx})] = true
				} else {
					c.failN("some|"+key, m, "not every key of the request is copied")
				}
			}
		}
	}
	for _, n := range g.nodes {
		switch g.callName(n) {
		case "maps.Copy":
			if g.argSym(n, 1) == keysSrc {
				full[g.argSym(n, 0)] = true
			}
		case "maps.Clone":
			if g.argSym(n, 0) == keysSrc {
				full[g.sym(VC{n.instr.(ssa.Value), n.ctx})] = true
			}
		}
	}
	c.objPaths(g, T, nil, func(n *Node, s ostate, e env) (ostate, bool) {
		if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr {
			if _, fn, b, ok := g.fieldOf(VC{st.Addr, n.ctx}); ok && g.sym(b) == "P0@0" && typeIs(derefT(b.v.Type()), "Request") {
				c.failN("original|"+fn, n, "copying changes the original")
			}
		}
		ret, ok := n.instr.(*ssa.Return)
		if !ok || n.kind != KInstr || n.ctx != g.root {
			return s, true
		}
		w, o := g.objOf(VC{ret.Results[0], n.ctx}, e)
		if _, fresh := w.v.(*ssa.Alloc); !fresh {
			if o == "P0@0" {
				c.failN("same", n, "the copy is the original")
			} else {
				c.undecided(n.posn(c.P) + " " + o)
			}
			return s, true
		}
		for _, fl := range fieldNames(T) {
			got := s.f[o+"|"+fl]
			switch fl {
			case "conn", "router", "handlers":
				if got != "0" {
					c.failN("shares|"+fl, n, "the copy shares the "+fl+" of the original")
				} else {
					c.okN(n)
				}
			case "keys":
				switch {
				case got == keysSrc:
					c.failN("shares|keys", n, "the copy shares the keys of the original")
				case got == "0":
					if !s.has(0) {
						c.failN("nokeys", n, "the copy does not have the keys of the original")
					}
				case full[got], full[o+".keys"]:
					c.okN(n)
				default:
					if len(full) > 0 {
						c.undecided(n.posn(c.P) + " keys=" + got)
					} else {
						c.failN("nokeys", n, "the copy does not have the keys of the original")
					}
				}
			case "msg":
				switch {
				case got == "P0@0.msg":
					c.failN("shares|msg", n, "the copy shares the message of the original")
				case got == "0":
					c.failN("nomsg", n, "the copy has no message")
				default:
					copyMsg(c, g, got)
				}
			case "icResp":
				if got != "P0@0.icResp" && got != "P0@0.GetResponse()" {
					c.failN("resp", n, "the copy does not have the response of the original")
				} else {
					c.okN(n)
				}
			}
		}
		return s, true
	}, func(n *Node, s ostate, at []Atom) (ostate, bool) {
		for _, a := range at {
			if v, isnil, ok := a.nilness(); ok && isnil && g.sym(v) == keysSrc {
				s.marks = s.marks.set(0)
				s.marks.twice = 0
			}
			if l, ok := lenArg(g, a.X); ok && g.sym(l) == keysSrc && isZeroLen(a) {
				s.marks = s.marks.set(0)
				s.marks.twice = 0
			}
		}
		return s, true
	}, nil)
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// copyMsg: the message made for a copy has the identifier, length and bytes of
// the original's.
func copyMsg(c *C, g *Graph, obj string) {
	M := c.needType("zpack", "Message")
	if M == nil {
		return
	}
	want := map[string][]string{"ID": {"GetMsgID()", ".ID"}, "DataLen": {"GetDataLen()", ".DataLen", "len("}, "Data": {"GetRawData()", "GetData()", ".rawData", ".Data"}}
	found := false
	for _, n := range g.nodes {
		st, ok := n.instr.(*ssa.Store)
		if !ok || n.kind != KInstr {
			continue
		}
		nm, fn, b, ok := g.fieldOf(VC{st.Addr, n.ctx})
		if !ok || nm.Obj() != M.Obj() || g.sym(b) != obj {
			continue
		}
		w, ok := want[fn]
		if !ok {
			continue
		}
		found = true
		v := g.sym(VC{st.Val, n.ctx})
		good := false
		for _, x := range w {
			if strings.Contains(v, x) && strings.Contains(v, "P0@0") {
				good = true
			}
		}
		switch {
		case good:
			c.okN(n)
		case strings.Contains(v, "P0@0") || strings.HasPrefix(v, "#"):
			c.failN("msg|"+fn, n, "the "+fn+" of the copied message is "+v)
		default:
			c.undecided(n.posn(c.P) + " " + v)
		}
	}
	if !found {
		c.undecided("message of a copy: " + obj)
	}
}

// bodyOfNext is the block entered when a map iteration has another element.
func bodyOfNext(nx *ssa.Next) *ssa.BasicBlock {
	for _, r := range *nx.Referrers() {
		ex, ok := r.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			continue
		}
		for _, u := range *ex.Referrers() {
			if i, ok := u.(*ssa.If); ok {
				return i.Block().Succs[0]
			}
		}
	}
	return nil
}

// leavesLoop: control can leave the loop from body other than through its head.
func leavesLoop(body, head *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{head: true}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if !reachesBlock(x, head) {
			return true
		}
		for _, s := range x.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(body)
}

func requestKeys(c *C, T *types.Named) {
	fk := c.needField(T, "keys", "map[string]interface{}")
	if fk == "" {
		return
	}
	lp := lockWorldOf(c).lp
	c.guarded(lp, T, fk, func(a access) string {
		for x := a.n.ctx; x != nil; x = x.parent {
			switch x.fn.Name() {
			case "Reset", "GetRequest", "PutRequest", "NewRequest":
				return "the pool hands a request to one user at a time"
			}
		}
		return ""
	})
}

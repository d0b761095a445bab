package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// contained: a call that runs user code the property speaks of.
func contained(g *Graph, n *Node) bool {
	if !userCall(g, n) {
		return false
	}
	cc := n.instr.(ssa.CallInstruction).Common()
	if cc.IsInvoke() && (cc.Method.Name() == "GetLengthField" || calleeIface(cc) == "IDataPack") {
		return false
	}
	if fs, known := carried(g.P, VC{cc.Value, n.ctx}); known && !cc.IsInvoke() && len(fs) > 0 {
		return false // the closures sent on that channel are judged themselves
	}
	if nt, ok := cc.Value.Type().(*types.Named); ok && !cc.IsInvoke() {
		switch nt.Obj().Name() {
		case "HeartBeatMsgFunc", "HeartBeatFunc", "OnRemoteNotAlive":
			return false
		}
	}
	return true
}

func calleeIface(cc *ssa.CallCommon) string {
	if nt, ok := cc.Value.Type().(*types.Named); ok {
		return nt.Obj().Name()
	}
	return ""
}

// carried: the function value is received from a channel kept in a field, and
// everything the library sends on that channel is a closure of its own.
func carried(P *Program, v VC) ([]*ssa.Function, bool) {
	ch := recvChan(v.v)
	if ch == nil {
		return nil, false
	}
	T, f, ok := plainField(ch)
	if !ok {
		return nil, false
	}
	var out []*ssa.Function
	for _, fn := range P.AllFuncs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var c, val ssa.Value
				switch x := in.(type) {
				case *ssa.Send:
					c, val = x.Chan, x.X
					if t, fl, ok := plainField(c); ok && t == T && fl == f {
						fs, ok := funcValues(val, 0)
						if !ok {
							return nil, false
						}
						out = append(out, fs...)
					}
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.SendOnly {
							if t, fl, ok := plainField(s.Chan); ok && t == T && fl == f {
								fs, ok := funcValues(s.Send, 0)
								if !ok {
									return nil, false
								}
								out = append(out, fs...)
							}
						}
					}
				}
			}
		}
	}
	return out, true
}

func recvChan(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return x.X
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.UnOp:
			if t.Op == token.ARROW {
				return t.X
			}
		case *ssa.Select:
			i := x.Index - 2
			for _, s := range t.States {
				if s.Dir == types.RecvOnly {
					if i == 0 {
						return s.Chan
					}
					i--
				}
			}
		}
	case *ssa.Phi:
		var r ssa.Value
		for _, e := range x.Edges {
			c := recvChan(e)
			if c == nil {
				return nil
			}
			r = c
		}
		return r
	}
	return nil
}

// plainField: the value is a load of a field, without any context.
func plainField(v ssa.Value) (types.Object, string, bool) {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return nil, "", false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return nil, "", false
	}
	_, nm := structOf(fa.X.Type())
	if nm == nil {
		return nil, "", false
	}
	return nm.Obj(), fieldName(fa.X.Type(), fa.Field), true
}

// funcValues: the repository functions a function value may be.
func funcValues(v ssa.Value, d int) ([]*ssa.Function, bool) {
	if d > 6 {
		return nil, false
	}
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{x}, fnInRepo(x)
	case *ssa.MakeClosure:
		f, _ := x.Fn.(*ssa.Function)
		return []*ssa.Function{f}, f != nil
	case *ssa.ChangeType:
		return funcValues(x.X, d+1)
	case *ssa.Phi:
		var out []*ssa.Function
		for _, e := range x.Edges {
			fs, ok := funcValues(e, d+1)
			if !ok {
				return nil, false
			}
			out = append(out, fs...)
		}
		return out, true
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || !fnInRepo(f) || len(f.Blocks) == 0 {
			return nil, false
		}
		var out []*ssa.Function
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				fs, ok := funcValues(r.Results[0], d+1)
				if !ok {
					return nil, false
				}
				out = append(out, fs...)
			}
		}
		return out, len(out) > 0
	}
	return nil, false
}

// panicPath follows a panic of user code: x holds where it was raised while it
// unwinds.
func panicStep(g *Graph, n *Node, x string) string {
	switch {
	case contained(g, n):
		return "?" + n.posn(g.P) + " " + g.callName(n)
	case n.kind == KRecovered:
		return ""
	case n.kind == KPanicking:
		if len(x) > 0 && x[0] == '?' {
			return "!" + x[1:]
		}
		return x
	}
	if len(x) > 0 && x[0] == '?' {
		return ""
	}
	return x
}

func init() {
	register("C08", func(c *C) {
		pol := func() *Policy {
			return &Policy{Dispatch: true, MaxImpls: 3, MayPanic: contained, Only: map[string]string{"IRequest": "Request"}}
		}
		c.Rule("contained", "From the entry of every goroutine the library starts, no panic of a user callback (router, handler, interceptor, decoder, packer, hook, close, timer or asynchronous callback) unwinds past the goroutine's first frame")
		done := map[*ssa.Function]bool{}
		var sent []*ssa.Function
		judge := func(g *Graph, entry *Node, what *ssa.Function) {
			bad := map[string]bool{}
			r := &Rule{Init: marks{}}
			r.Node = func(g *Graph, n *Node, a Auto) Auto {
				m := a.(marks)
				m.x = panicStep(g, n, m.x)
				if isCallNode(n) {
					if fs, known := carried(g.P, VC{n.instr.(ssa.CallInstruction).Common().Value, n.ctx}); known {
						sent = append(sent, fs...)
					}
				}
				return m
			}
			r.End = func(g *Graph, nd *Node, a Auto, w func() []string) {
				m := a.(marks)
				if nd.kind == KPanicRoot && len(m.x) > 0 && m.x[0] == '!' && !bad[m.x] {
					bad[m.x] = true
					c.fail("escapes|"+fnName(what), m.x[1:], fnName(what), "a panic raised by "+m.x[1:]+" ends the goroutine and with it the process: no frame recovers it", w()...)
				}
			}
			c.run(g, entry, r)
			if len(bad) == 0 {
				c.ok(fnName(what))
			}
		}
		for _, f := range c.P.Roots() {
			if fnRel(f) == "zlog" {
				continue
			}
			g := c.graph(f, pol())
			for _, s := range g.spawns {
				if done[s.fn] && s.fn.Parent() == nil {
					continue // the same function started again: once is enough
				}
				done[s.fn] = true
				if sf := s.site.Common().StaticCallee(); sf != nil && sf.Pkg != nil && sf.Pkg.Pkg.Path() == "net/http" {
					continue // the HTTP server recovers what its handlers raise
				}
				judge(g, s.entry, s.fn)
			}
		}
		for i := 0; i < len(sent); i++ {
			if f := sent[i]; !done[f] {
				done[f] = true
				g := c.graph(f, pol())
				judge(g, g.entry, f)
			}
		}
		c.atLeast(10, "goroutines")
		c.Rule("survives", "A worker's loop is never left because a request's handler panicked: the panic is recovered below the frame of the loop")
		var loops []*ssa.Function
		if f := c.needMethod("znet", "MsgHandle", "StartOneWorker"); f != nil {
			loops = append(loops, f)
		}
		if T := c.P.Type("zasync_op", "AsyncWorker"); T != nil {
			for _, f := range c.P.AllFuncs {
				if fnRel(f) == "zasync_op" && isLoopOver(f) {
					loops = append(loops, f)
				}
			}
		}
		for _, f := range loops {
			g := c.graph(f, pol())
			bad := map[string]bool{}
			r := &Rule{Init: marks{}}
			r.Node = func(g *Graph, n *Node, a Auto) Auto {
				m := a.(marks)
				m.x = panicStep(g, n, m.x)
				if n.kind == KPanicking && n.ctx == g.root && len(m.x) > 0 && m.x[0] == '!' && !bad[m.x] {
					bad[m.x] = true
					c.fail("worker|"+fnName(f), m.x[1:], fnName(f), "a panic raised by "+m.x[1:]+" ends the worker's loop: the requests behind it are never served")
				}
				return m
			}
			c.run(g, g.entry, r)
			if len(bad) == 0 {
				c.ok(fnName(f))
			}
		}
		c.atLeast(2, "worker loops")
	})
}

// isLoopOver: the function receives from a channel inside a loop.
func isLoopOver(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			recv := false
			switch x := in.(type) {
			case *ssa.UnOp:
				_, isch := x.X.Type().Underlying().(*types.Chan)
				recv = isch
			case *ssa.Select:
				recv = true
			}
			if recv && inLoop(b) {
				return true
			}
		}
	}
	return false
}

// inLoop: the block can reach itself.
func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return false
}

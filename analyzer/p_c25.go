package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25", func(c *C) {
		TW := c.needType("ztimer", "TimeWheel")
		TS := c.needType("ztimer", "TimerScheduler")
		TM := c.needType("ztimer", "Timer")
		DF := c.needType("ztimer", "DelayFunc")
		if TW == nil || TS == nil || TM == nil || DF == nil {
			return
		}
		w := &wheelT{TW: TW, TS: TS, TM: TM, DF: DF}
		w.queue = c.needField(TW, "timerQueue", "map[int]map[uint32]*github.com/aceld/zinx/ztimer.Timer")
		w.cur = c.needField(TW, "curIndex", "")
		w.scales = c.needField(TW, "scales", "")
		w.interval = c.needField(TW, "interval", "int64")
		w.next = c.needField(TW, "nextTimeWheel", "*github.com/aceld/zinx/ztimer.TimeWheel")
		w.due = c.needField(TM, "unixts", "int64")
		w.fn = c.needField(TM, "delayFunc", "*github.com/aceld/zinx/ztimer.DelayFunc")
		if w.queue == "" || w.cur == "" || w.scales == "" || w.interval == "" || w.next == "" || w.due == "" || w.fn == "" {
			return
		}
		lp := lockWorldOf(c).lp
		c.Rule("guarded", "A wheel's slots and position, and the scheduler's identifier counter, are used only under their own lock, exclusively for changes")
		c.guarded(lp, TW, w.queue, nil)
		c.guarded(lp, TW, w.cur, nil)
		if f := c.fieldLike(TS, "IDGen", "uint32"); f != "" {
			c.guarded(lp, TS, f, nil)
		}
		c.atLeast(12, "accesses to wheel state")
		c.Rule("place", "Adding a timer puts it, under its own identifier, in exactly one existing slot of the wheel or hands it once to the next finer wheel; the slot is the current one, the next, or as many slots ahead as whole intervals remain, and a timer due within one interval stays only on the finest wheel")
		w.place(c)
		c.atLeast(3, "placements")
		c.Rule("rotate", "In one critical section a turning wheel empties its current slot and the next one and puts every timer found there back, and then moves on by exactly one slot")
		w.rotate(c)
		c.atLeast(6, "steps of a turn")
		c.Rule("take", "A timer is handed out exactly if it is due and in the current slot of the finest wheel, under its own identifier, and is removed from the slot by the same step")
		w.take(c)
		c.atLeast(2, "timers handed out")
		c.Rule("cancel", "Cancelling removes the identifier from every slot of every wheel, from the coarsest to the finest")
		w.cancel(c)
		c.atLeast(2, "removals")
		c.Rule("schedule", "Every created timer has a new identifier, under which it is added and which is returned, and carries the given function and time")
		w.schedule(c)
		c.atLeast(2, "created timers")
		c.Rule("fire", "Every timer handed out has its function sent once to the trigger channel, and every function received from it is called once with its arguments")
		w.fire(c)
		c.atLeast(3, "fired functions")
		c.Rule("wheels", "A scheduler's wheels are chained from the coarsest to the finest, one turn of each spanning one slot of the one before, and every wheel is set turning once")
		w.wiring(c)
		c.atLeast(2, "wheels")
	})
}

type wheelT struct {
	TW, TS, TM, DF                     *types.Named
	queue, cur, scales, interval, next string
	due, fn                            string
	rem, quo                           map[string][2]lin
}

func (w *wheelT) pol(keep ...string) *Policy {
	return &Policy{Inline: func(f *ssa.Function) bool {
		return defaultInline(f) && fnRel(f) == "ztimer" && !contains(keep, f.Name())
	}}
}

// isSlot: the value is one of a wheel's slots; look is the lookup that gave it.
func (w *wheelT) isSlot(g *Graph, v VC) (look VC, ok bool) {
	x := g.trace(v)
	if ex, isx := x.v.(*ssa.Extract); isx && ex.Index == 0 {
		x = VC{ex.Tuple, x.c}
	}
	if ex, isx := x.v.(*ssa.Extract); isx {
		if nx, isn := ex.Tuple.(*ssa.Next); isn && ex.Index == 2 {
			if r, isr := nx.Iter.(*ssa.Range); isr && g.isField(VC{r.X, x.c}, w.TW, w.queue) {
				return x, true
			}
		}
	}
	l, isl := x.v.(*ssa.Lookup)
	if !isl || !g.isField(VC{l.X, x.c}, w.TW, w.queue) {
		return VC{}, false
	}
	return x, true
}

// slot: how far ahead of the current slot an index is.
func (w *wheelT) slot(l lin) (rest lin, wrapped, ok bool) {
	cur := lv("cur@0")
	if l.eq(cur) {
		return lin{}, true, true
	}
	if len(l) == 1 {
		for k, n := range l {
			if r, isr := w.rem[k]; isr && n == 1 {
				if !strings.HasSuffix(r[1].String(), "."+w.scales) {
					return nil, false, true
				}
				d := r[0].minus(cur)
				if _, has := d["cur@0"]; has {
					return nil, false, false
				}
				return d, true, true
			}
		}
	}
	d := l.minus(cur)
	if _, has := d["cur@0"]; !has && l["cur@0"] == 1 {
		return d, false, true
	}
	return nil, false, false
}

// ops records divisions and remainders so that slots can be read back.
func (w *wheelT) ops(t *numT, n *Node, s nstate) {
	if w.rem == nil {
		w.rem, w.quo = map[string][2]lin{}, map[string][2]lin{}
	}
	b, ok := n.instr.(*ssa.BinOp)
	if !ok || n.kind != KInstr || !isInt(b.Type()) {
		return
	}
	x, y := t.val(VC{b.X, n.ctx}, s), t.val(VC{b.Y, n.ctx}, s)
	switch b.Op {
	case token.REM:
		w.rem["rem("+x.String()+","+y.String()+")"] = [2]lin{x, y}
	case token.QUO:
		w.quo["quo("+x.String()+","+y.String()+")"] = [2]lin{x, y}
	}
}

func (w *wheelT) num(g *Graph) *numT {
	return &numT{watch: func(a VC) string {
		if g.isFieldAddr(a, w.TW, w.cur) {
			return "cur"
		}
		return ""
	}}
}

// putNode: the node puts a timer in a slot, or hands it to another wheel.
func (w *wheelT) putNode(g *Graph, n *Node) (op string, look, key, val, wheel VC) {
	if mu, ok := n.instr.(*ssa.MapUpdate); ok && n.kind == KInstr {
		if l, ok := w.isSlot(g, VC{mu.Map, n.ctx}); ok {
			return "slot", l, VC{mu.Key, n.ctx}, VC{mu.Value, n.ctx}, VC{}
		}
	}
	if isCallNode(n) && len(n.callees) == 0 {
		if r, ok := isMethodCall(n, "AddTimer"); ok && typeIs(r.v.Type(), "TimeWheel") {
			k, _ := g.arg(n, 1)
			v, _ := g.arg(n, 2)
			return "forward", VC{}, k, v, r
		}
	}
	return
}

// placed judges one placement; late: the current slot is about to be left.
func (w *wheelT) placed(g *Graph, t *numT, n *Node, s nstate, late bool) (why string, known bool) {
	op, look, _, _, wheel := w.putNode(g, n)
	if op == "forward" {
		if !g.isField(g.trace(wheel), w.TW, w.next) {
			return "the timer is handed to a wheel that is not the next finer one", true
		}
		if s.aux["next"] == "nil" {
			return "the timer is handed to a wheel that does not exist", true
		}
		if s.aux["next"] == "" {
			return "the timer is handed to the next finer wheel without knowing that there is one: on the finest wheel it is lost", true
		}
		return "", true
	}
	l, ok := look.v.(*ssa.Lookup)
	if !ok {
		return "", false
	}
	idx := t.val(VC{l.Index, look.c}, s)
	if a, ok := s.aux["idx:"+vkey(look)]; ok {
		_ = a
	}
	rest, wrapped, ok := w.slot(idx)
	if !ok {
		if k, isc := idx.isConst(); isc {
			_ = k
			return "the timer is put in a slot that has nothing to do with the wheel's position", true
		}
		return "", false
	}
	if rest == nil {
		return "the slot is not taken modulo the number of slots: it need not exist", true
	}
	if !wrapped {
		if rest.zero() {
			wrapped = true
		} else {
			return "the slot is not taken modulo the number of slots: it need not exist", true
		}
	}
	if k, isc := rest.isConst(); isc {
		if k < 0 || k > 1 {
			return "a timer that is due soon is put in a slot that is not visited soon", true
		}
		if late && k == 0 {
			return "a timer still waiting is put back in the slot the wheel is leaving: it is found a whole turn later", true
		}
		if s.aux["next"] != "nil" {
			return "a timer due within one interval is kept on a wheel that is not the finest: it is handed out late or never", true
		}
		return "", true
	}
	if len(rest) == 1 {
		for k, n := range rest {
			q, ok := w.quo[k]
			if !ok || n != 1 {
				continue
			}
			if !strings.HasSuffix(q[1].String(), "."+w.interval) {
				return "the number of slots ahead is not the remaining time in intervals of this wheel", true
			}
			if !w.isDelay(q[0]) {
				return "the number of slots ahead is not made from the remaining time of the timer", true
			}
			if !s.f.nonneg(q[0].minus(q[1])) {
				return "a timer whose time may be less than one interval away (or past) is placed by counting intervals: the slot may be the one just left, or none", true
			}
			return "", true
		}
	}
	for k := range rest {
		if _, ok := w.quo[k]; ok && rest[k] == 1 && len(rest) == 2 && rest[""] != 0 {
			return "the timer is put in another slot than the remaining intervals say", true
		}
	}
	return "", false
}

// isDelay: due time minus now.
func (w *wheelT) isDelay(l lin) bool {
	if len(l) != 2 {
		return false
	}
	pos, neg := "", ""
	for k, n := range l {
		switch {
		case n == 1:
			pos = k
		case n == -1:
			neg = k
		}
	}
	return strings.HasSuffix(pos, "."+w.due) && neg != "" && !strings.HasSuffix(neg, "."+w.due)
}

// nextEdge: the branch decided whether there is a finer wheel.
func (w *wheelT) nextEdge(g *Graph, s nstate, at []Atom) nstate {
	for _, x := range at {
		if v, isnil, ok := x.nilness(); ok && g.isField(g.trace(v), w.TW, w.next) {
			if isnil {
				s = s.setAux("next", "nil")
			} else {
				s = s.setAux("next", "set")
			}
		}
	}
	return s
}

func (w *wheelT) place(c *C) {
	f := c.needMethod("ztimer", "TimeWheel", "AddTimer")
	if f == nil {
		return
	}
	g := c.graph(f, w.pol("AddTimer"))
	t := w.num(g)
	bad := map[string]bool{}
	rep := func(n *Node, why string) {
		if !bad[why] {
			bad[why] = true
			c.failN("place|"+why, n, why)
		}
	}
	c.numPaths(g, g.entry, t, nstate{}, func(n *Node, s nstate, e env) (nstate, bool) {
		w.ops(t, n, s)
		op, _, k, v, _ := w.putNode(g, n)
		if op == "" {
			return s, true
		}
		if s.aux["put"] != "" {
			rep(n, "the timer is placed twice")
			return s, false
		}
		s = s.setAux("put", "1")
		if g.sym(k) != g.psym(1) || g.sym(v) != g.psym(2) {
			rep(n, "something else than the given timer, under its identifier, is placed")
			return s, true
		}
		why, known := w.placed(g, t, n, s, false)
		switch {
		case why != "":
			rep(n, why)
		case !known:
			c.undecided(n.posn(c.P) + " slot")
		default:
			c.okN(n)
		}
		return s, true
	}, func(n *Node, s nstate, at []Atom) (nstate, bool) {
		return w.nextEdge(g, s, at), true
	}, func(n *Node, s nstate, _ func() []string) {
		if normalEnd(n) && n.kind == KExit && s.aux["put"] == "" {
			rep(n, "a path returns without having placed the timer: it never fires")
		}
	})
}

func (w *wheelT) rotate(c *C) {
	f := c.needMethod("ztimer", "TimeWheel", "Run")
	if f == nil {
		return
	}
	g := c.graph(f, w.pol("AddTimer"))
	var entry *Node
	for _, s := range g.spawns {
		if g.subtree(s, func(n *Node) bool {
			st, ok := n.instr.(*ssa.Store)
			return ok && g.isFieldAddr(VC{st.Addr, n.ctx}, w.TW, w.cur)
		}) {
			entry = s.entry
		}
	}
	if entry == nil {
		// perhaps in Run's own flow
		for _, n := range g.nodes {
			if st, ok := n.instr.(*ssa.Store); ok && g.isFieldAddr(VC{st.Addr, n.ctx}, w.TW, w.cur) {
				entry = g.entry
			}
		}
	}
	if entry == nil {
		c.failF("turn", f, "running a wheel never moves its position")
		return
	}
	t := w.num(g)
	bad := map[string]bool{}
	type rp struct {
		n   *Node
		why string
	}
	var reps []rp
	opaque := 0 // slots whose number is not understood
	rep := func(n *Node, why string) {
		if !bad[why] {
			bad[why] = true
			reps = append(reps, rp{n, why})
		}
	}
	defer func() {
		if opaque > 0 {
			c.undecided(fmt.Sprintf("Run: %d uses of slots of unknown number", opaque))
			return
		}
		for _, x := range reps {
			c.failN("rotate|"+x.why, x.n, x.why)
		}
	}()
	okd := map[string]bool{}
	good := func(n *Node, k string) {
		if !okd[k+n.posn(c.P)] {
			okd[k+n.posn(c.P)] = true
			c.okN(n)
		}
	}
	slotName := func(v VC, s nstate) string {
		l := t.val(v, s)
		rest, wrapped, ok := w.slot(l)
		if _, isc := l.isConst(); !ok && !isc && !strings.Contains(l.String(), "cur@0") {
			opaque++
		}
		if !ok || rest == nil || !wrapped && !rest.zero() {
			return "?"
		}
		return rest.String()
	}
	cnst := func(k int64) string { return lc(k).String() }
	drop := func(s nstate, pre string) nstate {
		m := map[string]string{}
		for k, v := range s.aux {
			if !strings.HasPrefix(k, pre) {
				m[k] = v
			}
		}
		s.aux = m
		return s
	}
	c.numPaths(g, entry, t, nstate{}, func(n *Node, s nstate, e env) (nstate, bool) {
		w.ops(t, n, s)
		if lo, ok := g.lockOp(n); ok {
			switch {
			case (lo.op == "Lock" || lo.op == "RLock") && s.aux["in"] == "":
				s.aux = map[string]string{"in": "1"}
				s = s.setCell("cur", lv("cur@0"))
			case !(lo.op == "Lock" || lo.op == "RLock") && s.aux["in"] != "":
				if s.aux["pend"] != "" {
					rep(n, "the lock is released before a timer taken from a slot is back")
					return s, false
				}
				for k := range s.aux {
					if strings.HasPrefix(k, "took:") && s.aux["fresh:"+k[5:]] != "" && s.aux["drained:"+k[5:]] == "" {
						rep(n, "the lock is released before the timers of an emptied slot are back: cancelling can miss them")
						return s, false
					}
				}
				if s.aux["adv"] == "" {
					rep(n, "the lock is released before the wheel has moved on: timers put back in between count from the old slot")
					return s, false
				}
				good(n, "turn")
				return s, false
			}
			return s, true
		}
		// taking a slot
		if l, ok := n.instr.(*ssa.Lookup); ok && n.kind == KInstr && g.isField(VC{l.X, n.ctx}, w.TW, w.queue) {
			nm := slotName(VC{l.Index, n.ctx}, s)
			return s.setAux("look:"+vkey(VC{l, n.ctx}), nm).setAux("took:"+nm, "1"), true
		}
		if mu, ok := n.instr.(*ssa.MapUpdate); ok && n.kind == KInstr && g.isField(VC{mu.Map, n.ctx}, w.TW, w.queue) {
			nm := slotName(VC{mu.Key, n.ctx}, s)
			if _, isnew := g.trace(VC{mu.Value, n.ctx}).v.(*ssa.MakeMap); !isnew {
				c.undecided(n.posn(c.P) + " slot replaced by something else than a new map")
				return s, false
			}
			switch {
			case nm == "?":
				rep(n, "a slot is emptied that is neither the current nor the next one")
			case s.aux["took:"+nm] == "":
				rep(n, "a slot is emptied without its timers having been taken: they are lost")
			case s.aux["begun:"+nm] != "" && s.aux["fresh:"+nm] == "":
				rep(n, "a slot is emptied after its timers were put back: those put back in the same slot are lost")
			default:
				good(n, "fresh")
			}
			return s.setAux("fresh:"+nm, "1"), true
		}
		if op, ok := mapOpOf(n); ok && op.kind == "del" {
			if look, ok := w.isSlot(g, op.m); ok {
				return s.setAux("del:"+s.aux["look:"+vkey(look)], "1"), true
			}
		}
		if src, ok := nextOf(n); ok {
			if look, ok := w.isSlot(g, src); ok {
				nm := s.aux["look:"+vkey(look)]
				if s.aux["pend"] != "" {
					rep(n, "a timer taken from a slot is not put back: it never fires")
					return s, false
				}
				return s.setAux("begun:"+nm, "1").setAux("src", nm), true
			}
		}
		if op, look, k, v, _ := w.putNode(g, n); op != "" {
			if s.aux["pend"] == "" {
				if s.aux["src"] != "" {
					rep(n, "a timer is put back twice")
				}
				return s, false
			}
			nm := s.aux["src"]
			kx, ok1 := g.trace(k).v.(*ssa.Extract)
			vx, ok2 := g.trace(v).v.(*ssa.Extract)
			if !ok1 || !ok2 || kx.Tuple != vx.Tuple || kx.Index != 1 || vx.Index != 2 {
				rep(n, "something else than the timer taken from the slot, under its identifier, is put back")
			}
			if s.aux["fresh:"+nm] == "" && s.aux["del:"+nm] == "" {
				rep(n, "timers are put back while they are still in their old slot: they fire twice")
			}
			_ = look
			why, known := w.placed(g, t, n, s, true)
			switch {
			case why != "":
				rep(n, why)
			case !known:
				c.undecided(n.posn(c.P) + " slot")
			default:
				good(n, "back")
			}
			s = drop(s, "pend")
			s = drop(s, "next")
			return s, true
		}
		if st, ok := n.instr.(*ssa.Store); ok && n.kind == KInstr && g.isFieldAddr(VC{st.Addr, n.ctx}, w.TW, w.cur) {
			nm := slotName(VC{st.Val, n.ctx}, s)
			switch {
			case s.aux["in"] == "":
				rep(n, "the wheel moves on outside its critical section")
			case s.aux["adv"] != "":
				rep(n, "the wheel moves on twice in one turn")
				return s, false
			case nm != cnst(1):
				rep(n, "the wheel does not move on to the next slot (modulo the number of slots)")
			case s.aux["drained:"+cnst(0)] == "":
				rep(n, "the wheel moves on while timers are left in the slot it leaves: they are found a whole turn later")
			case s.aux["drained:"+cnst(1)] == "":
				rep(n, "the wheel moves on without having refined the timers of the slot it enters")
			default:
				good(n, "advance")
			}
			return s.setAux("adv", "1"), true
		}
		return s, true
	}, func(n *Node, s nstate, at []Atom) (nstate, bool) {
		s = w.nextEdge(g, s, at)
		if src, got, ok := gotItem(g, at); ok {
			if look, ok := w.isSlot(g, src); ok {
				nm := s.aux["look:"+vkey(look)]
				if got {
					s = s.setAux("pend", "1")
				} else {
					s = drop(s, "src")
					s = s.setAux("drained:"+nm, "1")
				}
			}
		}
		return s, true
	}, nil)
}

// take: GetTimerWithIn.
func (w *wheelT) take(c *C) {
	f := c.needMethod("ztimer", "TimeWheel", "GetTimerWithIn")
	if f == nil {
		return
	}
	g := c.graph(f, w.pol())
	t := w.num(g)
	bad := map[string]bool{}
	rep := func(n *Node, why string) {
		if !bad[why] {
			bad[why] = true
			c.failN("take|"+why, n, why)
		}
	}
	isItem := func(v VC, i int) bool {
		ex, ok := g.trace(v).v.(*ssa.Extract)
		if !ok || ex.Index != i {
			return false
		}
		nx, ok := ex.Tuple.(*ssa.Next)
		if !ok {
			return false
		}
		_, ok = w.isSlot(g, VC{nx.Iter.(*ssa.Range).X, g.trace(v).c})
		return ok
	}
	settle := func(n *Node, s nstate) (nstate, bool) {
		if s.aux["item"] == "" {
			return s, true
		}
		switch {
		case s.aux["put"] != "" && s.aux["del"] == "":
			rep(n, "a timer is handed out but stays in its slot: it fires again")
			return s, false
		case s.aux["put"] == "" && s.aux["del"] != "":
			rep(n, "a timer is removed from its slot but not handed out: it never fires")
			return s, false
		case s.aux["put"] == "" && s.aux["due"] != "n":
			rep(n, "a due timer is passed over")
			return s, false
		}
		s.aux = map[string]string{"res": s.aux["res"], "leaf": s.aux["leaf"], "done": s.aux["done"]}
		return s, true
	}
	result := map[string]bool{}
	c.numPaths(g, g.entry, t, nstate{}, func(n *Node, s nstate, e env) (nstate, bool) {
		w.ops(t, n, s)
		if src, ok := nextOf(n); ok {
			if look, ok := w.isSlot(g, src); ok {
				var cont bool
				if s, cont = settle(n, s); !cont {
					return s, false
				}
				l := look.v.(*ssa.Lookup)
				_, _, base, _ := g.fieldOf(VC{l.X, look.c})
				idx := t.val(VC{l.Index, look.c}, s)
				if rest, _, ok := w.slot(idx); ok && (rest == nil || !rest.zero()) {
					rep(n, "timers are taken from a slot that is not the current one")
				}
				if s.aux["leaf"] != g.sym(base) {
					rep(n, "timers are taken from a wheel that is not known to be the finest")
				}
			}
		}
		if mu, ok := n.instr.(*ssa.MapUpdate); ok && n.kind == KInstr && isItem(VC{mu.Key, n.ctx}, 1) || ok && n.kind == KInstr && isItem(VC{mu.Value, n.ctx}, 2) {
			if _, isq := w.isSlot(g, VC{mu.Map, n.ctx}); isq {
				rep(n, "a timer is put back while timers are handed out")
				return s, false
			}
			if !isItem(VC{mu.Key, n.ctx}, 1) || !isItem(VC{mu.Value, n.ctx}, 2) {
				rep(n, "a timer is handed out under another identifier than its own")
			}
			if s.aux["due"] != "y" {
				rep(n, "a timer is handed out that is not due")
			}
			result[g.sym(VC{mu.Map, n.ctx})] = true
			c.okN(n)
			return s.setAux("put", "1"), true
		}
		if op, ok := mapOpOf(n); ok && op.kind == "del" {
			if look, isq := w.isSlot(g, op.m); isq {
				if !isItem(op.key, 1) {
					rep(n, "another identifier than that of the timer handed out is removed")
					return s, false
				}
				l := look.v.(*ssa.Lookup)
				if rest, _, ok := w.slot(t.val(VC{l.Index, look.c}, s)); ok && (rest == nil || !rest.zero()) {
					rep(n, "a timer handed out is removed from another slot than its own")
				}
				c.okN(n)
				return s.setAux("del", "1"), true
			}
		}
		if ret, ok := n.instr.(*ssa.Return); ok && n.ctx == g.root && n.kind == KInstr {
			if s.aux["item"] != "" {
				settle(n, s)
				rep(n, "looking for due timers stops before all were looked at")
				return s, false
			}
			if s.aux["done"] == "" {
				rep(n, "a path returns without having looked for due timers")
			}
			if len(result) > 0 && !result[g.sym(VC{ret.Results[0], n.ctx})] {
				w2, _ := g.resolve1(VC{ret.Results[0], n.ctx}, e)
				if !result[g.sym(w2)] {
					rep(n, "the timers taken from the slot are not what is returned: they are lost")
				}
			}
		}
		return s, true
	}, func(n *Node, s nstate, at []Atom) (nstate, bool) {
		for _, x := range at {
			if v, isnil, ok := x.nilness(); ok {
				if _, fl, base, okf := g.fieldOf(g.trace(v)); okf && fl == w.next && isnil {
					s = s.setAux("leaf", g.sym(base))
				}
			}
			if x.Op == token.LSS || x.Op == token.LEQ || x.Op == token.GTR || x.Op == token.GEQ {
				lx, ok1 := s.regs[vkey(x.B)+"x"]
				ly, ok2 := s.regs[vkey(x.B)+"y"]
				if !ok1 || !ok2 {
					continue
				}
				if _, sw := x.B.v.(*ssa.BinOp).X.(*ssa.Const); sw {
					lx, ly = ly, lx
				}
				d := lx.minus(ly)
				for k, nn := range d {
					if strings.HasSuffix(k, "."+w.due) {
						less := x.Op == token.LSS || x.Op == token.LEQ
						s = s.setAux("due", map[bool]string{true: "y", false: "n"}[less == (nn > 0)])
					}
				}
			}
		}
		if src, got, ok := gotItem(g, at); ok {
			if _, isq := w.isSlot(g, src); isq {
				if got {
					s = s.setAux("item", "1")
				} else {
					s = s.setAux("done", "1")
				}
			}
		}
		return s, true
	}, nil)
}

func (w *wheelT) cancel(c *C) {
	// every slot of a wheel
	if f := c.needMethod("ztimer", "TimeWheel", "RemoveTimer"); f != nil {
		g := c.graph(f, w.pol())
		n := 0
		for _, nd := range g.nodes {
			op, ok := mapOpOf(nd)
			if !ok || op.kind != "del" {
				continue
			}
			look, ok := w.isSlot(g, op.m)
			if !ok {
				continue
			}
			n++
			if g.sym(op.key) != g.psym(1) {
				c.failN("key", nd, "another identifier than the given one is removed")
				continue
			}
			w.everySlot(c, g, nd, look)
		}
		if n == 0 {
			c.failF("remove", f, "nothing is removed from the slots")
		}
	}
	f := c.needMethod("ztimer", "TimerScheduler", "CancelTimer")
	if f == nil {
		return
	}
	g := c.graph(f, w.pol("RemoveTimer"))
	isRm := func(n *Node) (VC, bool) {
		r, ok := isMethodCall(n, "RemoveTimer")
		return r, ok && typeIs(r.v.Type(), "TimeWheel")
	}
	var ph *ssa.Phi
	var px *Ctx
	for _, n := range g.nodes {
		r, ok := isRm(n)
		if !ok {
			continue
		}
		if g.argSym(n, 1) != g.psym(1) {
			c.failN("id", n, "another identifier than the given one is cancelled")
			return
		}
		if p, ok := g.norm(r).v.(*ssa.Phi); ok {
			ph, px = p, g.norm(r).c
		}
	}
	if ph == nil {
		has := false
		for _, n := range g.nodes {
			if _, ok := isRm(n); ok {
				has = true
				if inLoopNode(n) {
					c.undecided(n.posn(c.P) + " loop over the wheels of unknown shape")
					return
				}
			}
		}
		if has {
			c.failF("wheels", f, "a timer is cancelled on one wheel only: one that is on another fires all the same")
		} else {
			c.undecided("CancelTimer")
		}
		return
	}
	for i, e := range ph.Edges {
		v := g.trace(VC{e, px})
		_, fl, base, ok := g.fieldOf(v)
		switch {
		case ok && fl == w.next && base.v == ssa.Value(ph):
			c.ok(c.P.pos(ph.Pos()))
		case ok && typeIs(base.v.Type(), w.TS.Obj().Name()):
			c.ok(c.P.pos(ph.Pos()))
		default:
			_ = i
			c.failF("walk", f, "cancelling does not go from the coarsest wheel to the next finer one, wheel by wheel")
			return
		}
	}
	c.track(g, g.entry, &track{key: "CancelTimer", once: true,
		ev: func(g *Graph, n *Node) []int {
			if _, ok := isRm(n); ok {
				return []int{1}
			}
			return nil
		},
		edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
			for _, x := range at {
				if x.Op != token.EQL && x.Op != token.NEQ {
					continue
				}
				b, ok := x.B.v.(*ssa.BinOp)
				if !ok || b.X != ssa.Value(ph) && b.Y != ssa.Value(ph) {
					continue
				}
				if m.has(0) && !m.has(1) {
					c.failN("skip", n, "a wheel is passed over when a timer is cancelled")
					return m, false
				}
				m = m.clear(0).clear(1)
				if x.Op == token.NEQ {
					m = m.set(0)
				} else {
					m = m.set(2)
				}
			}
			m.twice = 0
			return m, true
		},
		end: func(g *Graph, n *Node, m marks) string {
			if normalEnd(n) && !m.has(2) {
				return "cancelling stops before the last wheel"
			}
			return ""
		}})
}

// everySlot: the deletion happens for every slot.
func (w *wheelT) everySlot(c *C, g *Graph, del *Node, look VC) {
	l, ok := look.v.(*ssa.Lookup)
	if !ok {
		// ranging over the slots themselves
		ex := look.v.(*ssa.Extract)
		_ = ex
		isQ := func(v VC) bool { return g.isField(v, w.TW, w.queue) }
		hasNot := w.notThere(g)
		n := c.drainAllX(g, "RemoveTimer", isQ, func(g *Graph, n *Node, e env) bool { return n == del }, hasNot)
		if n > 0 {
			c.okN(del)
		}
		return
	}
	cnt, ok := counterOf(l.Index)
	if cnt == nil || !ok {
		if _, isk := l.Index.(*ssa.Const); isk || g.isField(g.trace(VC{l.Index, look.c}), w.TW, w.cur) {
			c.failN("slot", del, "only one slot is looked at when a timer is removed")
			return
		}
		c.undecided(del.posn(c.P) + " loop over the slots of unknown shape")
		return
	}
	lim := g.sym(VC{cnt.limit, look.c})
	if !cnt.upFromZero() {
		c.failN("bounds", del, "the slots are not gone through from the first, one by one")
		return
	}
	if !strings.HasSuffix(lim, "."+w.scales) && !strings.Contains(lim, "len(") {
		c.failN("limit", del, "the slots are not gone through up to the last one")
		return
	}
	c.okN(del)
	// in every round, unless it is not there
	hasNot := w.notThere(g)
	bad := false
	c.track(g, g.entry, &track{key: "RemoveTimer", once: true,
		ev: func(g *Graph, n *Node) []int {
			if n == del {
				return []int{1}
			}
			return nil
		},
		edge: func(g *Graph, n *Node, at []Atom, m marks) (marks, bool) {
			if hasNot(at) {
				m = m.set(1)
			}
			for _, x := range at {
				b, ok := x.B.v.(*ssa.BinOp)
				if !ok || x.B.c != look.c || b.X != ssa.Value(cnt.phi) && b.X != l.Index && b.Y != l.Index && b.Y != ssa.Value(cnt.phi) {
					continue
				}
				if m.has(0) && !m.has(1) {
					if !bad {
						bad = true
						c.failN("skip", n, "a slot is passed over when a timer is removed")
					}
					return m, false
				}
				m = m.clear(0).clear(1)
				op := x.Op
				if b.Y == l.Index || b.Y == ssa.Value(cnt.phi) {
					op = swapOp[op]
				}
				if op == token.LSS || op == token.NEQ {
					m = m.set(0)
				} else {
					m = m.set(2)
				}
			}
			m.twice = 0
			return m, true
		},
		end: func(g *Graph, n *Node, m marks) string {
			// an identifier is in one slot at most: stopping after it was
			// removed is fine
			if normalEnd(n) && !m.has(2) && !m.has(1) {
				return "removing a timer stops before the last slot"
			}
			return ""
		}})
}

// notThere: the branch decided that the slot does not have the identifier.
func (w *wheelT) notThere(g *Graph) func(at []Atom) bool {
	return func(at []Atom) bool {
		for _, x := range at {
			if x.Op == 0 && !x.Val {
				if ex, ok := g.trace(x.X).v.(*ssa.Extract); ok && ex.Index == 1 {
					if l, ok := ex.Tuple.(*ssa.Lookup); ok && l.CommaOk {
						return true
					}
				}
			}
			if v, isnil, ok := x.nilness(); ok && isnil {
				if _, ok := g.trace(v).v.(*ssa.Lookup); ok {
					return true
				}
			}
		}
		return false
	}
}

func (w *wheelT) schedule(c *C) {
	id := c.needField(w.TS, "IDGen", "uint32")
	if id == "" {
		return
	}
	for _, q := range [][2]string{{"CreateTimerAt", "NewTimerAt"}, {"CreateTimerAfter", "NewTimerAfter"}} {
		f := c.needMethod("ztimer", "TimerScheduler", q[0])
		if f == nil {
			continue
		}
		g := c.graph(f, w.pol("AddTimer", "NewTimerAt", "NewTimerAfter"))
		t := &numT{watch: g.fieldCell(w.TS, g.psym(0), id)}
		bad := map[string]bool{}
		rep := func(n *Node, why string) {
			if !bad[why] {
				bad[why] = true
				c.failN(q[0]+"|"+why, n, why)
			}
		}
		c.numPaths(g, g.entry, t, nstate{}, func(n *Node, s nstate, e env) (nstate, bool) {
			if op, _, k, v, wheel := w.putNode(g, n); op == "forward" {
				if s.aux["added"] != "" {
					rep(n, "a timer is added twice")
					return s, false
				}
				l := t.val(k, s)
				d := l.minus(lv(id + "@0"))
				if kk, isc := d.isConst(); !isc || kk <= 0 {
					rep(n, "a timer is added under an identifier that is not new")
				}
				if !l.eq(s.cell(id)) {
					rep(n, "a timer is added under an identifier the counter does not remember: the next timer can get the same")
				}
				if _, _, b, ok := g.fieldOf(g.trace(wheel)); !ok || g.sym(b) != g.psym(0) {
					rep(n, "a timer is added to another wheel than the scheduler's coarsest")
				}
				w.made(c, g, n, v, q[1], rep)
				s = s.setAux("added", l.String())
			}
			if ret, ok := n.instr.(*ssa.Return); ok && n.ctx == g.root && n.kind == KInstr {
				got := t.val(VC{ret.Results[0], n.ctx}, s).String()
				switch {
				case s.aux["added"] == "":
					k, _ := g.errAt(VC{ret.Results[1], n.ctx}, e)
					if k != 'N' {
						rep(n, "a path returns without having added the timer")
					}
				case got != s.aux["added"]:
					if k, _ := g.errAt(VC{ret.Results[1], n.ctx}, e); k != 'N' {
						rep(n, "the identifier returned is not the one the timer was added under")
					}
				default:
					c.okN(n)
				}
			}
			return s, true
		}, nil, nil)
	}
	// the timers themselves
	for _, nm := range []string{"NewTimerAt", "NewTimerAfter"} {
		f := c.needFunc("ztimer", nm)
		if f == nil {
			continue
		}
		g := c.graph(f, nil)
		c.built(g, w.TM, func(g *Graph, n *Node, s ostate, o string) {
			fn, ok := s.f[o+"|"+w.fn]
			if !ok {
				c.undecided(n.posn(c.P))
				return
			}
			if fn != g.psym(0) {
				c.failN(nm+"|fn", n, "the timer does not carry the given function")
				return
			}
			c.okN(n)
		})
		// its time is the given one, in milliseconds
		for _, n := range g.nodes {
			st, ok := n.instr.(*ssa.Store)
			if !ok || n.kind != KInstr || !g.isField(VC{st.Addr, n.ctx}, w.TM, w.due) {
				continue
			}
			u := timeOf(g, VC{st.Val, n.ctx}, 0)
			want := 0
			if nm == "NewTimerAfter" {
				want = 1
			}
			switch {
			case !u.ok:
				c.undecided(n.posn(c.P) + " time")
			case u.unit != 1 || u.now != want || u.p != 1:
				c.failN(nm+"|unit", n, "the timer's time is not the given one in milliseconds")
			default:
				c.okN(n)
			}
		}
	}
}

// timeT is a sum of now and the second parameter, in nanoseconds (unit 0) or
// milliseconds (unit 1); other units are negative.
type timeT struct {
	ok           bool
	unit, now, p int
}

func timeOf(g *Graph, v VC, d int) timeT {
	v = g.trace(v)
	bad := timeT{}
	if d > 12 {
		return bad
	}
	if g.sym(v) == g.psym(1) {
		return timeT{ok: true, p: 1}
	}
	switch x := v.v.(type) {
	case *ssa.Convert:
		return timeOf(g, VC{x.X, v.c}, d+1)
	case *ssa.ChangeType:
		return timeOf(g, VC{x.X, v.c}, d+1)
	case *ssa.Call:
		nm := calleeName(x)
		in := func(i int) timeT { return timeOf(g, VC{x.Call.Args[i], v.c}, d+1) }
		switch {
		case strings.HasSuffix(nm, "time.Now"):
			return timeT{ok: true, now: 1}
		case hasAny(nm, ".UnixNano", "time.Duration).Nanoseconds"):
			return in(0)
		case hasAny(nm, "time.Time).Add"):
			return addTimes(in(0), in(1), 1)
		case hasAny(nm, "ztimer.UnixMilli"):
			return timeT{ok: true, unit: 1, now: 1}
		case hasAny(nm, ".UnixMilli", "time.Duration).Milliseconds"):
			u := in(0)
			u.unit = 1
			return u
		case hasAny(nm, ".Unix", "time.Duration).Seconds", ".UnixMicro", "time.Duration).Microseconds"):
			u := in(0)
			u.unit = -2
			return u
		}
	case *ssa.BinOp:
		a := timeOf(g, VC{x.X, v.c}, d+1)
		switch x.Op {
		case token.ADD:
			return addTimes(a, timeOf(g, VC{x.Y, v.c}, d+1), 1)
		case token.SUB:
			return addTimes(a, timeOf(g, VC{x.Y, v.c}, d+1), -1)
		case token.QUO:
			if k, ok := constInt(g.trace(VC{x.Y, v.c}).v); ok && a.ok {
				if k == 1000000 && a.unit == 0 {
					a.unit = 1
				} else if k != 1 {
					a.unit = -1
				}
				return a
			}
		}
	}
	return bad
}

func addTimes(a, b timeT, k int) timeT {
	if !a.ok || !b.ok {
		return timeT{}
	}
	if a.unit != b.unit {
		a.unit = -1
	}
	a.now += k * b.now
	a.p += k * b.p
	return a
}

// made: the timer added is made from the given function and time.
func (w *wheelT) made(c *C, g *Graph, n *Node, v VC, by string, rep func(n *Node, why string)) {
	x := g.trace(v)
	call, ok := x.v.(*ssa.Call)
	if !ok || !hasAny(calleeName(call), ".NewTimerAt", ".NewTimerAfter") {
		c.undecided(n.posn(c.P) + " timer of unknown make")
		return
	}
	if g.sym(VC{call.Call.Args[0], x.c}) != g.psym(1) {
		rep(n, "the timer does not carry the given function")
		return
	}
	s := g.sym(VC{call.Call.Args[1], x.c})
	if strings.HasSuffix(calleeName(call), "."+by) {
		if s != g.psym(2) {
			rep(n, "the timer is not made for the given time")
			return
		}
	} else if !strings.Contains(s, g.psym(2)) || by == "NewTimerAfter" && !strings.Contains(s, "UnixNano") {
		rep(n, "the timer is not made for the given time")
		return
	}
	c.okN(n)
}

func (w *wheelT) fire(c *C) {
	ch := ""
	for _, x := range fieldsByType(w.TS, func(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }) {
		ch = x
	}
	if f := c.needMethod("ztimer", "TimerScheduler", "Start"); f != nil && ch != "" {
		g := c.graph(f, w.pol("GetTimerWithIn"))
		isList := func(v VC) bool {
			call, ok := g.trace(v).v.(*ssa.Call)
			return ok && strings.HasSuffix(calleeName(call), ".GetTimerWithIn")
		}
		bad := false
		k := c.drainAll(g, "Start", isList, func(g *Graph, n *Node, e env) bool {
			cv, v, ok := sendOf(n)
			if !ok || !g.isField(g.trace(cv), w.TS, ch) {
				return false
			}
			_, fl, b, okf := g.fieldOf(g.trace(v))
			ex, okx := g.trace(b).v.(*ssa.Extract)
			if !okf || fl != w.fn || !okx || ex.Index != 2 {
				if !bad {
					bad = true
					c.failN("sent", n, "something else than the function of the timer handed out is sent")
				}
			}
			return true
		})
		for _, n := range g.nodes {
			if s, ok := n.instr.(*ssa.Select); ok && n.kind == KInstr {
				for _, st := range s.States {
					if st.Dir == types.SendOnly && g.isField(g.trace(VC{st.Chan, n.ctx}), w.TS, ch) && !s.Blocking {
						c.failN("dropped", n, "a fired function is dropped when the trigger channel is full")
					}
				}
			}
		}
		if k == 0 {
			c.undecided("Start: no loop over the timers handed out recognised")
		}
	}
	if f := c.needFunc("ztimer", "NewAutoExecTimerScheduler"); f != nil && ch != "" {
		g := c.graph(f, w.pol("Start", "NewTimerScheduler", "Call"))
		isT := func(v VC) bool {
			x, ok := v.v.Type().Underlying().(*types.Chan)
			return ok && typeIs(x.Elem(), w.DF.Obj().Name())
		}
		k := c.drainAll(g, "auto", isT, func(g *Graph, n *Node, e env) bool {
			ci, ok := n.instr.(ssa.CallInstruction)
			if !ok || n.kind != KInstr {
				return false
			}
			if sc := ci.Common().StaticCallee(); sc != nil && sc.Name() == "Call" && sc.Signature.Recv() != nil {
				return true
			}
			if isGo(n) {
				for _, s := range n.spawn {
					if g.subtree(s, func(x *Node) bool {
						ci, ok := x.instr.(ssa.CallInstruction)
						return ok && ci.Common().StaticCallee() != nil && ci.Common().StaticCallee().Name() == "Call"
					}) {
						return true
					}
				}
			}
			return false
		})
		if k == 0 {
			c.undecided("NewAutoExecTimerScheduler: no loop over the trigger channel recognised")
		}
		called := map[ssa.Value]bool{}
		for _, n := range g.nodes {
			ci, ok := n.instr.(ssa.CallInstruction)
			if !ok || n.kind != KInstr || ci.Common().StaticCallee() == nil || ci.Common().StaticCallee().Name() != "Call" {
				continue
			}
			if a, ok := g.arg(n, 0); ok {
				x := g.trace(a)
				if ex, ok := x.v.(*ssa.Extract); ok {
					x = VC{ex.Tuple, x.c}
				}
				called[x.v] = true
			}
		}
		for _, n := range g.nodes {
			u, ok := n.instr.(*ssa.UnOp)
			if !ok || n.kind != KInstr || u.Op != token.ARROW || !isT(VC{u.X, n.ctx}) {
				continue
			}
			if called[u] {
				c.okN(n)
			} else {
				c.failN("received", n, "a function is received from the trigger channel and not called: its timer never fires")
			}
		}
		started := false
		for _, n := range g.nodes {
			if r, ok := isMethodCall(n, "Start"); ok && typeIs(r.v.Type(), w.TS.Obj().Name()) {
				started = true
			}
		}
		if !started {
			c.failF("started", f, "the scheduler that executes by itself is never started")
		}
	}
	// the call itself
	fn, args := "", ""
	for i, st := 0, w.DF.Underlying().(*types.Struct); i < st.NumFields(); i++ {
		switch st.Field(i).Type().Underlying().(type) {
		case *types.Signature:
			fn = st.Field(i).Name()
		case *types.Slice:
			args = st.Field(i).Name()
		}
	}
	if f := c.needMethod("ztimer", "DelayFunc", "Call"); f != nil && fn != "" && args != "" {
		g := c.graph(f, w.pol("String"))
		c.track(g, g.entry, &track{key: "Call",
			ev: func(g *Graph, n *Node) []int {
				if fieldCall(g, n, w.DF, fn, "") {
					return []int{0}
				}
				return nil
			},
			on: func(g *Graph, n *Node, i int, m marks) string {
				if m.has(0) {
					return "the function is called twice"
				}
				a, ok := g.arg(n, 0)
				if !ok || !g.isField(g.trace(a), w.DF, args) {
					return "the function is not called with its own arguments"
				}
				return ""
			},
			end: func(g *Graph, n *Node, m marks) string {
				if normalEnd(n) && n.kind == KExit && !m.has(0) {
					return "the function is not called"
				}
				return ""
			}})
	}
	if f := c.needFunc("ztimer", "NewDelayFunc"); f != nil && fn != "" {
		g := c.graph(f, nil)
		c.built(g, w.DF, func(g *Graph, n *Node, s ostate, o string) {
			for i, x := range []string{fn, args} {
				got, ok := s.f[o+"|"+x]
				if !ok {
					c.undecided(n.posn(c.P))
				} else if got != g.psym(i) {
					c.failN("NewDelayFunc|"+x, n, "the delayed call does not keep the given "+x)
				} else {
					c.okN(n)
				}
			}
		})
	}
}

// wiring: how the wheels of a scheduler are chained and started.
func (w *wheelT) wiring(c *C) {
	f := c.needFunc("ztimer", "NewTimerScheduler")
	if f == nil {
		return
	}
	g := c.graph(f, w.pol("NewTimeWheel", "AddTimeWheel", "Run"))
	type wh struct {
		n         *Node
		inter, sc int64
	}
	wheels := map[ssa.Value]*wh{}
	for _, n := range g.nodes {
		call, ok := n.instr.(*ssa.Call)
		if !ok || n.kind != KInstr || !strings.HasSuffix(calleeName(call), ".NewTimeWheel") {
			continue
		}
		a, ok1 := constInt(call.Call.Args[1])
		b, ok2 := constInt(call.Call.Args[2])
		if !ok1 || !ok2 || n.ctx != g.root || wheels[call] != nil || n.instr.Block().Comment == "for.body" || len(n.instr.Block().Preds) > 1 {
			c.undecided(n.posn(c.P) + " wheel")
			return
		}
		wheels[call] = &wh{n, a, b}
	}
	top := map[ssa.Value]bool{}
	next := map[ssa.Value]ssa.Value{}
	runs := map[ssa.Value]int{}
	wheelOf := func(v VC) ssa.Value {
		x := g.trace(v).v
		if wheels[x] == nil {
			return nil
		}
		return x
	}
	for _, n := range g.nodes {
		if n.kind != KInstr {
			continue
		}
		if st, ok := n.instr.(*ssa.Store); ok && typeIs(st.Val.Type(), w.TW.Obj().Name()) {
			x := wheelOf(VC{st.Val, n.ctx})
			if _, _, b, ok := g.fieldOf(VC{st.Addr, n.ctx}); ok && typeIs(b.v.Type(), w.TS.Obj().Name()) && x != nil {
				top[x] = true
			} else {
				c.undecided(n.posn(c.P) + " wheel kept elsewhere")
				return
			}
		}
		if r, ok := isMethodCall(n, "AddTimeWheel"); ok {
			a, _ := g.arg(n, 1)
			x, y := wheelOf(r), wheelOf(a)
			if x == nil || y == nil {
				c.undecided(n.posn(c.P) + " wheel")
				return
			}
			if next[x] != nil {
				c.failN("relinked", n, "a wheel's next finer wheel is replaced: timers never get to the one replaced")
				return
			}
			next[x] = y
		}
		if r, ok := isMethodCall(n, "Run"); ok {
			x := wheelOf(r)
			if x == nil {
				c.undecided(n.posn(c.P) + " wheel")
				return
			}
			runs[x]++
		}
	}
	if len(top) != 1 {
		c.undecided("NewTimerScheduler: coarsest wheel")
		return
	}
	reached := map[ssa.Value]bool{}
	for x := range top {
		for x != nil && !reached[x] {
			reached[x] = true
			if y := next[x]; y != nil {
				if wheels[y].inter*wheels[y].sc != wheels[x].inter {
					c.failN("span", wheels[y].n, "one turn of this wheel does not span one slot of the coarser one: timers are handed down too early or too late")
				} else {
					c.okN(wheels[y].n)
				}
			}
			x = next[x]
		}
	}
	for x, d := range wheels {
		switch {
		case !reached[x]:
			c.failN("chain", d.n, "this wheel is not chained to the coarser ones: timers never reach it")
		case runs[x] == 0:
			c.failN("run", d.n, "this wheel never turns: the timers in it never fire")
		case runs[x] > 1:
			c.failN("run", d.n, "this wheel is set turning twice: it runs ahead of time")
		default:
			c.okN(d.n)
		}
	}
}

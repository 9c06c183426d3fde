package main

// The end of a session: what happens to the goroutines, the connection and
// the registration of a peer once one of its loops fails.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// thread is a goroutine of a session, with what was seen of it.
type thread struct {
	key    string
	fn     *ssa.Function
	st     *State
	args   []*Term
	binds  []*Term
	kill   map[*Term]bool // closed to tell it to stop
	parent *thread

	chans   map[*Term]bool
	sends   map[*Term]*sendInfo
	closed  map[*Term]bool // closed on every way out
	closes  map[*Term]bool
	waitsOn []waitInfo // blocking receives
	kids    []*thread
	done    int // how often it tells the group that it ended; -1: varies
	group   *Term
	waits   []string // what was added and started when the group was waited for
	loops   map[ssaBlock]*ssa.Function
	polls   map[ssa.Instruction]bool
	tracker bool           // uses the tracker of pieces
	psent   map[*Term]bool // channels sent on without an alternative
	errOut  map[*Term]bool // channels that errors are sent on
}

type sendInfo struct {
	plain bool
	once  bool
	since map[*Term]bool // always received from between two sends
	first map[*Term]bool // always received from before the first
	pos   string
}

type waitInfo struct {
	chans map[*Term]bool
	pos   string
}

func isErr(t *Term) bool {
	if t == nil {
		return false
	}
	typ := t.typ
	if t.k == KPtr {
		typ = objs[t.n].typ
	}
	if typ == nil {
		return false
	}
	ch, ok := typ.Underlying().(*types.Chan)
	return ok && ch.Elem().String() == "error"
}

func chanKey(t *Term) string { return fmt.Sprint(t.id) }

// commutes: the function or what it calls deals with goroutines.
func (c *Ctx) concurrent(f *ssa.Function) bool {
	for g := range c.pg.reachable(nil, f) {
		if !c.pg.isRepo(g) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MakeChan, *ssa.Send, *ssa.Select, *ssa.Go:
					return true
				case *ssa.UnOp:
					if x.Op.String() == "<-" {
						return true
					}
				case ssa.CallInstruction:
					n := callName(x)
					if isClose(x) || strings.HasPrefix(n, "(*sync.WaitGroup)") {
						return true
					}
				}
			}
		}
	}
	return false
}

func (c *Ctx) hasLoops(f *ssa.Function) bool {
	for g := range c.pg.reachable(nil, f) {
		if len(naturalLoops(g)) > 0 {
			return true
		}
	}
	return false
}

const tPPTname = "gotor/swarm.PeerPieceTracker"

func (c *Ctx) usesTracker(f *ssa.Function) bool {
	for g := range c.pg.reachable(nil, f) {
		if g.Signature.Recv() != nil && g.Signature.Recv().Type().String() == "*"+tPPTname {
			return true
		}
	}
	return false
}

// runThread interprets a goroutine and then those it starts.
func (c *Ctx) runThread(th *thread, depth int) {
	name := th.fn.RelString(nil)
	where := c.pg.pos(th.fn.Pos())
	top := th.parent == nil
	th.chans, th.sends, th.closed, th.closes = map[*Term]bool{}, map[*Term]*sendInfo{}, nil, map[*Term]bool{}
	th.psent, th.errOut = map[*Term]bool{}, map[*Term]bool{}
	th.loops, th.polls, th.done = map[ssaBlock]*ssa.Function{}, map[ssa.Instruction]bool{}, -2
	unreg := "(*" + tPPTname + ").Unregister"
	var handler, conn *Term
	if top {
		handler = th.args[0]
		conn = th.st.field(c.typ(tPH), handler, connField(c))
	}
	type goAt struct {
		k   *Call
		key string
	}
	var gos []goAt
	for round := 0; round < 2; round++ {
		final := round == 1
		gos = nil
		th.waits, th.waitsOn = nil, nil
		e := c.exec(name)
		e.noFail = true
		e.invs, e.paths, e.sc, e.unrollMax = c.allInvs(), true, 60, 8
		st := th.st.clone()
		st.ghost = map[string]*Term{}
		if !top {
			st.havocHeap("go"+th.fn.Name(), nil)
		}
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		stop := func(st *State, pos, what string) {
			if final && e.dry == 0 && !top {
				c.check(st.ghost["killed"] == nil, "stops:"+name, pos, "a goroutine that is told to stop does nothing more", what, factsText(st))
			}
		}
		after := func(st *State, pos string) {
			if final && e.dry == 0 {
				c.check(st.ghost["ended"] == nil, "ended-last:"+name, pos, "a goroutine says it has ended when it is done with the peer", factsText(st))
			}
		}
		fork := func(k *Call, failing bool) ([]Res, bool) {
			stop(k.st, k.pos(), k.name)
			after(k.st, k.pos())
			rs := k.sig.Results()
			if !failing || rs.Len() == 0 || rs.At(rs.Len()-1).Type().String() != "error" {
				return unknownCall(k), true
			}
			var out []Res
			for i, bad := range []bool{false, true} {
				st := k.st
				if i == 0 {
					st = st.clone()
				}
				q := *k
				q.st = st
				for _, r := range unknownCall(&q) {
					vals := append([]*Term(nil), r.vals...)
					last := len(vals) - 1
					vals[last] = TNil
					if bad {
						vals[last] = k.newErr("op")
						r.st.ghost["failed"] = TTrue
					}
					out = append(out, Res{st: r.st, vals: vals})
				}
			}
			return out, true
		}
		for _, f := range c.pg.allFns {
			f := f
			if !c.pg.isRepo(f) || len(f.Blocks) == 0 || f.Parent() != nil || fnName(f) == unreg {
				continue
			}
			silent := c.silent(f)
			if c.concurrent(f) && !strings.HasPrefix(fnName(f), "(*"+tRL+")") || silent && !c.hasLoops(f) && !c.usesTracker(f) {
				continue
			}
			h[fnName(f)] = func(k *Call) ([]Res, bool) {
				if c.usesTracker(f) {
					th.tracker = true
				}
				return fork(k, !silent)
			}
		}
		for _, n := range []string{"(net.Conn).Write", "(net.Conn).Read", "(io.Writer).Write", "(io.Reader).Read"} {
			h[n] = func(k *Call) ([]Res, bool) {
				// what Loop sends before it starts the others is not theirs
				return fork(k, !top)
			}
		}
		h["(net.Conn).SetReadDeadline"] = func(k *Call) ([]Res, bool) { return unknownCall(k), true }
		h["(net.Conn).Close"] = func(k *Call) ([]Res, bool) {
			if top && k.st.f.find(k.args[0]) == k.st.f.find(conn) {
				k.st.ghost["connclosed"] = TTrue
			}
			return unknownCall(k), true
		}
		wg := func(k *Call) bool { // one group per session is enough
			if th.group == nil {
				th.group = k.args[0]
			}
			return th.group == k.args[0]
		}
		h["(*sync.WaitGroup).Add"] = func(k *Call) ([]Res, bool) {
			wg(k)
			n := I(IntC(0))
			if g := k.st.ghost["added"]; g != nil {
				n = I(g)
			}
			k.st.ghost["added"] = Add(n, I(k.args[1]))
			return k.ret(), true
		}
		h["(*sync.WaitGroup).Done"] = func(k *Call) ([]Res, bool) {
			wg(k)
			if final && e.dry == 0 {
				c.check(k.st.ghost["ended"] == nil, "ended-once:"+name, k.pos(), "a goroutine says once that it has ended")
			}
			k.st.ghost["ended"] = TTrue
			return k.ret(), true
		}
		h["(*sync.WaitGroup).Wait"] = func(k *Call) ([]Res, bool) {
			wg(k)
			if e.dry == 0 {
				a, g := "0", ""
				if k.st.ghost["added"] != nil {
					a = k.st.ghost["added"].String()
				}
				if k.st.ghost["gos"] != nil {
					g = k.st.ghost["gos"].s
				}
				th.waits = append(th.waits, a+"|"+g)
				if final && top {
					c.check(k.st.ghost["connclosed"] != nil && k.st.ghost["closes"] != nil, "teardown:"+name, k.pos(), "the goroutines are told to stop and the connection is closed before they are waited for", factsText(k.st))
				}
			}
			k.st.ghost["waited"] = TTrue
			return k.ret(), true
		}
		h[unreg] = func(k *Call) ([]Res, bool) {
			th.tracker = true
			if final && e.dry == 0 {
				c.check(top, "unregister:"+name, k.pos(), "only the session itself unregisters its peer")
				c.check(k.st.ghost["waited"] != nil, "unregister:"+name, k.pos(), "a peer is unregistered when the goroutines that use the tracker have ended", factsText(k.st))
				c.check(k.st.ghost["unreg"] == nil, "unregister:"+name, k.pos(), "a peer is unregistered once")
			}
			if top && k.st.f.find(k.args[1]) == k.st.f.find(handler) {
				k.st.ghost["unreg"] = TTrue
			}
			return unknownCall(k), true
		}
		e.hooks.markGo = func(k *Call) {
			key := e.pg.pos(k.instr.Pos()) + fmt.Sprint(k.fn)
			s := ""
			if g := k.st.ghost["gos"]; g != nil {
				s = g.s
			}
			if strings.Count(s, ";") < 16 {
				k.st.ghost["gos"] = Sym(s+key+";", lenType)
			}
		}
		e.hooks.onGo = func(k *Call) {
			gos = append(gos, goAt{&Call{e: e, st: k.st.clone(), fn: k.fn, args: k.args, instr: k.instr}, e.pg.pos(k.instr.Pos()) + fmt.Sprint(k.fn)})
		}
		e.hooks.onLoop = func(fr *Frame, head *ssa.BasicBlock, rank string, ok bool, why string) {
			if !ok {
				th.loops[head] = fr.fn
			}
		}
		stopChans := th.kill
		e.hooks.comm = func(k *Comm) {
			st := k.st
			pos := e.pos(k.in)
			polls := false
			for _, r := range k.recvs {
				polls = polls || stopChans[r] || top && isErr(r)
			}
			if polls {
				th.polls[k.in] = true
			}
			if k.ch != nil {
				th.chans[k.ch] = true
			}
			switch k.kind {
			case "recv":
				if stopChans[k.ch] {
					stop(st, pos, "it looks again")
					st.ghost["killed"] = TTrue
				}
				if top && isErr(k.ch) {
					if final && e.dry == 0 {
						c.check(st.ghost["over"] == nil, "first:"+name, pos, "the first failure ends the session", factsText(st))
					}
					st.ghost["over"] = TTrue
				}
				if isErr(k.ch) && !top {
					st.learn(notNil(k.v))
					st.ghost["failed"] = TTrue
				}
				for ch := range th.psent {
					st.ghost["r:"+chanKey(ch)+":"+chanKey(k.ch)] = TTrue
				}
				if final && e.dry == 0 && k.blocks {
					w := waitInfo{chans: map[*Term]bool{}, pos: pos}
					for _, r := range k.recvs {
						w.chans[r] = true
					}
					if st.ghost["failed"] == nil || k.ch == nil || isErr(k.ch) {
						th.waitsOn = append(th.waitsOn, w)
					}
					if !top {
						c.check(polls, "waits:"+name, pos, "a goroutine that waits also waits to be told to stop")
					}
				}
			case "send":
				if isErr(k.ch) {
					th.errOut[k.ch] = true
					if final && e.dry == 0 {
						if !top {
							c.check(st.never(EqT(k.v, TNil)), "errors:"+name, pos, "what is reported as an error is one", k.v.String())
						}
					}
					st.ghost["sent"] = TTrue
				}
				if top && k.ch.k != KPtr {
					st.ghost["reported"] = TTrue
				}
				if final && e.dry == 0 {
					if k.plain || k.blocks && !polls {
						si := th.sends[k.ch]
						fresh := si == nil
						if fresh {
							si = &sendInfo{once: true, plain: true, pos: pos}
							th.sends[k.ch] = si
						}
						got := map[*Term]bool{}
						for ch := range th.chans {
							if st.ghost["r:"+chanKey(k.ch)+":"+chanKey(ch)] != nil {
								got[ch] = true
							}
						}
						meet := func(a map[*Term]bool) map[*Term]bool {
							if a == nil {
								return got
							}
							r := map[*Term]bool{}
							for x := range a {
								if got[x] {
									r[x] = true
								}
							}
							return r
						}
						if st.ghost["s:"+chanKey(k.ch)] != nil {
							si.once = false
							si.since = meet(si.since)
						} else {
							si.first = meet(si.first)
						}
					}
				}
				if k.plain || k.blocks && !polls {
					th.psent[k.ch] = true
					st.ghost["s:"+chanKey(k.ch)] = TTrue
					for ch := range th.chans {
						delete(st.ghost, "r:"+chanKey(k.ch)+":"+chanKey(ch))
					}
				}
			case "close":
				if final && e.dry == 0 {
					c.check(st.ghost["c:"+chanKey(k.ch)] == nil, "closed-once:"+name, pos, "a channel is closed once", k.ch.String())
				}
				st.ghost["c:"+chanKey(k.ch)] = TTrue
				st.ghost["closes"] = TTrue
				th.closes[k.ch] = true
			}
		}
		outs := 0
		var all map[*Term]bool
		for _, o := range e.Run(st, th.fn, th.args, th.binds) {
			if o.panic != nil {
				continue
			}
			outs++
			g := o.st.ghost
			here := map[*Term]bool{}
			for ch := range th.closes {
				if g["c:"+chanKey(ch)] != nil {
					here[ch] = true
				}
			}
			if all == nil {
				all = here
			}
			for ch := range all {
				if !here[ch] {
					delete(all, ch)
				}
			}
			d := 0
			if g["ended"] != nil {
				d = 1
			}
			if th.done != -2 && th.done != d {
				d = -1
			}
			th.done = d
			if !final {
				continue
			}
			if top {
				c.check(g["unreg"] != nil, "unregister:"+name, where, "the peer of a session that ended is unregistered", factsText(o.st))
				c.check(g["connclosed"] != nil, "conn-closed:"+name, where, "the connection of a session that ended is closed", factsText(o.st))
				c.check(g["waited"] != nil, "waited:"+name, where, "a session ends after its goroutines", factsText(o.st))
			} else {
				c.check(g["failed"] == nil || g["sent"] != nil || g["killed"] != nil, "reports:"+name, where, "a goroutine that fails reports it", factsText(o.st))
			}
		}
		th.closed = all
		if final {
			// a loop that ends with its goroutine
			c.check(outs > 0, "ends:"+name, where, "a goroutine of a session can end")
			c.done(e, "session:"+name)
		} else {
			c.steps += e.steps
		}
	}
	// every loop that does not end by itself looks for the signal
	if !top || len(gos) > 0 {
		pf := c.polling(th.polls)
		var hs []ssaBlock
		for b := range th.loops {
			hs = append(hs, b)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i].Instrs[0].Pos() < hs[j].Instrs[0].Pos() })
		for _, b := range hs {
			c.check(everyRound(b, th.polls, pf), "polls:"+name+":"+loopName(th.loops[b], b), c.pg.pos(blockPos(b)), "a loop that does not end by itself looks in every round whether to stop")
		}
	}
	if depth > 4 {
		c.fail("undecided:session", where, "goroutines are not started by goroutines for ever")
		return
	}
	seen := map[string]bool{}
	for _, g := range gos {
		k := g.k
		if k.fn == nil || len(k.fn.Blocks) == 0 {
			c.fail("undecided:session:"+name, c.pg.pos(k.instr.Pos()), "what is started is known")
			continue
		}
		sig := g.key
		for _, a := range k.args {
			sig += fmt.Sprint(" ", a.id)
		}
		if seen[sig] {
			continue
		}
		seen[sig] = true
		kid := &thread{key: g.key, fn: k.fn, st: k.st, args: k.args[1:], parent: th, kill: map[*Term]bool{}}
		if callee := k.st.f.find(k.args[0]); callee.k == KFn {
			kid.binds = callee.args
		}
		for ch := range th.closed {
			kid.kill[ch] = true
		}
		c.check(len(kid.kill) > 0, "told:"+k.fn.RelString(nil), c.pg.pos(k.instr.Pos()), "whoever starts a goroutine tells it to stop in the end, on every path")
		c.runThread(kid, depth+1)
		th.kids = append(th.kids, kid)
	}
}

func (c *Ctx) polling(polls map[ssa.Instruction]bool) map[*ssa.Function]bool {
	pf := map[*ssa.Function]bool{}
	for again := true; again; {
		again = false
		for _, f := range c.pg.allFns {
			if pf[f] || len(f.Blocks) == 0 || !c.pg.isRepo(f) {
				continue
			}
			// can a return be reached without a poll?
			seen := map[ssaBlock]bool{}
			var free func(b ssaBlock) bool
			free = func(b ssaBlock) bool {
				if seen[b] {
					return false
				}
				seen[b] = true
				if blockPolls(b, polls, pf) {
					return false
				}
				if len(b.Succs) == 0 {
					_, ret := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
					return ret
				}
				for _, s := range b.Succs {
					if free(s) {
						return true
					}
				}
				return false
			}
			if !free(f.Blocks[0]) {
				any := false
				for b := range seen {
					any = any || blockPolls(b, polls, pf)
				}
				if any {
					pf[f] = true
					again = true
				}
			}
		}
	}
	return pf
}

func blockPolls(b ssaBlock, polls map[ssa.Instruction]bool, pf map[*ssa.Function]bool) bool {
	for _, in := range b.Instrs {
		if polls[in] {
			return true
		}
		if x, ok := in.(*ssa.Call); ok {
			if f := x.Call.StaticCallee(); f != nil && pf[f] {
				return true
			}
		}
	}
	return false
}

// everyRound: no way around the loop avoids looking.
func everyRound(head ssaBlock, polls map[ssa.Instruction]bool, pf map[*ssa.Function]bool) bool {
	body := naturalLoops(head.Parent())[head]
	if blockPolls(head, polls, pf) {
		return true
	}
	seen := map[ssaBlock]bool{}
	var back func(b ssaBlock) bool
	back = func(b ssaBlock) bool {
		for _, s := range b.Succs {
			if s == head {
				return true
			}
			if !body[s] || seen[s] || blockPolls(s, polls, pf) {
				continue
			}
			seen[s] = true
			if back(s) {
				return true
			}
		}
		return false
	}
	return !back(head)
}

func connField(c *Ctx) string {
	s := structOf(c.typ(tPH))
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Type().String() == "net.Conn" {
			return s.Field(i).Name()
		}
	}
	panic(undecided{"a handler has no connection"})
}

func runC18(c *Ctx) {
	c.guard("session", "the end of a session", func() {
		f := c.anchor("(*" + tPH + ").Loop")
		st := c.state()
		th := &thread{key: "session", fn: f, st: st, args: c.args(st, f), kill: map[*Term]bool{}}
		c.runThread(th, 0)
		c.channels(th)
	})
	c.drained()
	c.spinning()
	c.handshakeConn()
}

// spinning: what runs for ever waits for something in every round.
func (c *Ctx) spinning() {
	c.guard("waits", "loops that never end", func() {
		blocks := map[ssa.Instruction]bool{}
		reach := c.pg.reachable(nil, c.anchor("gotor.main"))
		for f := range reach {
			if !c.pg.isRepo(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.UnOp:
						blocks[in] = x.Op.String() == "<-"
					case *ssa.Select:
						blocks[in] = x.Blocking
					case *ssa.Send:
						blocks[in] = true
					case *ssa.Call:
						n := callName(x)
						if g := x.Call.StaticCallee(); (g == nil || !c.pg.isRepo(g)) && !strings.HasPrefix(n, "sync/atomic.") && !strings.HasPrefix(n, "(*sync/atomic.") {
							for _, w := range []string{"Accept", "Sleep", "Wait", "Read", "ReadFull", "ReadAtLeast", "Scan", "ReadFrom"} {
								blocks[in] = blocks[in] || strings.HasSuffix(n, "."+w)
							}
						}
					}
				}
			}
		}
		waits := c.polling(blocks)
		for f := range reach {
			if !c.pg.isRepo(f) {
				continue
			}
			for head, body := range naturalLoops(f) {
				out := false
				for b := range body {
					for _, s := range b.Succs {
						out = out || !body[s]
					}
					if len(b.Succs) == 0 {
						out = true
					}
				}
				if out {
					continue
				}
				c.check(everyRound(head, blocks, waits), "waits:"+f.RelString(nil), c.pg.pos(blockPos(head)), "a loop that never ends waits for something in every round")
			}
		}
		c.ok("waits", "", "the loops that never end are looked at")
	})
}

// channels: nothing that is sent without waiting for the signal can block.
func (c *Ctx) channels(top *thread) {
	var all []*thread
	var walk func(t *thread)
	walk = func(t *thread) {
		all = append(all, t)
		for _, k := range t.kids {
			walk(k)
		}
	}
	walk(top)
	closers := map[*Term]int{}
	type use struct {
		t *thread
		s *sendInfo
	}
	senders := map[*Term][]use{}
	var chs []*Term
	for _, t := range all {
		for ch := range t.closes {
			closers[ch]++
		}
		for ch, s := range t.sends {
			if senders[ch] == nil {
				chs = append(chs, ch)
			}
			senders[ch] = append(senders[ch], use{t, s})
		}
	}
	sort.Slice(chs, func(i, j int) bool { return chs[i].id < chs[j].id })
	for _, t := range all {
		for ch := range t.closes {
			name := t.fn.RelString(nil)
			c.check(closers[ch] == 1, "closers:"+name, c.pg.pos(t.fn.Pos()), "a channel is closed by one goroutine only", ch.String())
			c.check(senders[ch] == nil, "closers:"+name, c.pg.pos(t.fn.Pos()), "nothing is sent on a channel that is closed", ch.String())
		}
	}
	capOf := func(ch *Term) int64 {
		if ch.k == KPtr && objs[ch.n].kind == "chan" && objs[ch.n].capT != nil {
			if v, ok := I(objs[ch.n].capT).constInt(); ok {
				return v.Int64()
			}
		}
		return -1
	}
	for _, ch := range chs {
		us := senders[ch]
		n := capOf(ch)
		if n < 0 {
			for _, u := range us {
				// the channel on which all sessions report, see drained
				c.check(u.t == top && u.s.once && isErr(ch), "sends:"+u.t.fn.RelString(nil), u.s.pos, "nothing that is sent can block for ever", ch.String())
			}
			continue
		}
		once := true
		for _, u := range us {
			once = once && u.s.once
		}
		ok := once && int64(len(us)) <= n
		why := fmt.Sprintf("%d senders, room for %d", len(us), n)
		if !ok && len(us) == 1 && n >= 1 {
			ok = c.token(us[0].t, us[0].s, ch, all) && closers[ch] == 0
			why = "sent again before it is known to be received"
		}
		for _, u := range us {
			c.check(ok, "sends:"+u.t.fn.RelString(nil), u.s.pos, "nothing that is sent can block for ever", why)
		}
	}
	// errors of a goroutine are listened to wherever its starter waits
	for _, t := range all {
		for _, k := range t.kids {
			for ch := range k.chans {
				if !isErr(ch) || !k.sendsOn(ch) {
					continue
				}
				n := 0
				for _, w := range t.waitsOn {
					n++
					c.check(w.chans[ch], "listens:"+t.fn.RelString(nil), w.pos, "wherever the starter of a goroutine waits, it also waits for its errors", k.fn.RelString(nil))
				}
				c.check(n > 0, "listens:"+t.fn.RelString(nil), c.pg.pos(t.fn.Pos()), "the starter of a goroutine waits for its errors", k.fn.RelString(nil))
			}
		}
	}
	// the group counts those that say when they end
	for _, t := range all {
		if len(t.kids) == 0 {
			continue
		}
		name := t.fn.RelString(nil)
		for _, w := range t.waits {
			p := strings.SplitN(w, "|", 2)
			n := 0
			for _, g := range strings.Split(p[1], ";") {
				for _, k := range t.kids {
					if k.key == g {
						if k.done == 1 {
							n++
						}
						break
					}
				}
			}
			c.check(p[0] == fmt.Sprint(n), "group:"+name, c.pg.pos(t.fn.Pos()), "the goroutines waited for are those that were started", "added "+p[0]+", "+fmt.Sprint(n)+" say that they ended")
		}
		for _, k := range t.kids {
			c.check(k.done == 1 || k.done == 0 && !k.tracker, "group:"+k.fn.RelString(nil), c.pg.pos(k.fn.Pos()), "a goroutine that uses the tracker of pieces says when it has ended, on every path")
			if k.done == 1 && k.group != nil && t.group != nil {
				c.check(sameField(k.group, t.group), "group:"+k.fn.RelString(nil), c.pg.pos(k.fn.Pos()), "it says so to whoever waits for it", k.group.String(), t.group.String())
			}
		}
	}
}

func sameField(a, b *Term) bool {
	return a == b || fieldOfAddr(a) != "" && fieldOfAddr(a) == fieldOfAddr(b)
}

func (t *thread) sendsOn(ch *Term) bool { return t.sends[ch] != nil || t.errOut[ch] }

// token: two goroutines take turns. One sends again only after it received
// from the other, who sends only after it received.
func (c *Ctx) token(t *thread, s *sendInfo, ch *Term, all []*thread) bool {
	other := func(x *Term) (*thread, *sendInfo) {
		var r *thread
		for _, u := range all {
			if u.sends[x] != nil {
				if r != nil {
					return nil, nil
				}
				r = u
			}
		}
		if r == nil {
			return nil, nil
		}
		return r, r.sends[x]
	}
	for y := range s.since {
		u, us := other(y)
		if u == nil || u == t {
			continue
		}
		// the other answers once for each
		if us.once || us.since[ch] {
			if us.first[ch] || s.first[y] {
				return true
			}
		}
	}
	return false
}

// drained: what sessions report is received for as long as the client runs.
func (c *Ctx) drained() {
	c.guard("drained", "the errors of sessions", func() {
		f := c.anchor("gotor/swarm.NewPeerHandler")
		where := c.pg.pos(f.Pos())
		sf, hf := "", ""
		for n, p := range map[string]*string{tSwarm: &sf, tPH: &hf} {
			s := structOf(c.typ(n))
			for i := 0; i < s.NumFields(); i++ {
				if ch, ok := s.Field(i).Type().Underlying().(*types.Chan); ok && ch.Elem().String() == "error" {
					*p = s.Field(i).Name()
				}
			}
		}
		text := "every session reports to the swarm, which receives for as long as the client runs"
		if sf == "" || hf == "" {
			c.ok("drained", where, text) // sessions report to nobody
			return
		}
		e := c.exec(f.RelString(nil))
		e.invs = c.allInvs()
		st := c.state()
		as := c.args(st, f)
		var sw *Term
		for i, p := range f.Params {
			if p.Type().String() == "*"+tSwarm {
				sw = as[i]
			}
		}
		want := st.field(c.typ(tSwarm), sw, sf)
		n := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil || len(o.vals) == 0 {
				continue
			}
			n++
			got := o.st.field(c.typ(tPH), o.vals[0], hf)
			c.check(o.st.f.find(got) == o.st.f.find(want), "drained:same", where, text, got.String())
		}
		c.check(n > 0, "drained:same", where, text)
		c.done(e, "drained")

		isField := func(v ssa.Value) bool {
			u, ok := v.(*ssa.UnOp)
			if !ok {
				return false
			}
			a, ok := u.X.(*ssa.FieldAddr)
			if !ok {
				return false
			}
			pt := a.X.Type().Underlying().(*types.Pointer).Elem()
			s := structOf(pt)
			return pt.String() == tSwarm && s.Field(a.Field).Name() == sf
		}
		main := c.anchor("gotor.main")
		reach := c.pg.reachable(nil, main)
		var forever []*ssa.Function
		for g := range reach {
			if !c.pg.isRepo(g) {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if x, ok := in.(ssa.CallInstruction); ok && isClose(x) && isField(x.Common().Args[0]) {
						c.fail("drained:open", c.pg.pos(in.Pos()), "the channel that sessions report to stays open")
					}
				}
			}
			for head, body := range naturalLoops(g) {
				recv := map[ssa.Instruction]bool{}
				oks := map[ssa.Value]bool{}
				for b := range body {
					for _, in := range b.Instrs {
						if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "<-" && isField(u.X) {
							recv[in] = true
							for _, r := range *u.Referrers() {
								if x, ok := r.(*ssa.Extract); ok && x.Index == 1 {
									oks[x] = true
								}
							}
						}
						if s, ok := in.(*ssa.Select); ok {
							for _, ss := range s.States {
								if ss.Dir == types.RecvOnly && isField(ss.Chan) {
									recv[in] = true
								}
							}
						}
					}
				}
				if len(recv) == 0 || !everyRound(head, recv, nil) {
					continue
				}
				// the only way out is a closed channel
				ends := false
				for b := range body {
					for i, s := range b.Succs {
						if body[s] {
							continue
						}
						x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
						ends = ends || !ok || !oks[x.Cond] || i != 1
					}
				}
				if !ends {
					forever = append(forever, g)
				}
			}
		}
		started := false
		for _, g := range forever {
			for h := range reach {
				for _, b := range h.Blocks {
					for _, in := range b.Instrs {
						if x, ok := in.(*ssa.Go); ok {
							var cal *ssa.Function
							switch v := x.Call.Value.(type) {
							case *ssa.Function:
								cal = v
							case *ssa.MakeClosure:
								cal, _ = v.Fn.(*ssa.Function)
							}
							started = started || cal == g || cal != nil && c.pg.reachable(nil, cal)[g]
						}
					}
				}
			}
		}
		c.check(started, "drained:loop", "", text, fmt.Sprint(len(forever), " endless receivers"))
	})
}

// handshakeConn: a connection whose handshake fails is closed, one that
// succeeds is not.
func (c *Ctx) handshakeConn() {
	for _, name := range []string{"gotor/swarm.FromIncoming", "gotor/swarm.FromBootstrap"} {
		c.guard("handshake:"+name, "the connection of a failed handshake", func() {
			f := c.anchor(name)
			where := c.pg.pos(f.Pos())
			e := c.exec(name)
			e.noFail = true
			e.invs, e.paths, e.sc = c.allInvs(), true, 100
			st := c.state()
			as := c.args(st, f)
			h := map[string]func(k *Call) ([]Res, bool){}
			e.hooks.call = h
			mark := func(k *Call, v *Term, what string) {
				k.st.ghost[what+":"+fmt.Sprint(k.st.f.find(v).id)] = k.st.f.find(v)
			}
			for i, p := range f.Params {
				if p.Type().String() == "net.Conn" {
					st.ghost["open:"+fmt.Sprint(as[i].id)] = as[i]
				}
			}
			for _, n := range []string{"net.Dial", "net.DialTimeout", "(*net.Dialer).Dial", "(*net.Dialer).DialContext", "net.DialTCP"} {
				h[n] = func(k *Call) ([]Res, bool) {
					good := k.st.clone()
					v := Sym("own:conn:"+k.site, k.sig.Results().At(0).Type())
					good.learn(notNil(v))
					good.ghost["open:"+fmt.Sprint(v.id)] = v
					return []Res{{st: good, vals: []*Term{v, TNil}}, {st: k.st, vals: []*Term{TNil, k.newErr("dial")}}}, true
				}
			}
			h["(net.Conn).Close"] = func(k *Call) ([]Res, bool) {
				mark(k, k.args[0], "closed")
				return unknownCall(k), true
			}
			n := 0
			for _, o := range e.Run(st, f, as, nil) {
				if o.panic != nil {
					continue
				}
				good := o.st.isNil(o.vals[1])
				for g, v := range o.st.ghost {
					if !strings.HasPrefix(g, "open:") {
						continue
					}
					n++
					closed := o.st.ghost["closed:"+fmt.Sprint(o.st.f.find(v).id)] != nil || o.st.ghost["closed:"+fmt.Sprint(v.id)] != nil
					if good {
						c.check(!closed, "handshake:open:"+name, where, "the connection of a session stays open", factsText(o.st))
					} else {
						c.check(closed, "handshake:closed:"+name, where, "the connection of a handshake that failed is closed", factsText(o.st))
					}
				}
			}
			c.check(n > 1, "handshake:closed:"+name, where, "the connection of a handshake that failed is closed", "there is no connection")
			c.done(e, "handshake")
		})
	}
}

func init() {
	register(&Prop{
		id: "C18", title: "A session ends completely",
		rule:   "The goroutines of a session are interpreted from the states in which they are started, with every operation on a channel observed: which channels each waits on, what it sends, what it does once told to stop; what could block, and a loop that could go on, is an obligation.",
		assume: []string{"a read or write on a closed connection returns with an error", "package sync is correct"},
		min:    map[string]int{"polls": 3, "sends": 4, "reports": 4, "handshake": 4},
		run:    runC18,
	})
}

func isClose(x ssa.CallInstruction) bool {
	b, ok := x.Common().Value.(*ssa.Builtin)
	return ok && b.Name() == "close"
}

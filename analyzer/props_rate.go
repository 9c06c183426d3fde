package main

// The rate limiter: what is written is counted, and waits for its turn.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// atomics hooks every atomic operation on a number.
func atomics(h map[string]func(k *Call) ([]Res, bool), see func(k *Call, op string, addr, v *Term) *Term) {
	for _, t := range []string{"Int64", "Int32", "Uint64", "Uint32"} {
		for _, op := range []string{"Load", "Store", "Add", "Swap"} {
			op := op
			f := func(k *Call) ([]Res, bool) {
				var v *Term
				if len(k.args) > 1 {
					v = I(k.args[1])
				}
				addr := k.args[0]
				r := see(k, op, addr, v)
				if k.sig.Results().Len() == 0 {
					return k.ret(), true
				}
				if r == nil {
					r = k.fresh("atomic", k.sig.Results().At(0).Type())
				}
				return k.ret(r), true
			}
			h["sync/atomic."+op+t] = f
			h["(*sync/atomic."+t+")."+op] = f
		}
	}
}

func fieldOfAddr(a *Term) string {
	for a.k == KFld && a.args[0].k == KFld {
		a = a.args[0]
	}
	if a.k == KFld {
		return a.s
	}
	return ""
}

func runC17(c *Ctx) {
	reset := c.tick()
	for _, d := range []string{"Write", "Read"} {
		rate := c.setRate(d)
		c.gate(d, rate, reset)
		c.wholeTransfer(d)
	}
	c.limiterWiring()
	c.throughLimiter()
	c.downloads()
}

// tick: the bytes that count are forgotten once a second, and only then.
func (c *Ctx) tick() map[string]bool {
	reset := map[string]bool{}
	c.guard("tick", "the limiter's clock", func() {
		mkf := c.anchor("gotor/io.NewRateLimitIO")
		e := c.exec(mkf.RelString(nil))
		st := c.state()
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		var ticker *Term
		h["time.NewTicker"] = func(k *Call) ([]Res, bool) {
			c.check(k.st.holds(EqI(I(k.args[0]), IntC(1e9))), "tick:second", k.pos(), "the limits are per second", k.args[0].String())
			ticker = Sym("own:ticker", k.sig.Results().At(0).Type())
			return k.ret(ticker), true
		}
		field := ""
		s := structOf(c.typ(tRL))
		for _, o := range e.Run(st, mkf, nil, nil) {
			for i := 0; o.panic == nil && i < s.NumFields(); i++ {
				if s.Field(i).Type().String() == "*time.Ticker" && o.st.f.find(o.st.field(c.typ(tRL), o.vals[0], s.Field(i).Name())) == ticker {
					field = s.Field(i).Name()
				}
			}
		}
		c.check(field != "", "tick:second", c.pg.pos(mkf.Pos()), "the limits are per second", "the limiter has no ticker")
		c.done(e, "tick")

		f := c.anchor("(*" + tRL + ").Run")
		where := c.pg.pos(f.Pos())
		e = c.exec(f.RelString(nil))
		e.paths, e.sc = true, 64
		st = c.state()
		as := c.args(st, f)
		tk := st.field(c.typ(tRL), as[0], field)
		h = map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		st.ghost["ticks"] = IntC(0) // 0: at the start, 1: a tick since, 2: something else
		late := func(st *State, pos string) {
			// every counter is reset at each tick, before waiting for the next
			if e.dry == 0 && st.ghost["ticks"] == IntC(1) {
				for r := range reset {
					c.check(st.ghost["reset:"+r] != nil, "tick:each", pos, "at each tick what was used is forgotten", "of "+r)
				}
			}
			for g := range st.ghost {
				if strings.HasPrefix(g, "reset:") {
					delete(st.ghost, g)
				}
			}
		}
		atomics(h, func(k *Call, op string, addr, v *Term) *Term {
			if op == "Load" || !mentions(addr, as[0]) {
				return nil
			}
			fd := fieldOfAddr(addr)
			if e.dry == 0 {
				c.check(op == "Store" && k.st.holds(EqI(v, IntC(0))), "tick:zero", k.pos(), "the clock only resets what it counts", fd)
				c.check(k.st.ghost["ticks"] != IntC(2), "tick:only", k.pos(), "what was used is only forgotten at the start and at each tick", factsText(k.st))
				reset[fd] = true
			}
			k.st.ghost["reset:"+fd] = TTrue
			return nil
		})
		ticks := 0
		e.hooks.markRecv = func(fr *Frame, st *State, in ssa.Instruction, ch *Term) {
			late(st, c.pg.pos(in.Pos()))
			a, _ := fieldCell(tk.typ.Underlying().(*types.Pointer).Elem(), tk, "C")
			if st.f.find(ch) == st.f.find(st.load(a, ch.typ)) || mentions(ch, tk) {
				st.ghost["ticks"] = IntC(1)
				if e.dry == 0 {
					ticks++
				}
			} else {
				st.ghost["ticks"] = IntC(2)
			}
		}
		for round := 0; round < 2; round++ { // the counters are known in the second
			e.Run(st.clone(), f, as, nil)
		}
		c.check(ticks > 0 && len(reset) >= 2, "tick:each", where, "at each tick what was used is forgotten", "there are no ticks, or nothing is reset")
		c.done(e, "tick")
	})
	return reset
}

// setRate: the rate is the one that is set.
func (c *Ctx) setRate(dir string) (field string) {
	c.guard("set:"+dir, "setting a rate", func() {
		f := c.anchor("(*" + tRL + ").Set" + dir + "Rate")
		where := c.pg.pos(f.Pos())
		e := c.exec(f.RelString(nil))
		e.paths = true
		st := c.state()
		as := c.args(st, f)
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		atomics(h, func(k *Call, op string, addr, v *Term) *Term {
			if op == "Store" || op == "Swap" {
				field = fieldOfAddr(addr)
				k.st.ghost["set"] = v
			}
			return nil
		})
		h["(*sync.Mutex).Lock"] = func(k *Call) ([]Res, bool) {
			// a write that waits for the rate holds its lock
			c.fail("set:lock", k.pos(), "a limit can be changed while a transfer waits for it", "the lock is taken")
			return k.ret(), true
		}
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			s, v := o.st, I(as[1])
			neg := s.clone()
			pos := s.clone()
			okNeg := !neg.learn(Lt(v, IntC(0))) || s.ghost["set"] != nil && neg.holds(EqI(I(s.ghost["set"]), IntC(-1)))
			okPos := !pos.learn(Ge0(v)) || s.ghost["set"] != nil && pos.holds(EqI(I(s.ghost["set"]), v))
			c.check(okNeg && okPos, "set:"+dir, where, "the limit is the one that is set, and none when it is negative", factsText(s))
		}
		c.done(e, "set:"+dir)
	})
	return
}

// gate: a transfer waits while the limit is used up, and is counted before the
// next one may look.
func (c *Ctx) gate(dir, rate string, reset map[string]bool) {
	c.guard("gate:"+dir, "limiting "+dir, func() {
		f := c.anchor("(*" + tRL + ")." + dir)
		where := c.pg.pos(f.Pos())
		e := c.exec(f.RelString(nil))
		e.paths, e.sc = true, 100
		st := c.state()
		as := c.args(st, f)
		n := st.lenOf(as[2], f.Params[2].Type())
		i64 := types.Typ[types.Int64]
		u, r, added := pg("used", i64), pg("rate", i64), pg("added", i64)
		st.mem[u], st.mem[r], st.mem[added] = IntC(0), IntC(0), IntC(0)
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		get := func(st *State, c *Term) *Term { return I(st.load(c, i64)) }
		used := map[string]bool{} // the counters that a transfer is held up by
		free := func(st *State) bool {
			return st.ghost["rated"] != nil && st.holds(EqI(get(st, r), IntC(-1)))
		}
		room := func(st *State) bool {
			return st.ghost["rated"] != nil && st.ghost["seen"] != nil && st.holds(Lt(get(st, u), get(st, r)))
		}
		atomics(h, func(k *Call, op string, addr, v *Term) *Term {
			fd := fieldOfAddr(addr)
			switch {
			case op == "Load" && fd == rate:
				x := k.fresh("rate", i64)
				k.st.store(r, x, i64)
				k.st.ghost["rated"] = TTrue
				return x
			case op == "Load" && reset[fd]:
				x := k.fresh("used", i64)
				k.st.store(u, x, i64)
				used[fd] = true
				delete(k.st.ghost, "seen")
				if k.st.ghost["lock"] != nil {
					k.st.ghost["seen"] = mkSeqLit(fd)
				}
				return x
			case op == "Add" && reset[fd]:
				if e.dry == 0 {
					c.check(len(used) == 0 || used[fd], "gate:counter:"+dir, k.pos(), "what is counted is what transfers are held up by", fd)
				}
				if room(k.st) && k.st.ghost["lock"] != nil || free(k.st) {
					k.st.ghost["gated"] = TTrue
				}
				k.st.store(added, Add(get(k.st, added), v), i64)
			case op != "Load" && (reset[fd] || fd == rate):
				if e.dry == 0 {
					c.fail("gate:changes:"+dir, k.pos(), "a transfer only adds to what was used", fd)
				}
			}
			return nil
		})
		for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.RWMutex).Lock"} {
			h[n] = func(k *Call) ([]Res, bool) {
				// a lock of its own would keep nobody out
				if mentions(k.args[0], as[0]) || rootOf(k.args[0]).k == KGlob {
					k.st.ghost["lock"] = k.args[0]
				}
				delete(k.st.ghost, "seen")
				return k.ret(), true
			}
		}
		for _, n := range []string{"(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock"} {
			h[n] = func(k *Call) ([]Res, bool) {
				delete(k.st.ghost, "lock")
				delete(k.st.ghost, "seen")
				return k.ret(), true
			}
		}
		h["time.Sleep"] = func(k *Call) ([]Res, bool) {
			if e.dry == 0 {
				c.check(k.st.ghost["rated"] != nil && k.st.never(EqI(get(k.st, r), IntC(-1))) && k.st.holds(Le(get(k.st, r), get(k.st, u))), "gate:waits:"+dir, k.pos(), "a transfer only waits while there is a limit and it is used up", factsText(k.st))
			}
			return k.ret(), true
		}
		m := 0
		io := func(k *Call) ([]Res, bool) {
			if e.dry == 0 {
				m++
				c.check(k.st.ghost["gated"] != nil || free(k.st), "gate:passes:"+dir, k.pos(), "under a limit a transfer starts only after it saw, holding the lock, that the limit is not used up, and was counted before the lock was released", factsText(k.st))
			}
			return unknownCall(k), true
		}
		if dir == "Write" {
			h["(io.Writer).Write"], h["(net.Conn).Write"] = io, io
		} else {
			for _, n := range []string{"io.ReadFull", "io.ReadAtLeast", "(io.Reader).Read", "(net.Conn).Read"} {
				h[n] = io
			}
		}
		outs := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			outs++
			c.check(o.st.holds(EqI(get(o.st, added), n)), "gate:counted:"+dir, where, "each transfer is counted once, with its size", get(o.st, added).String(), n.String())
			c.check(o.st.ghost["lock"] == nil, "gate:released:"+dir, where, "the lock is released when a transfer ends", factsText(o.st))
		}
		c.check(m > 0 && outs > 0 && len(used) == 1, "gate:passes:"+dir, where, "under a limit a transfer starts only after it saw, holding the lock, that the limit is not used up, and was counted before the lock was released", "nothing is transferred or looked at")
		c.done(e, "gate:"+dir)
	})
}

// wholeTransfer: without an error, all of the data was transferred, once.
func (c *Ctx) wholeTransfer(dir string) {
	c.guard("whole:"+dir, "transferring all data", func() {
		f := c.anchor("(*" + tRL + ")." + dir)
		where := c.pg.pos(f.Pos())
		e := c.exec(f.RelString(nil))
		e.sc = 100
		st := c.state()
		as := c.args(st, f)
		base, off, n, _ := parts(st.f.find(as[2]))
		st.learn(Le(n, IntC(1<<40)))
		i64 := types.Typ[types.Int64]
		done := pg("done", i64)
		st.mem[done] = IntC(0)
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		e.hooks.anyCall = nil
		// how many bytes a call transfers if it gives no error: at least min
		io := func(buf int, min func(k *Call, l *Term) *Term) func(k *Call) ([]Res, bool) {
			return func(k *Call) ([]Res, bool) {
				b, o, l, _ := parts(k.st.f.find(k.args[buf]))
				cur := I(k.st.load(done, i64))
				if e.dry == 0 {
					c.check(k.st.f.find(b) == k.st.f.find(base) && k.st.holds(EqI(o, Add(off, cur))) && k.st.holds(Le(Add(cur, l), n)), "whole:place:"+dir, k.pos(), "what is transferred is the caller's data, each byte once", k.args[buf].String(), "after "+cur.String(), factsText(k.st))
				}
				good, bad := k.st.clone(), k.st.clone()
				m := min(k, l)
				cnt := l
				if m != l {
					cnt = I(k.fresh("cnt", i64))
					good.learn(Le(m, cnt))
					good.learn(Le(cnt, l))
				}
				good.store(done, Add(cur, cnt), i64)
				bad.ghost["failed"] = TTrue
				lost := I(k.fresh("lost", i64))
				bad.learn(Ge0(lost))
				bad.learn(Le(lost, l))
				bad.store(done, Add(cur, lost), i64)
				return []Res{{st: good, vals: []*Term{cnt, TNil}}, {st: bad, vals: []*Term{lost, k.newErr("transfer")}}}, true
			}
		}
		all := func(k *Call, l *Term) *Term { return l }
		some := func(k *Call, l *Term) *Term { return IntC(0) }
		if dir == "Write" {
			h["(io.Writer).Write"], h["(net.Conn).Write"] = io(1, all), io(1, all)
		} else {
			h["io.ReadFull"] = io(1, all)
			h["io.ReadAtLeast"] = io(1, func(k *Call, l *Term) *Term { return I(k.args[2]) })
			h["(io.Reader).Read"], h["(net.Conn).Read"] = io(1, some), io(1, some)
		}
		h["time.Sleep"] = func(k *Call) ([]Res, bool) { return k.ret(), true }
		outs := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			outs++
			if o.st.ghost["failed"] != nil {
				c.check(o.st.nonNil(o.vals[0]), "whole:error:"+dir, where, "a transfer that failed gives the error", factsText(o.st))
				continue
			}
			if o.st.nonNil(o.vals[0]) {
				continue
			}
			c.check(o.st.holds(EqI(I(o.st.load(done, i64)), n)), "whole:"+dir, where, "a transfer that gives no error transferred all of the data", o.st.load(done, i64).String(), n.String(), factsText(o.st))
		}
		c.check(outs > 0, "whole:"+dir, where, "a transfer returns")
		c.done(e, "whole:"+dir)
	})
}

// limiterWiring: the limits are those of the options, and the clock runs.
func (c *Ctx) limiterWiring() {
	c.guard("wired", "the limiter of a swarm", func() {
		f := c.anchor("gotor/swarm.NewSwarm")
		where := c.pg.pos(f.Pos())
		e := c.exec(f.RelString(nil))
		e.invs = c.allInvs()
		delete(e.invs, tSwarm)
		delete(e.invs, tPH)
		delete(e.invs, tPPT)
		e.sc, e.ideal = 64, true
		st := c.state()
		as := []*Term{Sym("own:opts", f.Params[0].Type())}
		st.learn(Not(EqT(as[0], TNil)))
		want := map[string]*Term{}
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		for d, g := range map[string]string{"Write": "UpLimit", "Read": "DnLimit"} {
			d := d
			want[d] = e.getter(st, as[0], "(*gotor/utils.Opts)."+g)
			h["(*"+tRL+").Set"+d+"Rate"] = func(k *Call) ([]Res, bool) {
				delete(k.st.ghost, d)
				if k.st.holds(EqI(I(k.args[1]), I(want[d]))) {
					k.st.ghost[d] = k.st.f.find(k.args[0])
				}
				return k.ret(), true
			}
		}
		h["gotor/io.NewRateLimitIO"] = c.fresh("gotor/io.RateLimitIO")
		h["gotor/torrent.FromTorrentFile"] = func(k *Call) ([]Res, bool) { return c.freshCall(e, k, tTor) }
		h["gotor/tracker.Get"] = func(k *Call) ([]Res, bool) { return c.freshCall(e, k, "gotor/tracker.Response") }
		for _, n := range []string{"(*" + tFIO + ").OCATAll", "(*" + tSwarm + ").Validate"} {
			h[n] = func(k *Call) ([]Res, bool) { return unknownCall(k), true }
		}
		n := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil || !o.st.isNil(o.vals[1]) {
				continue
			}
			n++
			rl := o.st.f.find(o.st.field(c.typ(tSwarm), o.vals[0], "RLIO"))
			for _, d := range []string{"Write", "Read"} {
				c.check(o.st.ghost[d] == rl, "wired:"+d, where, "the limits of the swarm are those of the options", rl.String())
			}
		}
		c.check(n > 0, "wired:Write", where, "the limits of the swarm are those of the options", "no swarm is made")
		c.done(e, "wired")

		run := c.anchor("(*" + tRL + ").Run")
		runs := 0
		for g := range c.pg.reachable(nil, c.anchor("gotor.main")) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if x, ok := in.(*ssa.Go); ok {
						if cal := x.Call.StaticCallee(); cal != nil && c.pg.reachable(nil, cal)[run] {
							runs++
						}
					}
				}
			}
		}
		c.check(runs > 0, "wired:runs", c.pg.pos(run.Pos()), "the limiter's clock runs while the client does")
	})
}

func (c *Ctx) fresh(typ string) func(k *Call) ([]Res, bool) {
	return func(k *Call) ([]Res, bool) {
		v := Sym("own:"+typ, types.NewPointer(c.typ(typ)))
		k.st.learn(Not(EqT(v, TNil)))
		return k.ret(v), true
	}
}

func (c *Ctx) freshCall(e *Exec, k *Call, typ string) ([]Res, bool) {
	rs, ok := c.freshOrErr(e, typ, nil)(k)
	return rs, ok
}

// throughLimiter: the blocks and requests that are sent pass the limiter.
func (c *Ctx) throughLimiter() {
	for _, f := range c.handlerRoots() {
		f := f
		c.guard("uploads", "serving requests", func() {
			e := c.exec(f.RelString(nil))
			e.invs = c.allInvs()
			e.sc, e.unrollMax, e.paths = 400, 100, true
			st := c.state()
			_, b := c.reqBytes("1")
			args := c.args(st, f)
			for i, p := range f.Params {
				if isByteSlice(p.Type()) {
					args[i] = byteArg(st, "received", b)
				}
			}
			n := 0
			c.sinks(e, func(s sent) {
				n++
				c.check(s.via == "limiter", "uploads:limited", s.pos, "what is sent in answer to a request passes the limiter", s.stack)
			})
			e.Run(st, f, args, nil)
			c.check(n > 0, "uploads:limited", c.pg.pos(f.Pos()), "what is sent in answer to a request passes the limiter", "nothing is sent")
			c.done(e, "uploads")
		})
	}
}

// downloads: what peers send after the handshake passes the limiter.
func (c *Ctx) downloads() {
	c.guard("downloads", "reading from peers", func() {
		loop := c.anchor("(*" + tPH + ").Loop")
		lim := c.anchor("(*" + tRL + ").Read")
		n := 0
		for f := range c.pg.reachable(func(f *ssa.Function) bool { return f == lim }, loop) {
			if !c.pg.isRepo(f) || f == lim {
				continue
			}
			_, cs := c.pg.callees(f)
			for _, ci := range cs {
				name := callName(ci)
				direct := name == "(net.Conn).Read" || strings.HasSuffix(name, ".Read") && strings.HasPrefix(name, "(*net.")
				for _, a := range ci.Common().Args {
					if m, ok := a.(*ssa.MakeInterface); ok && m.X.Type().String() == "net.Conn" || a.Type().String() == "net.Conn" {
						direct = direct || strings.HasPrefix(name, "io.Read") || strings.HasPrefix(name, "io.Copy") || strings.HasPrefix(name, "bufio.New")
					}
					if ch, ok := a.(*ssa.ChangeInterface); ok && ch.X.Type().String() == "net.Conn" {
						direct = direct || strings.HasPrefix(name, "io.Read") || strings.HasPrefix(name, "io.Copy") || strings.HasPrefix(name, "bufio.New")
					}
				}
				if direct {
					n++
					c.fail("downloads:"+callerPkg(f), c.pg.pos(ci.Pos()), "what peers send is read through the limiter", name)
				}
			}
		}
		if n == 0 {
			c.ok("downloads:none", "", "what peers send is read through the limiter")
		}
	})
}

func callerPkg(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return f.RelString(nil)
	}
	return f.Pkg.Pkg.Path()
}

func init() {
	register(&Prop{
		id: "C17", title: "The rate limits hold",
		rule:   "The limiter is interpreted with every load of a shared counter giving any value: under a limit a transfer begins only after seeing, under the lock, that the limit is not used up, and is counted before the lock is released; only the clock resets the counters, once a second.",
		assume: []string{"time.NewTicker ticks at its interval", "a mutex excludes"},
		min:    map[string]int{"gate": 8, "tick": 4},
		run:    runC17,
	})
}

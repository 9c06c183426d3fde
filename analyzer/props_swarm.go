package main

// What a peer handler sends: handshakes, messages and the blocks of requests.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func wireOf(st *State) *Term {
	if v := st.ghost["wire"]; v != nil {
		return v
	}
	return Seq()
}

type sent struct {
	st    *State
	conn  *Term
	data  *Term
	via   string
	pos   string
	stack string
}

// sinks makes the places where bytes leave record what they are given.
// fail: explore failing writes too.
func (c *Ctx) sinks(e *Exec, see func(s sent)) {
	if e.hooks.call == nil {
		e.hooks.call = map[string]func(k *Call) ([]Res, bool){}
	}
	rec := func(k *Call, conn, data *Term, via string) *Term {
		x := k.st.sliceContent(data)
		if k.e.sinkMark != nil {
			k.e.sinkMark(k.st, x) // instead of all that is sent
		} else {
			k.st.ghost["wire"] = Seq(wireOf(k.st), x)
		}
		if see != nil && e.dry == 0 {
			see(sent{k.st, conn, x, via, k.pos(), k.fr.stack()})
		}
		return x
	}
	e.hooks.call["(*"+tRL+").Write"] = func(k *Call) ([]Res, bool) {
		rec(k, k.args[1], k.args[2], "limiter")
		good, bad := k.st.clone(), k.st.clone()
		if !k.e.noFail {
			bad.ghost["wfail"] = Bool(true)
		}
		return []Res{{st: good, vals: []*Term{TNil}}, {st: bad, vals: []*Term{k.newErr("write")}}}, true
	}
	raw := func(k *Call) ([]Res, bool) {
		x := rec(k, k.args[0], k.args[1], "connection")
		good, bad := k.st.clone(), k.st.clone()
		if !k.e.noFail {
			bad.ghost["wfail"] = Bool(true)
		}
		n := I(Sym("n:"+k.site, lenType))
		bad.learn(Ge0(n))
		bad.learn(Le(n, seqLen(x)))
		return []Res{{st: good, vals: []*Term{seqLen(x), TNil}}, {st: bad, vals: []*Term{n, k.newErr("write")}}}, true
	}
	e.hooks.call["(net.Conn).Write"] = raw
	e.hooks.call["(io.Writer).Write"] = raw
}

// byteArg is a byte slice with the given content.
func byteArg(st *State, name string, content *Term) *Term {
	base := Sym("own:"+name, nil)
	n := seqLen(content)
	k, _ := n.constI64()
	arrLen[base] = k
	st.writeBytes(base, IntC(0), content)
	return mkSlice(base, IntC(0), n, n)
}

// handlerRoots: the functions of the handler that are given received bytes
// and decode them.
func (c *Ctx) handlerRoots() []*ssa.Function {
	dec := c.anchor("gotor/p2p.DecodeAll")
	var r []*ssa.Function
	for _, f := range c.pg.allFns {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != "gotor/swarm" || len(f.Blocks) == 0 {
			continue
		}
		calls := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == dec {
					calls = true
				}
			}
		}
		if !calls {
			continue
		}
		hp, bp := false, false
		for _, p := range f.Params {
			hp = hp || p.Type().String() == "*"+tPH
			bp = bp || isByteSlice(p.Type())
		}
		if hp && bp {
			r = append(r, f)
		}
	}
	if len(r) == 0 {
		panic(undecided{"no function of the handler is given received bytes to decode"})
	}
	return r
}

type reqSym struct{ idx, begin, ln *Term }

func (c *Ctx) reqBytes(n string) (reqSym, *Term) {
	u := types.Typ[types.Uint32]
	r := reqSym{I(Sym("req"+n+":index", u)), I(Sym("req"+n+":begin", u)), I(Sym("req"+n+":length", u))}
	return r, Seq(byteLit(0, 0, 0, 13, 6), be32(r.idx), be32(r.begin), be32(r.ln))
}

func pieceData(idx *Term) *Term { return App("piece", nil, I(idx)) }
func pieceLenOf(idx *Term) *Term {
	return I(App("plen", types.Typ[types.Int64], I(idx)))
}

func runC08(c *Ctx) {
	c.handlerInvariant()
	for _, f := range c.handlerRoots() {
		for n := 1; n <= 2; n++ {
			c.serveRequests(f, n)
		}
	}
	c.uploadsThroughLimiter()
}

func (c *Ctx) serveRequests(f *ssa.Function, nreq int) {
	name := f.RelString(nil)
	c.guard(fmt.Sprintf("serve:%d", nreq), "serving requests", func() {
		e := c.exec(name)
		e.invs = c.allInvs()
		e.sc, e.unrollMax, e.paths = 400, 100, true
		st := c.state()
		var rs []reqSym
		var in []*Term
		for i := 0; i < nreq; i++ {
			r, b := c.reqBytes(fmt.Sprint(i + 1))
			rs = append(rs, r)
			in = append(in, b)
		}
		args := c.args(st, f)
		var ph *Term
		for i, p := range f.Params {
			if isByteSlice(p.Type()) {
				args[i] = byteArg(st, "received", Seq(in...))
			}
			if p.Type().String() == "*"+tPH {
				ph = args[i]
			}
		}
		conn := st.field(c.typ(tPH), ph, "conn")
		sw := st.field(c.typ(tPH), ph, "swarm")
		np := func(st *State) *Term {
			ti := e.getter(st, st.field(c.typ(tSwarm), sw, "Tor"), "(*gotor/torrent.Torrent).Info")
			return I(e.getter(st, ti, "(*gotor/torrent/info.TorInfo).NumPieces"))
		}
		ourBf := st.field(c.typ(tSwarm), sw, "Bf")
		all := Sym("have:all", types.Typ[types.Bool])
		have := func(i *Term) *Term { return App("have", types.Typ[types.Bool], I(i)) }
		c.sinks(e, func(s sent) {
			c.check(s.conn == conn || s.st.holds(EqT(s.conn, conn)), "serve-to:"+lastFn(s.stack), s.pos, "a block is sent on the connection that the request came from", s.conn.String())
		})
		h := e.hooks.call
		h["(*gotor/bf.Bitfield).Complete"] = func(k *Call) ([]Res, bool) {
			if k.st.f.find(k.args[0]) != k.st.f.find(ourBf) {
				return unknownCall(k), true
			}
			// complete: every piece is in the bitfield
			yes, no := k.st.clone(), k.st.clone()
			var out []Res
			ok := yes.learn(all)
			for _, r := range rs {
				ok = ok && yes.learn(have(r.idx))
			}
			if ok {
				out = append(out, Res{st: yes, vals: []*Term{Bool(true)}})
			}
			if no.learn(Not(all)) {
				out = append(out, Res{st: no, vals: []*Term{Bool(false)}})
			}
			return out, true
		}
		h["(*gotor/bf.Bitfield).Get"] = func(k *Call) ([]Res, bool) {
			if k.st.f.find(k.args[0]) != k.st.f.find(ourBf) {
				return unknownCall(k), true
			}
			// Get of a position outside is a crash (C01)
			st := k.st
			if !st.learn(Ge0(I(k.args[1]))) || !st.learn(Lt(I(k.args[1]), np(st))) {
				return nil, true
			}
			return k.ret(have(k.args[1])), true
		}
		h["(*"+tFIO+").ReadPiece"] = func(k *Call) ([]Res, bool) {
			i := I(k.args[1])
			base, off, ln, _ := parts(k.st.f.find(k.args[2]))
			pl := pieceLenOf(i)
			good, bad := k.st.clone(), k.st.clone()
			var out []Res
			if good.learn(Ge0(i)) && good.learn(Lt(i, np(good))) && good.learn(Ge0(pl)) && good.learn(Le(pl, ln)) {
				good.writeBytes(base, off, Seq(mkSub(pieceData(i), IntC(0), pl)))
				out = append(out, Res{st: good, vals: []*Term{pl, TNil}})
			}
			// on failure anything may be in the buffer
			bad.writeBytes(base, off, Seq(mkSub(Sym("garbage:"+k.site, nil), IntC(0), ln)))
			bad.ghost["rfail"] = Bool(true)
			out = append(out, Res{st: bad, vals: []*Term{IntC(0), k.newErr("read")}})
			return out, true
		}
		where := c.pg.pos(f.Pos())
		served := 0
		for _, o := range e.Run(st, f, args, nil) {
			if o.panic != nil {
				continue
			}
			wire := wireOf(o.st)
			failed := false
			if len(o.vals) > 0 {
				last := o.vals[len(o.vals)-1]
				failed = !o.st.isNil(last)
			}
			// which of the requests were answered: the shortest explanation
			answer := func(r reqSym) *Term {
				return Seq(be32(AddC(r.ln, 9)), byteLit(7), be32(r.idx), be32(r.begin), mkSub(pieceData(r.idx), r.begin, r.ln))
			}
			ok := false
			var set []int
			for m := 0; m < 1<<uint(nreq) && !ok; m++ {
				want := Seq()
				set = nil
				for i, r := range rs {
					if m>>uint(i)&1 == 1 {
						want = Seq(want, answer(r))
						set = append(set, i)
					}
				}
				ok = o.st.f.seqEqual(wire, want)
			}
			if !c.check(ok, "served-block", where, "what is sent for requests is exactly one piece message per answered request: its index and offset, and those bytes of the stored piece, in order", "sent "+wire.String(), factsText(o.st)) {
				continue
			}
			answered := map[int]bool{}
			for _, i := range set {
				answered[i] = true
				served++
				r := rs[i]
				c.check(o.st.holds(have(r.idx)) || o.st.holds(all), "served-only-owned", where, "only pieces that are in the bitfield are sent", factsText(o.st))
				c.check(o.st.holds(Lt(r.idx, np(o.st))), "served-in-range", where, "only pieces that exist are sent", factsText(o.st))
				c.check(o.st.holds(Le(Add(r.begin, r.ln), pieceLenOf(r.idx))), "served-in-range", where, "only bytes inside the piece are sent", factsText(o.st))
			}
			// a valid request is answered
			for i, r := range rs {
				if answered[i] {
					continue
				}
				if o.st.ghost["rfail"] != nil || o.st.ghost["wfail"] != nil {
					break
				}
				s := o.st.clone()
				valid := s.learn(Lt(r.idx, np(s))) && s.learn(have(r.idx)) && s.learn(Le(Add(r.begin, r.ln), pieceLenOf(r.idx))) && s.learn(Le(IntC(1), r.ln)) && s.learn(Le(r.ln, IntC(16384)))
				// after an error the handler gives up: only the first failure counts
				c.check(!valid, "valid-request-answered", where, "a request of up to 16 KiB inside a piece that is in the bitfield is answered", fmt.Sprint("request ", i+1, " failed=", failed), factsText(o.st))
				if failed {
					break
				}
			}
		}
		if served == 0 {
			c.fail("served-block", where, "some request is answered")
		}
		c.done(e, "serve")
	})
}

func lastFn(stack string) string {
	if i := strings.LastIndex(stack, " > "); i >= 0 {
		return stack[i+3:]
	}
	return stack
}

// uploadsThroughLimiter: RateLimitIO.Write hands the bytes on.
func (c *Ctx) uploadsThroughLimiter() {
	c.guard("limiter-writes", "the limiter writes what it is given", func() {
		f := c.anchor("(*" + tRL + ").Write")
		e := c.exec(f.RelString(nil))
		st := c.state()
		as := c.args(st, f)
		content := st.sliceContent(as[2])
		e.hooks.call = map[string]func(k *Call) ([]Res, bool){}
		c.sinks(e, func(s sent) {
			c.check(s.conn == as[1], "limiter-writes", s.pos, "the limiter writes to the writer it is given")
		})
		delete(e.hooks.call, "(*"+tRL+").Write")
		n := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			n++
			if o.st.ghost["wfail"] != nil {
				c.check(o.st.nonNil(o.vals[0]), "limiter-error", c.pg.pos(f.Pos()), "a failed write is reported")
				continue
			}
			c.check(o.st.f.seqEqual(wireOf(o.st), content), "limiter-writes", c.pg.pos(f.Pos()), "the limiter writes the bytes it is given, once", wireOf(o.st).String())
			c.check(o.st.isNil(o.vals[0]), "limiter-writes", c.pg.pos(f.Pos()), "a successful write is not an error")
		}
		if n == 0 {
			c.fail("limiter-writes", c.pg.pos(f.Pos()), "Write returns")
		}
		c.done(e, "limiter-writes")
	})
}

func init() {
	register(&Prop{id: "C08", title: "A served block is exactly the requested bytes",
		rule: "the handler is interpreted on one and on two requests with any index, offset and length; every byte that leaves is compared with the piece message for that request",
		run:  runC08, min: map[string]int{"served-block": 1, "limiter-writes": 1}})
}

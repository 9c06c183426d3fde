package main

// Handshakes, what is sent on a connection, and the requests for a piece.

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

const protoStr = "BitTorrent protocol"

func handshakeSeq(infohash, id *Term) *Term {
	return Seq(byteLit(19), mkLit(protoStr), mkLit("\x00\x00\x00\x00\x00\x00\x00\x00"), asSeq(infohash), asSeq(id))
}

// validHs: the content is known to be a handshake for the infohash.
func validHs(st *State, content, infohash *Term) (bool, string) {
	b := seqByte(st.f, content, IntC(0))
	if b == nil || !st.holds(EqI(b, IntC(19))) {
		return false, "the length of the protocol name is not checked"
	}
	p := seqSlice(st.f, content, IntC(1), IntC(19))
	if p == nil || !st.f.seqEqual(p, mkSeqLit(protoStr)) && !st.holds(EqT(p, mkSeqLit(protoStr))) {
		return false, "the protocol name is not checked"
	}
	h := seqSlice(st.f, content, IntC(28), IntC(20))
	if h == nil || !st.f.seqEqual(h, asSeq(infohash)) && !st.holds(EqT(h, asSeq(infohash))) && !st.holds(EqT(asSeq(infohash), h)) {
		return false, "the infohash is not checked"
	}
	return true, ""
}

func mkSeqLit(s string) *Term { return Seq(mkLit(s)) }

// recvHooks names what is read from a connection.
func (c *Ctx) recvHooks(e *Exec, see func(k *Call, conn *Term)) {
	if e.hooks.call == nil {
		e.hooks.call = map[string]func(k *Call) ([]Res, bool){}
	}
	read := func(full bool) func(k *Call) ([]Res, bool) {
		return func(k *Call) ([]Res, bool) {
			if see != nil && e.dry == 0 {
				see(k, k.args[0])
			}
			base, off, ln, _ := parts(k.st.f.find(k.args[1]))
			src := Sym("rd:"+k.site, nil)
			good, bad := k.st.clone(), k.st.clone()
			n := ln
			if !full {
				n = I(Sym("n:"+k.site, lenType))
				good.learn(Le(IntC(1), n))
				good.learn(Le(n, ln))
			}
			x := Seq(mkSub(src, IntC(0), n))
			good.writeBytes(base, off, x)
			prev := good.ghost["read"]
			if prev == nil {
				prev = Seq()
			}
			good.ghost["read"] = Seq(prev, x)
			good.ghost["readconn"] = k.args[0]
			bn := I(Sym("n:"+k.site, lenType))
			bad.writeBytes(base, off, Seq(mkSub(Sym("rdbad:"+k.site, nil), IntC(0), ln)))
			bad.learn(Ge0(bn))
			bad.learn(Le(bn, ln))
			bad.ghost["iofail"] = TTrue
			return []Res{{st: good, vals: []*Term{n, TNil}}, {st: bad, vals: []*Term{bn, k.newErr("read")}}}, true
		}
	}
	e.hooks.call["io.ReadFull"] = read(true)
	e.hooks.call["(net.Conn).Read"] = read(false)
	e.hooks.call["(io.Reader).Read"] = read(false)
	dl := func(k *Call) ([]Res, bool) {
		good, bad := k.st.clone(), k.st.clone()
		good.ghost["deadline"] = TTrue
		bad.ghost["iofail"] = TTrue
		return []Res{{st: good, vals: []*Term{TNil}}, {st: bad, vals: []*Term{k.newErr("deadline")}}}, true
	}
	e.hooks.call["(net.Conn).SetReadDeadline"] = dl
	e.hooks.call["(net.Conn).SetDeadline"] = dl
}

func (c *Ctx) setupPeer(name string, incoming bool) {
	dir := "outgoing"
	if incoming {
		dir = "incoming"
	}
	c.guard("handshake:"+dir, "the handshake of "+dir+" connections", func() {
		f := c.anchor(name)
		where := c.pg.pos(f.Pos())
		e := c.exec(name)
		e.invs = c.allInvs()
		e.sc, e.paths, e.unrollMax = 400, true, 100
		st := c.state()
		args := c.args(st, f)
		var conn, sw *Term
		for i, p := range f.Params {
			switch p.Type().String() {
			case "net.Conn":
				conn = args[i]
			case "*" + tSwarm:
				sw = args[i]
			}
		}
		if sw == nil {
			panic(undecided{name + " has no swarm"})
		}
		tor := func(st *State) *Term { return st.field(c.typ(tSwarm), sw, "Tor") }
		ih := func(st *State) *Term {
			return e.getter(st, tor(st), "(*gotor/torrent.Torrent).Infohash")
		}
		ours := func(st *State) *Term { return handshakeSeq(ih(st), st.field(c.typ(tSwarm), sw, "Id")) }
		c.recvHooks(e, func(k *Call, cn *Term) {
			c.check(k.st.ghost["deadline"] != nil, "handshake-deadline:"+dir, k.pos(), "a handshake is waited for with a deadline")
		})
		connOf := func(st *State) *Term {
			if conn != nil {
				return conn
			}
			return st.ghost["dialled"]
		}
		c.sinks(e, func(s sent) {
			c.check(s.conn == connOf(s.st), "handshake-to:"+dir, s.pos, "the handshake is sent on the new connection")
			if incoming {
				rd := s.st.ghost["read"]
				ok, why := false, "nothing was read"
				if rd != nil && s.st.ghost["readconn"] == conn {
					ok, why = validHs(s.st, rd, ih(s.st))
				}
				c.check(ok, "handshake-first:incoming", s.pos, "nothing is sent to a peer that has not sent a valid handshake for the torrent", why, "path "+s.stack)
			}
		})
		e.hooks.call["(net.Addr).String"] = nil
		delete(e.hooks.call, "(net.Addr).String")
		dial := func(k *Call) ([]Res, bool) {
			good, bad := k.st.clone(), k.st.clone()
			v := Sym("dial:"+k.site, k.sig.Results().At(0).Type())
			good.learn(notNil(v))
			good.ghost["dialled"] = v
			bad.ghost["iofail"] = TTrue
			return []Res{{st: good, vals: []*Term{v, TNil}}, {st: bad, vals: []*Term{TNil, k.newErr("dial")}}}, true
		}
		e.hooks.call["net.Dial"] = dial
		e.hooks.call["net.DialTimeout"] = dial
		e.hooks.call["(net.Conn).RemoteAddr"] = func(k *Call) ([]Res, bool) {
			return k.ret(Sym("remote", k.sig.Results().At(0).Type())), true
		}
		n := 0
		for _, o := range e.Run(st, f, args, nil) {
			if o.panic != nil {
				continue
			}
			errv := o.vals[len(o.vals)-1]
			wire := wireOf(o.st)
			want := ours(o.st)
			bfp := o.st.field(c.typ(tSwarm), sw, "Bf")
			body := o.st.sliceContent(e.getter(o.st, bfp, "(*gotor/bf.Bitfield).Data"))
			if !o.st.isNil(errv) {
				c.check(o.st.isNil(o.vals[0]) || !o.st.holds(EqT(errv, TNil)), "handshake-fails:"+dir, where, "a failed handshake gives an error")
				// a valid one is not refused
				if o.st.ghost["iofail"] == nil && o.st.ghost["wfail"] == nil && o.st.ghost["read"] != nil {
					s := o.st.clone()
					ok := true
					rd := s.ghost["read"]
					if b := seqByte(s.f, rd, IntC(0)); b != nil {
						ok = ok && s.learn(EqI(b, IntC(19)))
					}
					if p := seqSlice(s.f, rd, IntC(1), IntC(19)); p != nil {
						ok = ok && s.learn(EqT(p, mkSeqLit(protoStr)))
					}
					if h := seqSlice(s.f, rd, IntC(28), IntC(20)); h != nil {
						ok = ok && s.learn(EqT(h, asSeq(ih(s))))
					}
					c.check(!ok, "handshake-accepts:"+dir, where, "a valid handshake is accepted", factsText(o.st))
				}
				continue
			}
			n++
			rd := o.st.ghost["read"]
			ok, why := false, "nothing was read"
			if rd != nil && o.st.ghost["readconn"] == connOf(o.st) {
				ok, why = validHs(o.st, rd, ih(o.st))
			}
			c.check(ok, "handshake-checked:"+dir, where, "a handler is only made for a peer that sent a valid handshake for the torrent on this connection", why, factsText(o.st))
			if rd != nil {
				c.check(o.st.holds(EqI(seqLen(rd), IntC(68))), "handshake-length:"+dir, where, "exactly the 68 bytes of the handshake are read before the messages", seqLen(rd).String())
			}
			head, tail := wire, Seq()
			if l := seqLen(wire); !o.st.holds(EqI(l, IntC(68))) {
				head = seqSlice(o.st.f, wire, IntC(0), IntC(68))
				tail = seqSlice(o.st.f, wire, IntC(68), AddC(l, -68))
			}
			hsOk, why := false, "less than a handshake is sent"
			if head != nil {
				hsOk, why = validHs(o.st, head, ih(o.st))
				id := seqSlice(o.st.f, head, IntC(48), IntC(20))
				own := o.st.field(c.typ(tSwarm), sw, "Id")
				if hsOk && (id == nil || !o.st.f.seqEqual(id, asSeq(own)) && !o.st.holds(EqT(id, asSeq(own)))) {
					hsOk, why = false, "the peer id is not the client's"
				}
				rsv := seqSlice(o.st.f, head, IntC(20), IntC(8))
				if hsOk && (rsv == nil || !o.st.f.seqEqual(rsv, mkSeqLit("\x00\x00\x00\x00\x00\x00\x00\x00"))) {
					hsOk, why = false, "the reserved bytes are not zero"
				}
			}
			c.check(hsOk, "handshake-sent:"+dir, where, "the peer is sent the handshake of the torrent", why, "sent "+wire.String(), "want "+want.String())
			// nothing or the bitfield after it
			bfOk := tail != nil && (!incoming && tail == Seq())
			if !bfOk && tail != nil {
				s2 := o.st.clone()
				q := c.exec("gotor/p2p.NewMsgBitfield")
				q.invs, q.paths = e.invs, true
				bfOk = true
				k := 0
				for _, m := range c.runNamed(q, s2, "gotor/p2p.NewMsgBitfield", bfp) {
					for _, w := range c.callMethod(q, m.st, m.vals[0], c.anchor("gotor/p2p.NewMsgBitfield").Signature.Results().At(0).Type(), "Encode") {
						k++
						bfOk = bfOk && w.st.f.seqEqual(tail, w.st.sliceContent(w.vals[0]))
						if !bfOk {
							body = w.st.sliceContent(w.vals[0])
						}
					}
				}
				bfOk = bfOk && k > 0
			}
			if incoming {
				c.check(bfOk, "handshake-sent:"+dir, where, "the handshake is followed by the bitfield and nothing else", "sent "+wire.String(), "want "+body.String())
			} else {
				c.check(bfOk, "handshake-sent:"+dir, where, "the handshake is followed by nothing but the bitfield", "sent "+wire.String())
			}
			ph := o.vals[0]
			if c.check(o.st.nonNil(ph), "handshake-handler:"+dir, where, "success comes with a handler") {
				c.check(o.st.f.find(o.st.field(c.typ(tPH), ph, "conn")) == o.st.f.find(connOf(o.st)), "handshake-handler:"+dir, where, "the handler has the connection of the handshake")
				c.check(o.st.f.find(o.st.field(c.typ(tPH), ph, "swarm")) == sw, "handshake-handler:"+dir, where, "the handler belongs to the swarm whose torrent was asked for")
			}
		}
		if n == 0 {
			c.fail("handshake-accepts:"+dir, where, "a peer can be accepted")
		}
		c.done(e, "handshake:"+dir)
	})
}

func runC07(c *Ctx) {
	c.swarmInvariant()
	c.setupPeer("gotor/swarm.FromIncoming", true)
	c.setupPeer("gotor/swarm.FromBootstrap", false)

	// the handshake bytes
	c.guard("handshake-layout", "the layout of the handshake", func() {
		f := c.anchor("gotor/swarm.MakeHandshake")
		e := c.exec(f.RelString(nil))
		c.noPanics(e, "panic")
		st := c.state()
		as := c.args(st, f)
		for i := range as {
			st.learn(EqI(st.lenOf(as[i], f.Params[i].Type()), IntC(20)))
		}
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic == nil {
				c.checkBytes(o.st, o.vals[0], handshakeSeq(as[0], as[1]), "handshake-layout:MakeHandshake", c.pg.pos(f.Pos()), "the handshake is 19, the protocol name, 8 zero bytes, the infohash and the peer id")
			}
		}
		c.done(e, "handshake-layout")
	})
	c.guard("handshake-valid", "checking a handshake", func() {
		f := c.anchor("gotor/swarm.ValidHandshake")
		e := c.exec(f.RelString(nil))
		e.paths = true
		c.noPanics(e, "panic")
		st := c.state()
		as := c.args(st, f)
		st.learn(EqI(st.lenOf(as[1], f.Params[1].Type()), IntC(20)))
		content := func(st *State) *Term { return st.sliceContent(as[0]) }
		yes := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			for _, b := range []bool{true, false} {
				s := o.st.with(o.vals[0])
				if !b {
					s = o.st.with(Not(o.vals[0]))
				}
				if s == nil {
					continue
				}
				if b {
					yes++
					ok := s.holds(EqI(s.lenOf(as[0], f.Params[0].Type()), IntC(68)))
					why := "the length is not checked"
					if ok {
						ok, why = validHs(s, content(s), as[1])
					}
					c.check(ok, "handshake-valid:accepts only", c.pg.pos(f.Pos()), "only 68 bytes with the protocol name and the infohash are a valid handshake", why, factsText(s))
				}
			}
		}
		c.check(yes > 0, "handshake-valid:accepts", c.pg.pos(f.Pos()), "some handshake is valid")
		// the handshake that we would send is valid, with any reserved bytes and id
		st = c.state()
		as = c.args(st, f)
		st.learn(EqI(st.lenOf(as[1], f.Params[1].Type()), IntC(20)))
		rest := func(n string, l int64) *Term { return mkSub(Sym(n, nil), IntC(0), IntC(l)) }
		hs := byteArg(st, "hs", Seq(byteLit(19), mkLit(protoStr), rest("reserved", 8), asSeq(as[1]), rest("id", 20)))
		for _, o := range e.Run(st, f, []*Term{hs, as[1]}, nil) {
			if o.panic == nil {
				c.check(o.st.holds(o.vals[0]), "handshake-valid:accepts", c.pg.pos(f.Pos()), "every handshake for the infohash is valid, whatever its reserved bytes and peer id", o.vals[0].String(), factsText(o.st))
			}
		}
		c.done(e, "handshake-valid")
	})

	// handlers run only after that
	c.guard("handler-start", "where handlers are started", func() {
		loop := c.anchor("(*" + tPH + ").Loop")
		from := map[string]bool{"gotor/swarm.FromIncoming": true, "gotor/swarm.FromBootstrap": true}
		var callers []*ssa.Function
		for _, f := range c.pg.allFns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == loop {
						if len(callers) == 0 || callers[len(callers)-1] != f {
							callers = append(callers, f)
						}
					}
				}
			}
		}
		sort.Slice(callers, func(i, j int) bool { return callers[i].RelString(nil) < callers[j].RelString(nil) })
		for _, f := range callers {
			// a handler that is a parameter is the caller's business
			root := f
			for root.Parent() == nil && takesHandler(root) {
				cs := c.pg.callSites()[root]
				if len(cs) == 0 {
					break
				}
				root = cs[0].Parent()
			}
			e := c.exec(root.RelString(nil))
			e.paths = true
			e.hooks.call = map[string]func(k *Call) ([]Res, bool){}
			for n := range from {
				e.hooks.call[n] = func(k *Call) ([]Res, bool) {
					good, bad := k.st.clone(), k.st.clone()
					v := Sym("accepted:"+k.site, k.sig.Results().At(0).Type())
					good.learn(notNil(v))
					return []Res{{st: good, vals: []*Term{v, TNil}}, {st: bad, vals: []*Term{TNil, k.newErr("hs")}}}, true
				}
			}
			e.hooks.call["(*"+tPH+").Loop"] = func(k *Call) ([]Res, bool) {
				if e.dry == 0 {
					a := k.st.f.find(k.args[0])
					ok := a.k == KSym && len(a.s) > 9 && a.s[:9] == "accepted:"
					c.check(ok, "handler-start:"+root.RelString(nil), k.pos(), "only a handler whose handshake succeeded is run", a.String())
				}
				return k.ret(), true
			}
			e.hooks.onGo = func(k *Call) {
				if k.fn == loop {
					a := k.st.f.find(k.args[1])
					ok := a.k == KSym && len(a.s) > 9 && a.s[:9] == "accepted:"
					c.check(ok, "handler-start:"+root.RelString(nil), k.pos(), "only a handler whose handshake succeeded is run", a.String())
				}
			}
			st := c.state()
			var binds []*Term
			for _, v := range root.FreeVars {
				b := Sym("free:"+v.Name(), v.Type())
				st.learn(notNil(b))
				binds = append(binds, b)
			}
			e.Run(st, root, c.args(st, root), binds)
			c.done(e, "handler-start")
		}
		if len(callers) == 0 {
			c.fail("handler-start", "", "handlers are run")
		}
	})
}

func takesHandler(f *ssa.Function) bool {
	for _, p := range f.Params {
		if p.Type().String() == "*"+tPH {
			return true
		}
	}
	return false
}

// ------------------------------------------------------------ C28

func runC28(c *Ctx) {
	var gens []*ssa.Function
	mk := c.anchor("gotor/p2p.NewMsgRequest")
	for _, f := range c.pg.allFns {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != "gotor/swarm" {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() == 1 && rs.At(0).Type().String() == "[]*gotor/p2p.MsgRequest" {
			gens = append(gens, f)
		}
	}
	c.guard("requests", "the requests for a piece", func() {
		if len(gens) == 0 {
			panic(undecided{"no function of the handler makes the requests for a piece"})
		}
		for _, f := range gens {
			c.requestsOf(f, mk)
		}
	})
	c.requestsSent()
}

func (c *Ctx) requestsOf(f, mk *ssa.Function) {
	where := c.pg.pos(f.Pos())
	for _, last := range []bool{true, false} {
		e := c.exec(f.RelString(nil))
		c.noPanics(e, "panic")
		e.invs = c.allInvs()
		st := c.state()
		as := c.args(st, f)
		var ph, idx *Term
		for i, p := range f.Params {
			if p.Type().String() == "*"+tPH {
				ph = as[i]
			} else if intType(p.Type()) {
				idx = I(as[i])
			}
		}
		if ph == nil || idx == nil {
			panic(undecided{"the generator of requests takes other arguments"})
		}
		tor := st.field(c.typ(tSwarm), st.field(c.typ(tPH), ph, "swarm"), "Tor")
		ti := e.getter(st, tor, "(*gotor/torrent.Torrent).Info")
		g := func(n string) *Term { return I(e.getter(st, ti, "(*gotor/torrent/info.TorInfo)."+n)) }
		np, pl, lpl := g("NumPieces"), g("PieceLen"), g("LastPieceLen")
		for _, b := range c.tiInv(e, st, ti) {
			st.learn(b)
		}
		st.learn(Le(IntC(1), lpl))
		st.learn(Le(lpl, pl))
		st.learn(Lt(idx, np))
		want := pl
		if last {
			st.learn(EqI(idx, AddC(np, -1)))
			want = lpl
		} else {
			st.learn(Lt(idx, AddC(np, -1)))
		}
		key := "piece"
		if last {
			key = "last piece"
		}
		off, cnt, app := pg("reqoff", lenType), pg("reqcnt", lenType), pg("reqapp", lenType)
		st.mem[off], st.mem[cnt], st.mem[app] = IntC(0), IntC(0), IntC(0)
		e.hooks.call = map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call["gotor/p2p.NewMsgRequest"] = func(k *Call) ([]Res, bool) {
			i, b, l := I(k.args[0]), I(k.args[1]), I(k.args[2])
			at := k.st.mem[off]
			if e.dry == 0 {
				c.check(k.st.holds(EqI(i, idx)), "request-index:"+key, k.pos(), "the requests are for the piece that was asked for", i.String())
				c.check(k.st.holds(EqI(b, at)), "request-begin:"+key, k.pos(), "every request starts where the previous one ends, the first at 0", "begin "+b.String(), "expected "+at.String(), factsText(k.st))
				c.check(k.st.holds(Le(IntC(1), l)) && k.st.holds(Le(l, IntC(16384))), "request-length:"+key, k.pos(), "a request is for 1 to 16384 bytes", l.String(), factsText(k.st))
				c.check(k.st.holds(Le(Add(b, l), want)), "request-inside:"+key, k.pos(), "no request reaches past the end of the piece", Add(b, l).String(), factsText(k.st))
				c.check(k.st.ghost["pend"] == nil, "request-kept:"+key, k.pos(), "every request that is made is returned")
			}
			k.st.mem[off] = Add(at, l)
			v := Sym("made:"+k.site, k.sig.Results().At(0).Type())
			k.st.learn(notNil(v))
			k.st.ghost["pend"] = v
			return k.ret(v), true
		}
		e.hooks.onAppend = func(fr *Frame, st *State, in ssaInstr, s *Term, elems []*Term, res *Term) {
			if res != nil || len(elems) != 1 {
				return
			}
			p := st.ghost["pend"]
			if p == nil || st.f.find(elems[0]) != st.f.find(p) {
				if e.dry == 0 {
					c.fail("request-kept:"+key, e.pos(in), "the requests are returned in the order they are made, once", elems[0].String())
				}
				return
			}
			delete(st.ghost, "pend")
			st.mem[cnt] = AddC(st.mem[cnt], 1)
		}
		e.hooks.onStore = func(fr *Frame, st *State, in ssaInstr, addr, val *Term) {
			if p := st.ghost["pend"]; p != nil && addr.k == KElem && st.f.find(val) == st.f.find(p) {
				// stored into a slice that has its length already
				if addr.args[1].isInt() && st.holds(EqI(addr.args[1], st.mem[cnt])) {
					delete(st.ghost, "pend")
					st.mem[cnt] = AddC(st.mem[cnt], 1)
				}
			}
		}
		n := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			n++
			c.check(o.st.holds(EqI(o.st.mem[off], want)), "request-cover:"+key, where, "the requests end exactly at the end of the piece", "end "+o.st.mem[off].String(), "piece length "+want.String(), factsText(o.st))
			c.check(o.st.ghost["pend"] == nil, "request-kept:"+key, where, "every request that is made is returned")
			c.check(o.st.holds(EqI(o.st.lenOf(o.vals[0], f.Signature.Results().At(0).Type()), o.st.mem[cnt])), "request-kept:"+key, where, "every request that is made is returned", factsText(o.st))
		}
		if n == 0 {
			c.fail("request-cover:"+key, where, "the requests are returned")
		}
		c.done(e, "requests:"+key)
	}
}

// requestsSent: what the request loop sends for a piece it was assigned.
func (c *Ctx) requestsSent() {
	next := c.anchor("(*" + tPPT + ").NextPiece")
	c.guard("requests-sent", "sending the requests", func() {
		var roots []*ssa.Function
		for f, cs := range c.pg.callSites() {
			if f != next {
				continue
			}
			for _, ci := range cs {
				roots = append(roots, ci.Parent())
			}
		}
		if len(roots) == 0 {
			panic(undecided{"nobody asks for pieces"})
		}
		for _, f := range roots {
			for !takesHandler(f) || f.Parent() != nil {
				panic(undecided{"the requests are not sent by a function of the handler"})
			}
			c.sentFor(f, 0, 3, 40000, 100)
			c.sentFor(f, 2, 3, 40000, 100)
			c.sentFor(f, 0, 1, 16384, 16384)
			c.sentFor(f, 1, 2, 32768, 16385)
		}
	})
}

func (c *Ctx) sentFor(f *ssa.Function, idx, np, pl, lpl int64) {
	key := fmt.Sprintf("piece %d of %d, %d bytes, last %d", idx, np, pl, lpl)
	e := c.exec(f.RelString(nil))
	e.invs = c.allInvs()
	e.sc, e.unrollMax, e.paths = 400, 100, true
	st := c.state()
	as := c.args(st, f)
	var ph *Term
	for i, p := range f.Params {
		if p.Type().String() == "*"+tPH {
			ph = as[i]
		}
	}
	conn := st.field(c.typ(tPH), ph, "conn")
	e.hooks.call = map[string]func(k *Call) ([]Res, bool){}
	con := func(v int64) func(k *Call) ([]Res, bool) {
		return func(k *Call) ([]Res, bool) { return k.ret(IntC(v)), true }
	}
	e.hooks.call["(*gotor/torrent/info.TorInfo).NumPieces"] = con(np)
	e.hooks.call["(*gotor/torrent/info.TorInfo).PieceLen"] = con(pl)
	e.hooks.call["(*gotor/torrent/info.TorInfo).LastPieceLen"] = con(lpl)
	// the torrent becomes complete after the piece was assigned
	e.hooks.call["(*gotor/bf.Bitfield).Complete"] = func(k *Call) ([]Res, bool) {
		return k.ret(Bool(k.st.ghost["assigned"] != nil)), true
	}
	e.hooks.call["(*"+tPPT+").NextPiece"] = func(k *Call) ([]Res, bool) {
		if k.st.ghost["assigned"] != nil {
			return k.ret(IntC(0), Bool(false)), true
		}
		k.st.ghost["assigned"] = TTrue
		return k.ret(IntC(idx), Bool(true)), true
	}
	c.sinks(e, func(s sent) {
		c.check(s.conn == conn || s.st.holds(EqT(s.conn, conn)), "requests-sent:"+key, s.pos, "the requests are sent to the peer that the piece was assigned to", s.conn.String())
	})
	want := Seq()
	l := pl
	if idx == np-1 {
		l = lpl
	}
	for o := int64(0); o < l; o += 16384 {
		n := l - o
		if n > 16384 {
			n = 16384
		}
		want = Seq(want, byteLit(0, 0, 0, 13, 6), be32(IntC(idx)), be32(IntC(o)), be32(IntC(n)))
	}
	n := 0
	where := c.pg.pos(f.Pos())
	for _, o := range e.Run(st, f, as, nil) {
		if o.panic != nil || o.st.ghost["wfail"] != nil || o.st.ghost["assigned"] == nil {
			continue
		}
		n++
		w := wireOf(o.st)
		ws, ok1 := seqLit(w)
		wa, ok2 := seqLit(want)
		c.check(ok1 && ok2 && ws == wa || o.st.f.seqEqual(w, want), "requests-sent:"+key, where, "the requests for an assigned piece are sent, each once", "sent "+w.String(), "want "+want.String())
	}
	if n == 0 {
		c.fail("requests-sent:"+key, where, "the request loop ends when the torrent is complete")
	}
	c.done(e, "requests-sent")
}

func init() {
	register(&Prop{id: "C07", title: "No peer is handled before a valid handshake",
		rule: "connection set-up is interpreted for any bytes from the peer and any failure: what is known of the bytes read when the handler is returned, what was sent by then, and where handlers are run",
		run:  runC07, min: map[string]int{"handshake-checked": 2, "handshake-sent": 2, "handshake-valid": 2, "handler-start": 1}})
	register(&Prop{id: "C28", title: "Requests for a piece cover it exactly",
		rule: "the generator of requests is interpreted for any piece and any torrent, with a relational loop invariant on where the next request must begin; the request loop is followed for pieces of several sizes",
		run:  runC28, min: map[string]int{"request-begin": 2, "request-cover": 2, "requests-sent": 4}})
}

var _ = types.Typ

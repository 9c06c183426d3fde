package main

// The class invariants hold: constructors establish them, methods keep them.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (c *Ctx) checkInv(e *Exec, st *State, inv Inv, ptr *Term, key, where, text string) bool {
	e.noInv++
	e.dry++
	fs := inv(e, st, ptr)
	e.dry--
	e.noInv--
	good := true
	for _, f := range fs {
		ok := st.holds(f)
		if f.k == KApp && f.s == "elems:nonnil" {
			ok = ok || c.elemsNonNil(st, f.args[0])
		}
		good = c.check(ok, key, where, text, "not established: "+f.String(), factsText(st)) && good
	}
	return good
}

// elemsNonNil: no cell of the collection is known to be nil.
func (c *Ctx) elemsNonNil(st *State, coll *Term) bool {
	base, _, _, _ := parts(coll)
	n := 0
	for k, v := range st.mem {
		if k.k == KElem && (k.args[0] == base || k.args[0] == coll) {
			if !st.nonNil(v) {
				return false
			}
			n++
		}
	}
	return true
}

func (c *Ctx) assumeInv(e *Exec, st *State, inv Inv, ptr *Term) {
	e.noInv++
	e.dry++
	fs := inv(e, st, ptr)
	e.dry--
	e.noInv--
	for _, f := range fs {
		st.learn(f)
	}
}

func (c *Ctx) bitfieldInvariant() {
	c.guard("invariant:bitfield", "the sizes of a bitfield", func() {
		e := c.exec("gotor/bf")
		for _, b := range c.anyBitfields(e) {
			c.checkInv(e, b.st, bfInv, b.bf, "invariant:bitfield made", c.funcPos("gotor/bf.FromBytes"), "a new bitfield has as many bytes as its bits need")
		}
		t := types.NewPointer(c.typ(tBF))
		for _, f := range c.methodsOf(t) {
			f := f
			c.guard("invariant:"+f.Name(), "the sizes of a bitfield after "+f.Name(), func() {
				e := c.exec(f.RelString(nil))
				e.invs = map[string]Inv{tBF: bfInv}
				st := c.state()
				as := c.args(st, f)
				for i, p := range f.Params {
					if intType(p.Type()) {
						st.learn(Ge0(I(as[i]))) // positions and counts
					}
				}
				c.assumeInv(e, st, bfInv, as[0])
				for _, o := range e.Run(st, f, as, nil) {
					if o.panic == nil {
						c.checkInv(e, o.st, bfInv, as[0], "invariant:bitfield after "+f.Name(), c.pg.pos(f.Pos()), "the method keeps the sizes of the bitfield consistent")
					}
				}
				c.done(e, "invariant:"+f.Name())
			})
		}
	})
}

// methodsOf lists the declared methods of a type, in source order.
func (c *Ctx) methodsOf(t types.Type) []*ssa.Function {
	var r []*ssa.Function
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		f := c.pg.prog.MethodValue(ms.At(i))
		if f != nil && len(f.Blocks) > 0 && f.Synthetic == "" {
			r = append(r, f)
		}
	}
	return r
}

// immutableType: the fields of the type are only written while an object is
// being made.
func (c *Ctx) immutableType(full string, except ...string) {
	t := c.typ(full)
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		n := s.Field(i).Name()
		skip := false
		for _, x := range except {
			skip = skip || x == n
		}
		if skip {
			continue
		}
		sig := "F:" + full + "." + itoa(i)
		c.check(immutableSig[sig], "written-once:"+full+"."+n, c.pg.pos(s.Field(i).Pos()), "the field is only written while its object is being made")
	}
}

func (c *Ctx) torInfoInvariant() {
	c.guard("invariant:torinfo", "the sizes of the torrent metadata", func() {
		f := c.anchor("gotor/torrent/info.NewTorInfo")
		e := c.exec(f.RelString(nil))
		st := c.state()
		as := c.args(st, f)
		for i, p := range f.Params {
			switch p.Type().Underlying().(type) {
			case *types.Slice:
				st.learn(Le(st.lenOf(as[i], p.Type()), IntC(1<<36)))
			case *types.Basic:
				if isString(p.Type()) {
					st.learn(Le(st.lenOf(as[i], p.Type()), IntC(1<<36)))
				}
			}
		}
		n := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil || !o.st.isNil(o.vals[1]) {
				continue
			}
			n++
			c.checkInv(e, o.st, c.tiInv, o.vals[0], "invariant:torinfo", c.pg.pos(f.Pos()), "number of pieces, hashes, piece lengths and piece map of accepted metadata agree")
		}
		if n == 0 {
			c.fail("invariant:torinfo", c.pg.pos(f.Pos()), "metadata can be accepted")
		}
		c.done(e, "invariant:torinfo")
	})
	c.guard("written-once:torinfo", "metadata does not change", func() { c.immutableType(tTI) })
}

func (c *Ctx) handlerInvariant() {
	c.guard("invariant:handler", "a new handler", func() {
		f := c.anchor("gotor/swarm.NewPeerHandler")
		e := c.exec(f.RelString(nil))
		e.invs = c.allInvs()
		delete(e.invs, tPH)
		st := c.state()
		as := c.args(st, f)
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic == nil {
				c.checkInv(e, o.st, c.phInv, o.vals[0], "invariant:handler", c.pg.pos(f.Pos()), "a handler has its connection, its swarm and a buffer of one piece")
			}
		}
		c.done(e, "invariant:handler")
	})
	c.guard("invariant:tracker", "a new piece tracker", func() {
		f := c.anchor("gotor/swarm.NewPeerPieceTracker")
		e := c.exec(f.RelString(nil))
		e.invs = map[string]Inv{tBF: bfInv}
		st := c.state()
		as := c.args(st, f)
		st.learn(EqI(I(e.getter(st, as[1], "(*gotor/bf.Bitfield).Nbits")), as[0]))
		nt := c.nodeType()
		pt := structOf(nt).Field(0).Type()
		idx := ""
		ps := structOf(pt)
		for i := 0; i < ps.NumFields(); i++ {
			if intType(ps.Field(i).Type()) {
				idx = "F:" + shortType(pt) + "." + itoa(i)
			}
		}
		e.hooks.onStore = func(fr *Frame, d *State, in ssaInstr, addr, val *Term) {
			if e.dry > 0 || addr.k != KFld || !strings.HasPrefix(fldOwner[addr], "gotor/swarm.piece") || !val.isInt() {
				return
			}
			c.check(d.holds(Lt(I(val), as[0])), "piece-index:"+fr.fn.RelString(nil), e.pos(in), "the index of a tracked piece is below the number of pieces", val.String())
		}
		_ = idx
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic == nil {
				c.checkInv(e, o.st, c.pptInv, o.vals[0], "invariant:tracker", c.pg.pos(f.Pos()), "the piece tracker has one node per piece, and all of its lists")
			}
		}
		c.done(e, "invariant:tracker")
	})
}

func itoa(i int) string { return IntC(int64(i)).String() }

func (c *Ctx) invariants() {
	c.bitfieldInvariant()
	c.torInfoInvariant()
	c.handlerInvariant()
	c.torrentInvariant()
	c.swarmInvariant()
	c.readLoopInvariant()
}

// freshOrErr: the call returns a new object of which inv holds, or an error.
func (c *Ctx) freshOrErr(e *Exec, full string, inv Inv) func(k *Call) ([]Res, bool) {
	return func(k *Call) ([]Res, bool) {
		good := k.st.clone()
		v := k.fresh("made", k.sig.Results().At(0).Type())
		good.learn(notNil(v))
		if inv != nil {
			c.assumeInv(e, good, inv, v)
		}
		return []Res{{st: good, vals: []*Term{v, TNil}}, {st: k.st.clone(), vals: []*Term{TNil, k.newErr("made")}}}, true
	}
}

func (c *Ctx) torrentInvariant() {
	for _, name := range []string{"gotor/torrent.FromTorrentFile", "gotor/torrent.NewTorrent"} {
		name := name
		c.guard("invariant:torrent", "a loaded torrent", func() {
			f := c.anchor(name)
			e := c.exec(name)
			e.invs = map[string]Inv{tTI: c.tiInv}
			e.hooks.call = map[string]func(k *Call) ([]Res, bool){
				"gotor/torrent/info.FromDict":           c.freshOrErr(e, tTI, nil),
				"gotor/bencode.Decode":                  func(k *Call) ([]Res, bool) { return unknownCall(k), true },
				"gotor/bencode.Encode":                  func(k *Call) ([]Res, bool) { return unknownCall(k), true },
				"(*gotor/torrent/info.TorInfo).Bencode": func(k *Call) ([]Res, bool) { return unknownCall(k), true },
			}
			st := c.state()
			n := 0
			for _, o := range e.Run(st, f, c.args(st, f), nil) {
				if o.panic != nil || !o.st.isNil(o.vals[1]) {
					continue
				}
				n++
				c.check(o.st.nonNil(o.vals[0]), "invariant:torrent", c.pg.pos(f.Pos()), "loading a torrent gives one, or an error")
				c.checkInv(e, o.st, c.torInv, o.vals[0], "invariant:torrent", c.pg.pos(f.Pos()), "a torrent has metadata and a 20 byte infohash")
			}
			if n == 0 {
				c.fail("invariant:torrent", c.pg.pos(f.Pos()), "a torrent can be loaded")
			}
			c.done(e, "invariant:torrent")
		})
	}
}

func (c *Ctx) torInv(e *Exec, st *State, p *Term) []*Term {
	return []*Term{
		notNil(e.getter(st, p, "(*gotor/torrent.Torrent).Info")),
		EqI(st.lenOf(e.getter(st, p, "(*gotor/torrent.Torrent).Infohash"), types.Typ[types.String]), IntC(20)),
	}
}

func (c *Ctx) swarmInvariant() {
	c.guard("invariant:swarm", "a new swarm", func() {
		f := c.anchor("gotor/swarm.NewSwarm")
		e := c.exec(f.RelString(nil))
		c.noPanics(e, "swarm-panic")
		e.invs = c.allInvs()
		delete(e.invs, tSwarm)
		delete(e.invs, tPH)
		delete(e.invs, tPPT)
		unknown := func(k *Call) ([]Res, bool) { return unknownCall(k), true }
		e.hooks.call = map[string]func(k *Call) ([]Res, bool){
			"gotor/torrent.FromTorrentFile":          c.freshOrErr(e, tTor, nil),
			"(*gotor/torrent/fileio.FileIO).OCATAll": unknown,
			"(*gotor/swarm.Swarm).Validate":          unknown,
			"gotor/tracker.Get":                      c.freshOrErr(e, "gotor/tracker.Response", nil),
		}
		st := c.state()
		n := 0
		for _, o := range e.Run(st, f, c.args(st, f), nil) {
			if o.panic != nil || !o.st.isNil(o.vals[1]) {
				continue
			}
			n++
			c.checkInv(e, o.st, c.swarmInv, o.vals[0], "invariant:swarm", c.pg.pos(f.Pos()), "a started swarm has its torrent, its files, its bitfield and a piece tracker of the same size")
		}
		if n == 0 {
			c.fail("invariant:swarm", c.pg.pos(f.Pos()), "a swarm can be made")
		}
		c.done(e, "invariant:swarm")
	})
	c.guard("written-once:swarm", "a swarm does not change", func() {
		// the fields that the invariant is about are only set while it is made
		for _, n := range []string{"Tor", "Fileio", "RLIO", "Bf", "PPT", "Id"} {
			s := structOf(c.typ(tSwarm))
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == n {
					c.check(immutableSig["F:"+tSwarm+"."+itoa(i)], "written-once:"+tSwarm+"."+n, c.pg.pos(s.Field(i).Pos()), "the field is only written while its object is being made")
				}
			}
		}
	})
}

func (c *Ctx) readLoopInvariant() {
	c.guard("invariant:readloop", "a new read loop", func() {
		f := c.anchor("gotor/io.NewReadLoop")
		// every call asks for a buffer of at least one byte
		n := 0
		for _, fn := range c.pg.allFns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok || call.Common().StaticCallee() != f {
						continue
					}
					n++
					k, ok := call.Common().Args[0].(*ssa.Const)
					c.check(ok && k.Int64() >= 1, "readloop-size:"+fn.RelString(nil), c.pg.pos(in.Pos()), "the read buffer holds at least a byte")
				}
			}
		}
		e := c.exec(f.RelString(nil))
		st := c.state()
		as := c.args(st, f)
		st.learn(Le(IntC(1), I(as[0])))
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic == nil {
				c.checkInv(e, o.st, c.loopInv, o.vals[0], "invariant:readloop", c.pg.pos(f.Pos()), "a read loop has its channels, its connection and a buffer")
			}
		}
		c.done(e, "invariant:readloop")
	})
}

package main

// C26: the bitfield is a vector of bits with an exact count.

import (
	"fmt"
	"go/types"
)

func (c *Ctx) bfBit(st *State, e *Exec, bf, i *Term) *Term {
	q := e.div(st, i, IntC(8), types.Typ[types.Int64])
	return c.bfBitAt(st, e, bf, q, Sub(IntC(7), Sub(i, MulC(q, 8))))
}

// bfBitAt: bit k (of weight 2^k) of byte q.
func (c *Ctx) bfBitAt(st *State, e *Exec, bf, q, k *Term) *Term {
	base, off, _, _ := parts(e.getter(st, bf, "(*gotor/bf.Bitfield).Data"))
	data := st.bytes(base)
	q = Add(off, q)
	b := seqByte(st.f, data, q)
	if b == nil {
		b = I(App("byteat", byteType, data, q))
	}
	return bitOf(st, b, k)
}

// bfGet: the outcomes of Get must all say what is wanted.
func (c *Ctx) bfGet(e *Exec, st *State, bf, i *Term, want func(st *State, got *Term) bool, key, text string) {
	f := c.anchor("(*gotor/bf.Bitfield).Get")
	n := 0
	for _, o := range e.Run(st, f, []*Term{bf, i}, nil) {
		if o.panic != nil {
			continue
		}
		n++
		c.check(want(o.st, o.vals[0]), key, c.pg.pos(f.Pos()), text, "got "+o.vals[0].String(), factsText(o.st))
	}
	if n == 0 {
		c.fail(key, c.pg.pos(f.Pos()), text, "Get never returns")
	}
}

func (c *Ctx) bfNum(e *Exec, st *State, bf *Term, name string) *Term {
	return I(e.getter(st, bf, "(*gotor/bf.Bitfield)."+name))
}

func runC26(c *Ctx) {
	c.bitfieldInvariant()
	i64 := types.Typ[types.Int64]
	isBit := func(want bool) func(st *State, got *Term) bool {
		return func(st *State, got *Term) bool {
			if want {
				return st.holds(got)
			}
			return st.never(got)
		}
	}
	newExec := func(name string) *Exec {
		e := c.exec(name)
		e.bitJoin = true
		e.invs = map[string]Inv{tBF: bfInv}
		c.noPanics(e, "panic")
		return e
	}
	pos := func(n string) string { return c.funcPos("(*gotor/bf.Bitfield)." + n) }

	// a new bitfield is all zero, of any size
	c.guard("new", "a new bitfield", func() {
		e := newExec("gotor/bf.NewBitfield")
		st := c.state()
		n := I(Sym("nbits", i64))
		i := I(Sym("i", i64))
		for _, b := range []*Term{Le(IntC(0), n), Le(n, IntC(1<<36)), Le(IntC(0), i), Lt(i, n)} {
			st.learn(b)
		}
		for _, o := range e.Run(st, c.anchor("gotor/bf.NewBitfield"), []*Term{n}, nil) {
			if o.panic != nil {
				continue
			}
			bf := o.vals[0]
			c.check(o.st.holds(EqI(c.bfNum(e, o.st, bf, "Nset"), IntC(0))), "new:count", c.funcPos("gotor/bf.NewBitfield"), "a new bitfield has no bit set")
			c.check(o.st.holds(EqI(c.bfNum(e, o.st, bf, "Nbits"), n)), "new:size", c.funcPos("gotor/bf.NewBitfield"), "a new bitfield has the size asked for")
			c.bfGet(e, o.st, bf, i, isBit(false), "new:zero", "every bit of a new bitfield reads as not set")
		}
		c.done(e, "new")
	})

	// Complete says whether every bit is set, given the count
	c.guard("complete", "Complete", func() {
		f := c.anchor("(*gotor/bf.Bitfield).Complete")
		e := newExec(f.RelString(nil))
		st := c.state()
		as := c.args(st, f)
		for _, all := range []bool{true, false} {
			st := st.clone()
			eq := EqI(c.bfNum(e, st, as[0], "Nset"), c.bfNum(e, st, as[0], "Nbits"))
			if !all {
				eq = Not(eq)
			}
			st.learn(eq)
			for _, o := range e.Run(st, f, as, nil) {
				if o.panic == nil {
					c.check(isBit(all)(o.st, o.vals[0]), fmt.Sprintf("complete:%v", all), c.pg.pos(f.Pos()), "Complete tells whether the number of set bits is the number of bits", o.vals[0].String())
				}
			}
		}
		c.done(e, "complete")
	})

	// any bitfield, any position: Get reads the bit, Set changes it alone
	anyBF := func(e *Exec) (*State, *Term) {
		st := c.state()
		bf := Sym("arg:bf", types.NewPointer(c.typ(tBF)))
		st.learn(notNil(bf))
		c.assumeInv(e, st, bfInv, bf)
		// the bytes that are sent include the bits
		return st, bf
	}
	at := func(st *State, bf *Term, e *Exec, name string, m int64) *Term {
		q := I(Sym(name+":q", i64))
		i := AddC(MulC(q, 8), m)
		st.learn(Ge0(q))
		st.learn(Lt(i, c.bfNum(e, st, bf, "Nbits")))
		return i
	}
	for m := int64(0); m < 8; m++ {
		m := m
		c.guard(fmt.Sprintf("get:%d", m), "reading a bit", func() {
			e := newExec("(*gotor/bf.Bitfield).Get")
			st, bf := anyBF(e)
			i := at(st, bf, e, "i", m)
			for b := int64(0); b < 2; b++ {
				st := st.clone()
				st.learn(EqI(c.bfBit(st, e, bf, i), IntC(b)))
				c.bfGet(e, st, bf, i, isBit(b == 1), fmt.Sprintf("get:%d", m), "Get(8q+m) is bit 7-m of byte q")
			}
			c.done(e, "get")
		})
		c.guard(fmt.Sprintf("set:%d", m), "writing a bit", func() {
			f := c.anchor("(*gotor/bf.Bitfield).Set")
			for _, old := range []int64{0, 1} {
				for _, nv := range []bool{false, true} {
					e := newExec(f.RelString(nil))
					st, bf := anyBF(e)
					i := at(st, bf, e, "i", m)
					st.learn(EqI(c.bfBit(st, e, bf, i), IntC(old)))
					nset := c.bfNum(e, st, bf, "Nset")
					nbits := c.bfNum(e, st, bf, "Nbits")
					st.learn(Ge0(nset))
					st.learn(Le(nset, nbits))
					delta := int64(0)
					if nv && old == 0 {
						delta = 1
					} else if !nv && old == 1 {
						delta = -1
					}
					key := fmt.Sprintf("%d", m)
					n := 0
					for _, o := range e.Run(st, f, []*Term{bf, i, Bool(nv)}, nil) {
						if o.panic != nil {
							continue
						}
						n++
						c.bfGet(e, o.st, bf, i, isBit(nv), "set:reads back:"+key, "after Set(i, v), Get(i) is v")
						c.check(o.st.holds(EqI(c.bfNum(e, o.st, bf, "Nset"), AddC(nset, delta))), "set:count:"+key, pos("Set"), "Set changes the count by exactly the change of the bit", "was "+fmt.Sprint(old, nv), c.bfNum(e, o.st, bf, "Nset").String())
						c.check(o.st.holds(EqI(c.bfNum(e, o.st, bf, "Nbits"), nbits)), "set:size:"+key, pos("Set"), "Set does not change the size")
						// every other bit of the storage keeps its value
						for m2 := int64(0); m2 < 8; m2++ {
							for _, rel := range []int{-1, 0, 1} {
								if rel == 0 && m2 == m {
									continue
								}
								s2 := o.st.clone()
								q2 := I(Sym("j:q", i64))
								q := I(Sym("i:q", i64))
								s2.learn(Ge0(q2))
								j := AddC(MulC(q2, 8), m2)
								s2.learn(Lt(q2, c.bfNum(e, s2, bf, "Nbytes")))
								switch rel {
								case -1:
									s2.learn(Lt(q2, q))
								case 0:
									j = AddC(MulC(q, 8), m2)
								case 1:
									s2.learn(Lt(q, q2))
								}
								if rel == 0 {
									q2 = q
								}
								b4 := st.clone()
								b4.f = s2.f
								was := c.bfBitAt(b4, e, bf, q2, IntC(7-m2))
								now := c.bfBitAt(s2, e, bf, q2, IntC(7-m2))
								c.check(s2.holds(EqI(was, now)), "set:others:"+key, pos("Set"), "Set(i, v) changes no other bit", "bit "+j.String(), "was "+was.String(), "now "+now.String())
							}
						}
					}
					if n == 0 {
						c.fail("set:reads back:"+key, pos("Set"), "Set returns")
					}
					c.done(e, "set")
				}
			}
		})
	}

	// counting: every size up to the bound, every content
	bound := int64(19)
	if c.tier == "thorough" {
		bound = 67
	}
	counted := func(e *Exec, st *State, bf *Term, nbits int64, raw func(i int64) *Term, key, where string) {
		want := IntC(0)
		for i := int64(0); i < nbits; i++ {
			want = Add(want, raw(i))
		}
		got := c.bfNum(e, st, bf, "Nset")
		c.check(st.holds(EqI(got, want)), key, where, fmt.Sprintf("the count of a bitfield is the number of set bits among its bits, not those after them (up to %d bits)", bound), fmt.Sprint("bits: ", nbits), "got "+got.String(), "want "+want.String())
	}
	for nb := int64(1); nb <= bound; nb++ {
		nb := nb
		c.guard(fmt.Sprintf("count:%d", nb), "counting bits", func() {
			f := c.anchor("gotor/bf.FromBytes")
			e := newExec(f.RelString(nil))
			st := c.state()
			in := opaqueValue(Sym("bf:bytes", f.Params[0].Type()), f.Params[0].Type())
			nbytes := (nb + 7) / 8
			base, _, _, _ := parts(in)
			in = mkSlice(base, IntC(0), IntC(5+nbytes), IntC(5+nbytes))
			src := st.bytes(base)
			raw := func(i int64) *Term {
				b := seqByte(st.f, src, IntC(5+i/8))
				if b == nil {
					b = I(App("byteat", byteType, src, IntC(5+i/8)))
				}
				return bitOf(st, b, IntC(7-i%8))
			}
			n := 0
			for _, o := range e.Run(st, f, []*Term{in, IntC(nb)}, nil) {
				if o.panic != nil {
					continue
				}
				if !o.st.isNil(o.vals[1]) {
					c.fail("frombytes:accepts", c.pg.pos(f.Pos()), "as many bytes as the bits need are accepted", fmt.Sprint("bits: ", nb))
					continue
				}
				n++
				bf := o.vals[0]
				counted(e, o.st, bf, nb, raw, "count:FromBytes", c.pg.pos(f.Pos()))
				for i := int64(0); i < nb; i++ {
					c.check(o.st.f.decide(EqI(c.bfBit(o.st, e, bf, IntC(i)), raw(i))) == 1, "frombytes:bits", c.pg.pos(f.Pos()), "the bits of a bitfield made from bytes are those bytes, after the first five")
				}
				g := c.pg.fn("(*gotor/bf.Bitfield).SetNbits")
				if g == nil {
					continue
				}
				for m := (nbytes-1)*8 + 1; m <= nbytes*8; m++ {
					for _, o2 := range e.Run(o.st, g, []*Term{bf, IntC(m)}, nil) {
						if o2.panic != nil {
							continue
						}
						c.check(o2.st.holds(EqI(c.bfNum(e, o2.st, bf, "Nbits"), IntC(m))), "resize:size", c.pg.pos(g.Pos()), "SetNbits sets the number of bits")
						counted(e, o2.st, bf, m, raw, "count:SetNbits", c.pg.pos(g.Pos()))
						for i := int64(0); i < m; i++ {
							c.check(o2.st.f.decide(EqI(c.bfBit(o2.st, e, bf, IntC(i)), raw(i))) == 1, "resize:bits", c.pg.pos(g.Pos()), "SetNbits changes no bit")
						}
					}
				}
			}
			if n == 0 {
				c.fail("frombytes:accepts", c.pg.pos(f.Pos()), "bytes are accepted")
			}
			c.done(e, "count")
		})
	}
	// filling: every size up to the bound, from an empty bitfield, and small
	// sizes with any content
	for nb := int64(1); nb <= bound; nb++ {
		nb := nb
		for _, empty := range []bool{true, false} {
			empty := empty
			g := c.pg.fn("(*gotor/bf.Bitfield).Fill")
			if g == nil || !empty && nb > 5 {
				continue
			}
			c.guard(fmt.Sprintf("fill:%d:%v", nb, empty), "filling", func() {
				mkName := "gotor/bf.FromBytes"
				if empty {
					mkName = "gotor/bf.NewBitfield"
				}
				f := c.anchor(mkName)
				e := newExec(mkName)
				e.sc, e.paths, e.unrollMax = 400, true, 200
				st := c.state()
				nbytes := (nb + 7) / 8
				as := []*Term{IntC(nb)}
				if !empty {
					in := opaqueValue(Sym("bf:bytes", f.Params[0].Type()), f.Params[0].Type())
					base, _, _, _ := parts(in)
					as = []*Term{mkSlice(base, IntC(0), IntC(5+nbytes), IntC(5+nbytes)), IntC(nb)}
					st.learn(EqI(st.arrayCap(base), IntC(5+nbytes)))
				}
				at := func(st *State, data *Term, q int64) *Term {
					b := seqByte(st.f, data, IntC(q))
					if b == nil {
						b = I(App("byteat", byteType, data, IntC(q)))
					}
					return b
				}
				n := 0
				for _, o := range e.Run(st, f, as, nil) {
					if o.panic != nil || !empty && !o.st.isNil(o.vals[1]) {
						continue
					}
					bf := o.vals[0]
					base, off, _, _ := parts(e.getter(o.st, bf, "(*gotor/bf.Bitfield).Data5"))
					first, ok := off.constI64()
					if !ok {
						panic(undecided{"where the bytes of a bitfield start"})
					}
					src := o.st.bytes(base)
					for _, o2 := range e.Run(o.st, g, []*Term{bf}, nil) {
						if o2.panic != nil {
							continue
						}
						n++
						c.check(o2.st.holds(EqI(c.bfNum(e, o2.st, bf, "Nset"), IntC(nb))), "fill:count", c.pg.pos(g.Pos()), "a bitfield that is filled has all bits set", fmt.Sprint("bits: ", nb), c.bfNum(e, o2.st, bf, "Nset").String())
						c.check(o2.st.holds(EqI(c.bfNum(e, o2.st, bf, "Nbits"), IntC(nb))), "fill:size", c.pg.pos(g.Pos()), "Fill does not change the size")
						for i := int64(0); i < nbytes*8; i++ {
							want := IntC(1)
							if i >= nb {
								want = bitOf(o2.st, at(o2.st, src, first+5+i/8), IntC(7-i%8))
							}
							got := c.bfBit(o2.st, e, bf, IntC(i))
							c.check(o2.st.holds(EqI(got, want)), "fill:bits", c.pg.pos(g.Pos()), "Fill sets the bits of the bitfield, and not those after them", fmt.Sprint("bit ", i, " of ", nb), got.String(), want.String())
						}
						now := o2.st.bytes(base)
						for q := int64(0); q < 5; q++ {
							c.check(o2.st.holds(EqI(at(o2.st, now, first+q), at(o2.st, src, first+q))), "fill:header", c.pg.pos(g.Pos()), "Fill leaves the five bytes before the bits alone", fmt.Sprint("byte ", q))
						}
					}
				}
				c.check(n > 0, "fill:ends", c.pg.pos(g.Pos()), "Fill returns")
				c.done(e, "fill")
			})
		}
	}
	c.guard("frombytes:rejects", "sizes that do not fit", func() {
		f := c.anchor("gotor/bf.FromBytes")
		e := newExec(f.RelString(nil))
		st := c.state()
		as := c.args(st, f)
		l := st.lenOf(as[0], f.Params[0].Type())
		st.learn(Le(l, IntC(1<<36)))
		for _, bad := range []*Term{Lt(MulC(AddC(l, -5), 8), I(as[1])), Le(I(as[1]), MulC(AddC(l, -6), 8)), Lt(I(as[1]), IntC(0))} {
			st2 := st.with(bad)
			for _, o := range e.Run(st2, f, as, nil) {
				if o.panic == nil {
					c.check(!o.st.isNil(o.vals[1]), "frombytes:rejects", c.pg.pos(f.Pos()), "a number of bits that the bytes do not fit is an error")
				}
			}
		}
		c.done(e, "frombytes:rejects")
	})
}

func init() {
	register(&Prop{id: "C26", title: "A bitfield is an exact bit vector",
		rule: "the methods of the bitfield are interpreted for any bitfield and any position, with the position split by its bit in the byte; the result must be the read, the write and the count of a bit vector in the bit order of BEP 3; counting whole bitfields is followed for every size up to a bound with every content",
		run:  runC26, min: map[string]int{"get": 8, "set": 32, "count": 2, "new": 3}})
}

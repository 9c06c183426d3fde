package main

// Class invariants: what holds of every object of a type between calls. They
// are assumed of objects the analysis did not see being made; the constructors
// and the methods that modify the objects are checked to establish them
// (props_inv.go).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fieldCell is the address and type of a named field.
func fieldCell(t types.Type, ptr *Term, name string) (*Term, types.Type) {
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return FldAddr(ptr, t, i), s.Field(i).Type()
		}
	}
	panic(undecided{"no field " + name + " in " + t.String()})
}

// fieldBy finds a field by name, or the only one whose type satisfies pred.
func fieldBy(t types.Type, ptr *Term, name string, pred func(t types.Type) bool) (*Term, types.Type) {
	s := structOf(t)
	n := -1
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name && pred(s.Field(i).Type()) {
			n = i
			break
		}
	}
	if n < 0 {
		for i := 0; i < s.NumFields(); i++ {
			if pred(s.Field(i).Type()) {
				if n >= 0 {
					panic(undecided{"field " + name + " of " + t.String() + " cannot be told"})
				}
				n = i
			}
		}
	}
	if n < 0 {
		panic(undecided{"no field like " + name + " in " + t.String()})
	}
	return FldAddr(ptr, t, n), s.Field(n).Type()
}

func (s *State) field(t types.Type, ptr *Term, name string) *Term {
	a, ft := fieldCell(t, ptr, name)
	return s.load(a, ft)
}

func hasType(want string) func(t types.Type) bool {
	return func(t types.Type) bool { return t.String() == want }
}

const (
	tBF    = "gotor/bf.Bitfield"
	tTI    = "gotor/torrent/info.TorInfo"
	tTor   = "gotor/torrent.Torrent"
	tSwarm = "gotor/swarm.Swarm"
	tPH    = "gotor/swarm.PeerHandler"
	tPPT   = "gotor/swarm.PeerPieceTracker"
	tFIO   = "gotor/torrent/fileio.FileIO"
	tRL    = "gotor/io.RateLimitIO"
	tLoop  = "gotor/io.ReadLoop"
)

func (c *Ctx) typ(full string) types.Type {
	i := len(full) - 1
	for full[i] != '.' {
		i--
	}
	t := c.pg.namedType(full[:i], full[i+1:])
	if t == nil {
		panic(undecided{"anchor not found: type " + full})
	}
	return t
}

func notNil(t *Term) *Term { return Not(EqT(t, TNil)) }

func bfInv(e *Exec, st *State, p *Term) []*Term {
	n := I(e.getter(st, p, "(*gotor/bf.Bitfield).Nbits"))
	b := I(e.getter(st, p, "(*gotor/bf.Bitfield).Nbytes"))
	d := e.getter(st, p, "(*gotor/bf.Bitfield).Data")
	d5 := e.getter(st, p, "(*gotor/bf.Bitfield).Data5")
	bt := types.NewSlice(byteType)
	return []*Term{
		Ge0(n), Ge0(b),
		Le(n, MulC(b, 8)),
		Lt(AddC(MulC(b, 8), -8), n),
		EqI(st.lenOf(d, bt), b),
		EqI(st.lenOf(d5, bt), AddC(b, 5)),
		Le(b, IntC(1<<36)),
	}
}

func (c *Ctx) tiInv(e *Exec, st *State, p *Term) []*Term {
	n := I(e.getter(st, p, "(*gotor/torrent/info.TorInfo).NumPieces"))
	pl := I(e.getter(st, p, "(*gotor/torrent/info.TorInfo).PieceLen"))
	h := e.getter(st, p, "(*gotor/torrent/info.TorInfo).Hashes")
	pa, pt := fieldBy(c.typ(tTI), p, "pm", hasType("gotor/torrent/info.PieceMap"))
	pm := st.load(pa, pt)
	return []*Term{
		Ge0(n), Lt(n, IntC(1<<32)),
		Le(IntC(1), pl), Le(pl, IntC(1<<29)),
		EqI(st.lenOf(h, types.Typ[types.String]), MulC(n, 20)),
		EqI(st.lenOf(pm, pt), n),
	}
}

func (c *Ctx) nodesOf(st *State, p *Term) (*Term, types.Type) {
	a, t := fieldBy(c.typ(tPPT), p, "nodes", func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		_, ok = s.Elem().(*types.Pointer)
		return ok
	})
	return st.load(a, t), t
}

func (c *Ctx) bucketsOf(st *State, p *Term) (*Term, types.Type) {
	a, t := fieldBy(c.typ(tPPT), p, "buckets", func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		_, ok = s.Elem().(*types.Named)
		return ok
	})
	return st.load(a, t), t
}

func (c *Ctx) pptInv(e *Exec, st *State, p *Term) []*Term {
	bk, bt := c.bucketsOf(st, p)
	nd, nt := c.nodesOf(st, p)
	ba, bft := fieldBy(c.typ(tPPT), p, "bf", hasType("*gotor/bf.Bitfield"))
	bp := st.load(ba, bft)
	return []*Term{
		EqI(st.lenOf(bk, bt), IntC(c.numBuckets())),
		App("elems:nonnil", nil, nd),
		notNil(bp),
		EqI(st.lenOf(nd, nt), I(e.getter(st, bp, "(*gotor/bf.Bitfield).Nbits"))),
	}
}

// numBuckets: the number of lists that the constructor of the tracker makes.
func (c *Ctx) numBuckets() int64 {
	if c.nBuckets > 0 {
		return c.nBuckets
	}
	e := c.exec("gotor/swarm.NewPeerPieceTracker")
	st := c.state()
	f := c.anchor("gotor/swarm.NewPeerPieceTracker")
	bfp := Sym("arg:bf", f.Params[1].Type())
	st.learn(notNil(bfp))
	for _, o := range e.Run(st, f, []*Term{IntC(0), bfp}, nil) {
		if o.panic != nil {
			continue
		}
		bk, bt := c.bucketsOf(o.st, o.vals[0])
		if n, ok := o.st.lenOf(bk, bt).constI64(); ok && n > 1 {
			c.nBuckets = n
		}
	}
	if c.nBuckets == 0 {
		panic(undecided{"the number of buckets of the piece tracker is not constant"})
	}
	return c.nBuckets
}

func (c *Ctx) swarmInv(e *Exec, st *State, p *Term) []*Term {
	t := c.typ(tSwarm)
	tor := st.field(t, p, "Tor")
	b := st.field(t, p, "Bf")
	ppt := st.field(t, p, "PPT")
	fio := st.field(t, p, "Fileio")
	rl := st.field(t, p, "RLIO")
	ti := e.getter(st, tor, "(*gotor/torrent.Torrent).Info")
	n := I(e.getter(st, ti, "(*gotor/torrent/info.TorInfo).NumPieces"))
	nd, nt := c.nodesOf(st, ppt)
	fa, ft := fieldBy(c.typ(tFIO), fio, "torInfo", hasType("*gotor/torrent/info.TorInfo"))
	ba, bft := fieldBy(c.typ(tPPT), ppt, "bf", hasType("*gotor/bf.Bitfield"))
	return []*Term{
		notNil(tor), notNil(b), notNil(ppt), notNil(fio), notNil(rl), notNil(ti),
		EqI(I(e.getter(st, b, "(*gotor/bf.Bitfield).Nbits")), n),
		Ge0(n), Lt(n, IntC(1<<32)),
		EqI(st.lenOf(nd, nt), n),
		EqT(st.load(fa, ft), ti),
		EqT(st.load(ba, bft), b),
		EqI(st.lenOf(e.getter(st, tor, "(*gotor/torrent.Torrent).Infohash"), types.Typ[types.String]), IntC(20)),
		EqI(st.lenOf(st.field(t, p, "Id"), types.Typ[types.String]), IntC(20)),
	}
}

func (c *Ctx) phInv(e *Exec, st *State, p *Term) []*Term {
	t := c.typ(tPH)
	s := st.field(t, p, "swarm")
	cn := st.field(t, p, "conn")
	ba, bt := fieldBy(t, p, "buf", func(t types.Type) bool { return isByteSlice(t) })
	buf := st.load(ba, bt)
	tor := st.field(c.typ(tSwarm), s, "Tor")
	ti := e.getter(st, tor, "(*gotor/torrent.Torrent).Info")
	return []*Term{
		notNil(s), notNil(cn),
		EqI(st.lenOf(buf, bt), I(e.getter(st, ti, "(*gotor/torrent/info.TorInfo).PieceLen"))),
	}
}

func (c *Ctx) loopInv(e *Exec, st *State, p *Term) []*Term {
	t := c.typ(tLoop)
	var r []*Term
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Type().Underlying().(type) {
		case *types.Chan, *types.Interface:
			r = append(r, notNil(st.load(FldAddr(p, t, i), s.Field(i).Type())))
		case *types.Slice:
			r = append(r, Le(IntC(1), st.lenOf(st.load(FldAddr(p, t, i), s.Field(i).Type()), s.Field(i).Type())))
		}
	}
	return r
}

// allInvs: the invariants of all the types.
func (c *Ctx) allInvs() map[string]Inv {
	m := map[string]Inv{
		tBF:    bfInv,
		tTI:    c.tiInv,
		tPPT:   c.pptInv,
		tSwarm: c.swarmInv,
		tPH:    c.phInv,
		tLoop:  c.loopInv,
		tTor:   c.torInv,
		tFIO: func(e *Exec, st *State, p *Term) []*Term {
			fa, ft := fieldBy(c.typ(tFIO), p, "torInfo", hasType("*gotor/torrent/info.TorInfo"))
			return []*Term{notNil(st.load(fa, ft))}
		},
		"gotor/utils/ds.Node[gotor/swarm.piece]": func(e *Exec, st *State, p *Term) []*Term {
			if e.ppt == nil {
				return nil
			}
			ppt := e.ppt(st)
			nt := c.nodeType()
			da, dt := fieldCell(nt, p, "Data")
			ba, bft := fieldBy(c.typ(tPPT), ppt, "bf", hasType("*gotor/bf.Bitfield"))
			ia, it := fieldBy(dt, da, "index", intType)
			return []*Term{Lt(I(st.load(ia, it)), I(e.getter(st, st.load(ba, bft), "(*gotor/bf.Bitfield).Nbits")))}
		},
		"gotor/torrent/info.PieceLocation": func(e *Exec, st *State, p *Term) []*Term {
			return []*Term{notNil(st.field(c.typ("gotor/torrent/info.PieceLocation"), p, "Entry"))}
		},
	}
	for _, dc := range decCases {
		dc := dc
		full := "gotor/p2p." + dc.typ
		m[full] = func(e *Exec, st *State, p *Term) []*Term {
			f := c.pg.method(types.NewPointer(c.typ(full)), "Mtype")
			if f == nil {
				return nil
			}
			mt := c.quiet(e, st, f, p)
			if dc.id < 0 {
				return []*Term{Le(IntC(9), mt)} // not the type of any message of BEP 3
			}
			r := []*Term{EqI(mt, IntC(dc.id))}
			if dc.typ == "MsgBitfield" {
				g := c.pg.method(types.NewPointer(c.typ(full)), "Bitfield")
				if g != nil {
					r = append(r, notNil(c.quiet(e, st, g, p)))
				}
			}
			return r
		}
	}
	return m
}

// quiet evaluates a function that has a single outcome.
func (c *Ctx) quiet(e *Exec, st *State, f *ssa.Function, args ...*Term) *Term {
	e.dry++
	e.noInv++
	h, fs := e.hooks, e.fnSeen
	e.hooks, e.fnSeen = &Hooks{}, nil
	outs := e.Run(st, f, args, nil)
	e.hooks, e.fnSeen = h, fs
	e.noInv--
	e.dry--
	var r *Term
	for _, o := range outs {
		if o.panic != nil || len(o.vals) == 0 {
			continue
		}
		if r != nil && r != o.vals[0] {
			panic(undecided{f.RelString(nil) + " has several results"})
		}
		r = o.vals[0]
	}
	if r == nil {
		panic(undecided{f.RelString(nil) + " has no result"})
	}
	return r
}

// symArgs: unconstrained arguments; pointers and interfaces are not nil.
func (c *Ctx) args(st *State, f *ssa.Function) []*Term {
	var as []*Term
	for _, p := range f.Params {
		t := p.Type()
		name := "arg:" + p.Name()
		if strings.HasPrefix(t.String(), "*gotor/p2p.Msg") {
			name = "own:" + p.Name() // a decoded message belongs to its receiver
		}
		v := opaqueValue(Sym(name, t), t)
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Chan, *types.Signature:
			st.learn(notNil(v))
		}
		as = append(as, v)
	}
	return as
}

// nodeType is the type of the nodes that the piece tracker keeps.
func (c *Ctx) nodeType() types.Type {
	s := structOf(c.typ(tPPT))
	for i := 0; i < s.NumFields(); i++ {
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
			if p, ok := sl.Elem().(*types.Pointer); ok {
				return p.Elem()
			}
		}
	}
	panic(undecided{"the piece tracker keeps no nodes"})
}

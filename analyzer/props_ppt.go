package main

// The piece tracker: who may fetch what, and what is released.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fnSetHas  = "(*gotor/utils/ds.Set[T]).Has"
	fnSetAdd  = "(*gotor/utils/ds.Set[T]).Add"
	fnSetRem  = "(*gotor/utils/ds.Set[T]).Remove"
	fnSetSize = "(*gotor/utils/ds.Set[T]).Size"
	fnNext    = "(*gotor/utils/ds.Node[T]).Next"
	fnHead    = "(*gotor/utils/ds.LinkedList[T]).Head"
)

func (c *Ctx) pieceType() types.Type { return c.typ("gotor/swarm.piece") }

// pieceField is the address of a field of a piece.
func (c *Ctx) pieceField(p *Term, name string, pred func(t types.Type) bool) (*Term, types.Type) {
	return fieldBy(c.pieceType(), p, name, pred)
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// requestsOfPPT is the address of the map of the pieces peers are fetching.
func (c *Ctx) requestsMap(st *State, ppt *Term) (*Term, *types.Map) {
	a, t := fieldBy(c.typ(tPPT), ppt, "requests", func(t types.Type) bool {
		_, ok := t.Underlying().(*types.Map)
		return ok
	})
	return st.load(a, t), t.Underlying().(*types.Map)
}

// pieceOwner: the piece that an address is a field of.
func (c *Ctx) pieceOwner(a *Term, name string, pred func(t types.Type) bool) *Term {
	if a.k != KFld {
		return nil
	}
	p := a.args[0]
	x, _ := c.pieceField(p, name, pred)
	if x == a {
		return p
	}
	return nil
}

func (c *Ctx) lockHooks(e *Exec) {
	h := e.hooks.call
	h["(*sync.Mutex).Lock"] = func(k *Call) ([]Res, bool) {
		k.st.ghost["locked"] = TTrue
		return lockModel(k), true
	}
	h["(*sync.Mutex).Unlock"] = func(k *Call) ([]Res, bool) {
		delete(k.st.ghost, "locked")
		return lockModel(k), true
	}
}

func runC15(c *Ctx) {
	c.swarmInvariant()
	visited := map[ssaInstr]bool{}
	c.nextPiece(visited)
	for _, big := range []bool{false, true} {
		c.memberCase("Unregister", "(*"+tPPT+").Unregister", true, big, visited, nil, func(*memberFocus) []*Term { return nil })
	}
	c.trackedPieces()
	c.pieceWrites(visited)
}

func (c *Ctx) nextPiece(visited map[ssaInstr]bool) {
	c.guard("next", "assigning a piece", func() {
		f := c.anchor("(*" + tPPT + ").NextPiece")
		where := c.pg.pos(f.Pos())
		e := c.exec(f.RelString(nil))
		e.invs = c.allInvs()
		e.paths, e.sc = true, 64
		st := c.state()
		as := c.args(st, f)
		ppt, whom := as[0], as[1]
		e.ppt = func(*State) *Term { return ppt }
		pt := c.pieceType()
		_ = pt
		isSet := func(t types.Type) bool { return strings.HasPrefix(t.String(), "gotor/utils/ds.Set[") }
		need := func(i *Term) *Term { return App("have", types.Typ[types.Bool], I(i)) }
		offers := func(st *State, p *Term) *Term {
			s, _ := c.pieceField(p, "peerSet", isSet)
			return App("offers", types.Typ[types.Bool], s)
		}
		index := func(st *State, p *Term) *Term {
			a, t := c.pieceField(p, "index", intType)
			return I(st.load(a, t))
		}
		active := func(st *State, p *Term) *Term {
			a, t := c.pieceField(p, "active", isBoolType)
			return st.load(a, t)
		}
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		c.lockHooks(e)
		h[fnSetHas] = func(k *Call) ([]Res, bool) {
			if k.st.f.find(k.args[1]) != whom {
				return unknownCall(k), true
			}
			return k.ret(App("offers", types.Typ[types.Bool], k.st.f.find(k.args[0]))), true
		}
		ours := func(st *State) *Term {
			a, t := fieldBy(c.typ(tPPT), ppt, "bf", hasType("*gotor/bf.Bitfield"))
			return st.load(a, t)
		}
		h["(*gotor/bf.Bitfield).Get"] = func(k *Call) ([]Res, bool) {
			if k.st.f.find(k.args[0]) != k.st.f.find(ours(k.st)) {
				return unknownCall(k), true
			}
			return k.ret(need(k.args[1])), true
		}
		for _, n := range []string{fnSetAdd, fnSetRem, fnRemove, fnAddF} {
			h[n] = func(k *Call) ([]Res, bool) {
				if e.dry == 0 {
					c.fail("next-pure", k.pos(), "assigning a piece changes neither the availability nor the order of the pieces", k.name)
				}
				return unknownCall(k), true
			}
		}
		// the walk: from which list, and which node is being looked at
		scan, at := pg("scan", lenType), pg("at", types.NewPointer(c.nodeType()))
		st.mem[scan] = IntC(-1)
		st.mem[at] = TNil
		nt := c.nodeType()
		// the node at hand was looked at: it cannot be fetched
		passed := func(k *Call, cur *Term) {
			if e.dry > 0 {
				return
			}
			s := k.st.clone()
			da, _ := fieldCell(nt, cur, "Data")
			open := s.learn(notNil(cur)) && s.learn(Not(need(index(s, da)))) && s.learn(Not(active(s, da))) && s.learn(offers(s, da))
			c.check(!open, "next-complete", k.pos(), "no piece is passed over that is needed, offered by the peer and not being fetched", "node "+cur.String(), factsText(k.st))
		}
		h[fnHead] = func(k *Call) ([]Res, bool) {
			ll := k.st.f.find(k.args[0])
			if ll.k != KElem {
				return unknownCall(k), true
			}
			i := I(ll.args[1])
			prev := k.st.mem[scan]
			if e.dry == 0 {
				c.check(k.st.holds(EqI(i, AddC(prev, 1))) || k.st.holds(EqI(prev, IntC(-1))) && k.st.holds(Le(i, IntC(1))), "next-rarest", k.pos(), "the lists are searched from the rarest pieces on, none left out", "list "+i.String()+" after "+prev.String(), factsText(k.st))
				c.check(k.st.isNil(k.st.mem[at]), "next-complete", k.pos(), "a list is searched to its end", k.st.mem[at].String())
			}
			k.st.mem[scan] = i
			v := k.fresh("head", k.sig.Results().At(0).Type())
			k.st.mem[at] = v
			return k.ret(v), true
		}
		h[fnNext] = func(k *Call) ([]Res, bool) {
			passed(k, k.st.f.find(k.args[0]))
			v := k.fresh("next", k.sig.Results().At(0).Type())
			k.st.mem[at] = v
			return k.ret(v), true
		}
		e.hooks.markStore = func(fr *Frame, st *State, in ssaInstr, addr, val *Term) {
			p := c.pieceOwner(addr, "active", isBoolType)
			if p == nil {
				return
			}
			visited[in] = true
			if e.dry == 0 {
				c.check(st.holds(val), "next-mark", e.pos(in), "assigning a piece never releases one", val.String())
				c.check(st.ghost["locked"] != nil, "next-atomic", e.pos(in), "a piece is looked at and taken under the tracker's lock")
				c.check(st.holds(Not(active(st, p))), "next-exclusive", e.pos(in), "a piece that is being fetched is not assigned again", "piece "+p.String(), factsText(st))
				c.check(st.holds(Not(need(index(st, p)))), "next-needed", e.pos(in), "a piece that is already there is not assigned", "piece "+p.String(), factsText(st))
				c.check(st.holds(offers(st, p)), "next-offered", e.pos(in), "only a piece that the peer has is assigned to it", "piece "+p.String(), factsText(st))
				c.check(st.ghost["taken"] == nil, "next-one", e.pos(in), "one piece is taken at a time")
			}
			st.ghost["taken"] = p
			st.ghost["takenidx"] = index(st, p)
		}
		e.hooks.markMap = func(fr *Frame, st *State, in ssaInstr, m, k, v *Term) {
			cur, mt := c.requestsMap(st, ppt)
			if st.f.find(m) != st.f.find(cur) {
				return
			}
			if v == nil || st.f.find(k) != whom {
				if e.dry == 0 {
					c.fail("next-recorded", e.pos(in), "a piece is recorded for the peer it is assigned to, and none is forgotten", k.String())
				}
				return
			}
			has, old := st.mapGet(m, k, mt.Elem())
			nl, ol := st.lenOf(v, mt.Elem()), st.lenOf(old, mt.Elem())
			if st.holds(Not(has)) {
				ol = IntC(0)
			}
			b, off, _, _ := parts(st.f.find(v))
			lastp := st.load(mk(KElem, "", 0, nil, nil, b, Add(off, AddC(nl, -1))), mt.Elem().Underlying().(*types.Slice).Elem())
			if e.dry == 0 {
				c.check(st.holds(EqI(nl, AddC(ol, 1))), "next-recorded", e.pos(in), "a piece is recorded for the peer it is assigned to, and none is forgotten", "length "+nl.String()+" was "+ol.String())
			}
			st.ghost["recorded"] = st.f.find(lastp)
		}
		found, none := 0, 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			c.check(o.st.ghost["locked"] == nil, "next-unlocks", where, "the lock is released")
			yes := o.st.with(o.vals[1])
			no := o.st.with(Not(o.vals[1]))
			if yes != nil {
				found++
				p := yes.ghost["taken"]
				if c.check(p != nil, "next-marked", where, "an assigned piece is marked as being fetched") {
					// values as they are without what the release of the lock forgets
					c.check(yes.holds(EqI(I(o.vals[0]), yes.ghost["takenidx"])), "next-index", where, "the index returned is that of the piece that was marked", o.vals[0].String(), p.String())
					r := yes.ghost["recorded"]
					c.check(r != nil && (r == p || yes.holds(EqT(r, p))), "next-recorded", where, "the piece is recorded for the peer, to be released when the peer leaves", fmt.Sprint(r), p.String())
				}
			}
			if no != nil {
				none++
				c.check(no.ghost["taken"] == nil && no.ghost["recorded"] == nil, "next-marked", where, "a piece that is marked is returned")
				c.check(no.isNil(no.mem[at]), "next-complete", where, "the search goes on to the end of the last list", no.mem[at].String())
				c.check(no.holds(EqI(no.mem[scan], IntC(c.numBuckets()-1))), "next-complete", where, "the search goes on to the last list", no.mem[scan].String(), factsText(no))
			}
		}
		c.check(found > 0, "next-found", where, "pieces are assigned")
		c.check(none > 0, "next-none", where, "nothing is assigned when there is nothing to fetch")
		c.done(e, "next")
	})
}

// trackedPieces: the tracker has one node per piece, in the list of pieces
// nobody has, and nothing is being fetched at first. The index of a piece does
// not change, and nothing but assigning a piece or the departure of a peer
// changes whether it is being fetched.
func (c *Ctx) trackedPieces() {
	c.guard("tracked", "the pieces that are tracked", func() {
		f := c.anchor("gotor/swarm.NewPeerPieceTracker")
		where := c.pg.pos(f.Pos())
		e := c.exec(f.RelString(nil))
		st := c.state()
		as := c.args(st, f)
		pt := c.pieceType().Underlying().(*types.Struct)
		e.paths, e.sc = true, 64
		cnt := pg("tracked", lenType)
		st.mem[cnt] = IntC(0)
		field := func(v *Term, name string, pred func(t types.Type) bool) *Term {
			for i := 0; i < pt.NumFields(); i++ {
				if pt.Field(i).Name() == name {
					return structField(v, i, pt.Field(i).Type())
				}
			}
			for i := 0; i < pt.NumFields(); i++ {
				if pred(pt.Field(i).Type()) {
					return structField(v, i, pt.Field(i).Type())
				}
			}
			panic(undecided{"a piece has no field like " + name})
		}
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		h["gotor/utils/ds.MakeSet"] = func(k *Call) ([]Res, bool) {
			v := opaqueValue(k.fresh("set", k.sig.Results().At(0).Type()), k.sig.Results().At(0).Type())
			k.st.ghost["set"] = v
			return k.ret(v), true
		}
		h["(*gotor/utils/ds.LinkedList[T]).AddDataFront"] = func(k *Call) ([]Res, bool) {
			v := k.st.f.find(k.args[1])
			ll := k.st.f.find(k.args[0])
			idx := I(field(v, "index", intType))
			if e.dry == 0 {
				c.check(ll.k == KElem && k.st.holds(EqI(I(ll.args[1]), IntC(0))), "tracked-list", k.pos(), "a piece starts in the list of pieces that nobody has", ll.String())
				c.check(k.st.holds(Not(field(v, "active", isBoolType))), "tracked-idle", k.pos(), "no piece is being fetched at first")
				set := field(v, "peerSet", func(types.Type) bool { return true })
				c.check(k.st.ghost["set"] != nil && k.st.f.find(set) == k.st.f.find(k.st.ghost["set"]), "tracked-set", k.pos(), "each piece starts with a set of peers of its own", set.String())
				c.check(k.st.holds(EqI(idx, k.st.mem[cnt])) || k.st.holds(EqI(idx, AddC(Sub(I(as[0]), k.st.mem[cnt]), -1))), "tracked-index", k.pos(), "each index is tracked once", idx.String(), "after "+k.st.mem[cnt].String())
			}
			delete(k.st.ghost, "set")
			k.st.mem[cnt] = AddC(k.st.mem[cnt], 1)
			n := k.fresh("node", k.sig.Results().At(0).Type())
			k.st.learn(notNil(n))
			k.st.ghost["node"] = n
			k.st.mem[pg("nodeidx", lenType)] = idx
			return k.ret(n), true
		}
		e.hooks.markStore = func(fr *Frame, st *State, in ssaInstr, addr, val *Term) {
			n := st.ghost["node"]
			if n == nil || val == nil || st.f.find(val) != n {
				return
			}
			if addr.k == KElem {
				if e.dry == 0 {
					c.check(st.holds(EqI(I(addr.args[1]), st.mem[pg("nodeidx", lenType)])), "tracked-place", e.pos(in), "a piece is found under its index", addr.String())
				}
				delete(st.ghost, "node")
			}
		}
		n := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			n++
			c.check(o.st.ghost["node"] == nil, "tracked-place", where, "a piece is found under its index")
			c.check(o.st.holds(EqI(o.st.mem[cnt], I(as[0]))), "tracked-all", where, "every piece of the torrent is tracked", o.st.mem[cnt].String(), factsText(o.st))
			c.check(o.st.f.find(fieldVal(o.st, c.typ(tPPT), o.vals[0], "bf")) == as[1], "tracked-ours", where, "the tracker looks at the bitfield it was given")
		}
		c.check(n > 0, "tracked-all", where, "a tracker is made")
		c.done(e, "tracked")
	})
}

// pieceWrites: what else changes a piece.
func (c *Ctx) pieceWrites(visited map[ssaInstr]bool) {
	for _, f := range c.pg.allFns {
		if f.Pkg == nil && f.Parent() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), c.pieceType()) {
					continue
				}
				if _, ok := fa.X.(*ssa.Alloc); ok {
					continue
				}
				name := c.pieceType().Underlying().(*types.Struct).Field(fa.Field).Name()
				switch name {
				case "index":
					c.fail("index-fixed:"+f.RelString(nil), c.pg.pos(in.Pos()), "the index of a tracked piece does not change")
				case "active":
					c.check(visited[in], "taken-by:"+f.RelString(nil), c.pg.pos(in.Pos()), "only assigning a piece or the departure of a peer changes whether it is being fetched")
				}
			}
		}
	}
	c.ok("index-fixed", "", "the index of a tracked piece does not change")
}

func fieldVal(st *State, t types.Type, p *Term, name string) *Term { return st.field(t, p, name) }

// ---------------------------------------------------------------- departure

// memberFocus follows one arbitrary piece J while an operation changes who
// has which piece: whether the peer has it, how many peers have it, and which
// list it is in.
type memberFocus struct {
	c       *Ctx
	J, whom *Term
	ppt     *Term
}

const (
	gHas, gSize, gList = "has", "size", "list"
)

// atList: the list for pieces that n peers have is l.
func (c *Ctx) atList(st *State, l, n *Term) bool {
	last := c.numBuckets() - 1
	if s := st.with(Le(n, IntC(last))); s != nil && !s.holds(EqI(l, n)) {
		return false
	}
	if s := st.with(Le(IntC(last), n)); s != nil && !s.holds(EqI(l, IntC(last))) {
		return false
	}
	return true
}

// of splits a state by whether a set or node belongs to J.
func (m *memberFocus) of(k *Call, a *Term) (yes, no []*State) {
	r := rootOf(k.st.f.find(a))
	var idx *Term
	nodes := k.st.field(m.c.typ(tPPT), m.ppt, "nodes")
	base, off, _, _ := parts(k.st.f.find(nodes))
	if r.k == KLoad && r.args[0].k == KElem && r.args[0].args[0] == base {
		idx = Sub(I(r.args[0].args[1]), off)
	}
	if idx == nil {
		if k.e.dry == 0 {
			m.c.fail("member-node", k.pos(), "a piece is looked up under its index", r.String(), "nodes "+base.String())
		}
		return nil, []*State{k.st}
	}
	if s := k.st.with(EqI(idx, I(m.J))); s != nil {
		yes = append(yes, s)
	}
	if s := k.st.with(Le(AddC(idx, 1), I(m.J))); s != nil {
		no = append(no, s)
	}
	if s := k.st.with(Le(AddC(I(m.J), 1), idx)); s != nil {
		no = append(no, s)
	}
	return yes, no
}

func (m *memberFocus) hooks(e *Exec) {
	c := m.c
	h := e.hooks.call
	split := func(f func(k *Call, st *State) []*Term) func(k *Call) ([]Res, bool) {
		return func(k *Call) ([]Res, bool) {
			whose := k.args[0]
			if strings.Contains(k.name, "LinkedList") {
				whose = k.args[1]
			}
			yes, no := m.of(k, whose)
			var rs []Res
			for _, s := range yes {
				rs = append(rs, Res{st: s, vals: f(k, s)})
			}
			for _, s := range no {
				q := *k
				q.st = s
				if strings.Contains(k.name, "LinkedList") {
					rs = append(rs, unknownLinks(&q)...)
				} else {
					us := unknownCall(&q)
					if k.name == fnSetSize {
						// J is any piece: what another one's size does is seen there
						for i := range us {
							us[i].st.learn(Le(IntC(1), I(us[i].vals[0])))
						}
					}
					rs = append(rs, us...)
				}
			}
			return rs, true
		}
	}
	atomic := func(k *Call, st *State) {
		if e.dry == 0 {
			c.check(st.ghost["locked"] != nil, "member-atomic", k.pos(), "who has which piece changes under the tracker's lock")
		}
	}
	h[fnSetHas] = split(func(k *Call, st *State) []*Term {
		if k.st.f.find(k.args[1]) != m.whom {
			return []*Term{k.fresh("has", k.sig.Results().At(0).Type())}
		}
		return []*Term{st.ghost[gHas]}
	})
	h[fnSetSize] = split(func(k *Call, st *State) []*Term { return []*Term{st.ghost[gSize]} })
	put := func(has *Term, by int64) func(k *Call, st *State) []*Term {
		return func(k *Call, st *State) []*Term {
			atomic(k, st)
			if st.f.find(k.args[1]) != m.whom {
				if e.dry == 0 {
					c.fail("member-other", k.pos(), "only the availability of the peer at hand changes", k.args[1].String())
				}
				return nil
			}
			if st.ghost[gHas] != has {
				st.ghost[gHas] = has
				st.ghost[gSize] = AddC(st.ghost[gSize], by)
			}
			return nil
		}
	}
	h[fnSetAdd] = split(put(TTrue, 1))
	h[fnSetRem] = split(put(TFalse, -1))
	list := func(k *Call, st *State) *Term {
		ll := st.f.find(k.args[0])
		if ll.k != KElem {
			if e.dry == 0 {
				c.fail("member-list", k.pos(), "the list is one of the tracker's", ll.String())
			}
			return IntC(-2)
		}
		_, off, _, _ := parts(st.f.find(st.field(c.typ(tPPT), m.ppt, "buckets")))
		return Sub(I(ll.args[1]), off)
	}
	links := func(k *Call, st *State) {
		q := *k
		q.st = st
		unknownLinks(&q)
	}
	h[fnRemove] = split(func(k *Call, st *State) []*Term {
		atomic(k, st)
		l := list(k, st)
		if e.dry == 0 {
			c.check(st.holds(EqI(l, st.ghost[gList])), "member-remove", k.pos(), "a piece is taken out of the list that it is in", "list "+l.String()+", in "+st.ghost[gList].String(), factsText(st))
		}
		links(k, st)
		st.ghost[gList] = IntC(-1)
		return nil
	})
	h[fnAddF] = split(func(k *Call, st *State) []*Term {
		atomic(k, st)
		if e.dry == 0 {
			c.check(st.ghost[gList] == IntC(-1), "member-insert", k.pos(), "a piece is put into a list only when it is in none")
		}
		l := list(k, st)
		links(k, st)
		st.ghost[gList] = l
		return nil
	})
	for _, n := range []string{"(*gotor/utils/ds.LinkedList[T]).Clear", "(*gotor/utils/ds.LinkedList[T]).AddDataFront"} {
		h[n] = func(k *Call) ([]Res, bool) {
			if e.dry == 0 {
				c.fail("member-lists", k.pos(), "no other piece appears in or disappears from the lists", k.name)
			}
			return unknownCall(k), true
		}
	}
}

// memberCase runs an operation of the tracker on an arbitrary tracker, in
// which an arbitrary piece is in the list of its count.
func (c *Ctx) memberCase(name string, fn string, has bool, big bool, visited map[ssaInstr]bool, setup func(e *Exec, st *State, m *memberFocus, as []*Term), want func(m *memberFocus) []*Term) {
	label := fmt.Sprintf("%s/%v/%v", name, has, big)
	c.guard("member:"+label, "what "+name+" does to a piece", func() {
		f := c.anchor(fn)
		where := c.pg.pos(f.Pos())
		e := c.exec(f.RelString(nil))
		e.invs = c.allInvs()
		e.paths, e.sc, e.unrollMax = true, 512, 1000
		st := c.state()
		as := c.args(st, f)
		m := &memberFocus{c: c, J: Sym("J", lenType), whom: as[1], ppt: as[0]}
		e.ppt = func(*State) *Term { return m.ppt }
		e.hooks.call = map[string]func(k *Call) ([]Res, bool){}
		m.hooks(e)
		if name == "Unregister" {
			// or else the rest of the pieces keep the peer, and the lock is held
			c.noPanics(e, "leaves-whole")
		}
		size := Sym("count", lenType)
		last := c.numBuckets() - 1
		st.learn(Le(IntC(0), I(m.J)))
		st.learn(Le(I(size), IntC(1<<31)))
		st.learn(Le(IntC(0), I(size)))
		st.ghost[gHas] = TFalse
		if has {
			st.ghost[gHas] = TTrue
			st.learn(Le(IntC(1), I(size)))
		}
		st.ghost[gSize] = I(size)
		if big {
			st.learn(Le(IntC(last), I(size)))
			st.ghost[gList] = IntC(last)
		} else {
			st.learn(Le(I(size), IntC(last-1)))
			st.ghost[gList] = I(size)
		}
		released := pg("released", lenType)
		st.mem[released] = IntC(0)
		e.hooks.call["(*sync.Mutex).Lock"] = func(k *Call) ([]Res, bool) {
			rs := lockModel(k)
			for _, r := range rs {
				r.st.ghost["locked"] = TTrue
				// the constructor's size is 32 bits wide
				r.st.learn(Le(r.st.lenOf(r.st.field(c.typ(tPPT), m.ppt, "nodes"), c.fieldType(tPPT, "nodes")), IntC(1<<32-1)))
				r.st.learn(Lt(I(m.J), r.st.lenOf(r.st.field(c.typ(tPPT), m.ppt, "nodes"), c.fieldType(tPPT, "nodes"))))
				mp, mt := c.requestsMap(r.st, m.ppt)
				hs, v := r.st.mapGet(mp, m.whom, mt.Elem())
				r.st.ghost["reqs"], r.st.ghost["hadreqs"] = v, hs
			}
			return rs, true
		}
		e.hooks.call["(*sync.Mutex).Unlock"] = func(k *Call) ([]Res, bool) {
			delete(k.st.ghost, "locked")
			return lockModel(k), true
		}
		e.hooks.markStore = func(fr *Frame, st *State, in ssaInstr, addr, val *Term) {
			p := c.pieceOwner(addr, "active", isBoolType)
			if p == nil {
				return
			}
			visited[in] = true
			var idx *Term
			if rs := st.ghost["reqs"]; rs != nil {
				b, off, _, _ := parts(st.f.find(rs))
				if p.k == KLoad && p.args[0].k == KElem && p.args[0].args[0] == b {
					idx = Sub(I(p.args[0].args[1]), off)
				}
			}
			if e.dry == 0 {
				c.check(name == "Unregister", "member-active:"+name, e.pos(in), "announcing pieces neither takes nor releases one")
				c.check(idx != nil, "release-own", e.pos(in), "what is released is what the leaving peer was fetching", p.String())
				c.check(st.holds(Not(val)), "release-idle", e.pos(in), "a leaving peer takes no piece")
				c.check(st.ghost["locked"] != nil, "member-atomic", e.pos(in), "pieces are released under the tracker's lock")
			}
			if idx != nil {
				done := st.mem[released]
				n := st.lenOf(st.ghost["reqs"], c.fieldType(tPPT, "requests").Underlying().(*types.Map).Elem())
				if e.dry == 0 {
					c.check(st.holds(EqI(idx, done)) || st.holds(EqI(idx, AddC(Sub(n, done), -1))), "release-all", e.pos(in), "the pieces of the leaving peer are released one after the other", idx.String(), done.String())
				}
				st.mem[released] = AddC(done, 1)
			}
		}
		e.hooks.markMap = func(fr *Frame, st *State, in ssaInstr, mp, k, v *Term) {
			cur, _ := c.requestsMap(st, m.ppt)
			if st.f.find(mp) != st.f.find(cur) {
				return
			}
			gone := v == nil || st.isNil(v)
			if e.dry == 0 {
				c.check(name == "Unregister" && st.f.find(k) == m.whom && gone, "forget-own:"+name, e.pos(in), "only the requests of a leaving peer are forgotten", k.String())
			}
			if st.f.find(k) == m.whom {
				st.ghost["forgot"] = TTrue
			}
		}
		if setup != nil {
			setup(e, st, m, as)
		}
		n := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			n++
			g := o.st.ghost
			type caseOf struct {
				st *State
				w  *Term
			}
			var cases []caseOf
			rest := o.st
			for _, cond := range want(m) {
				if rest == nil {
					break
				}
				if s := rest.with(cond); s != nil {
					cases = append(cases, caseOf{s, TTrue})
				}
				rest = rest.with(Not(cond))
			}
			if rest != nil {
				cases = append(cases, caseOf{rest, TFalse})
			}
			for _, cs := range cases {
				s, w := cs.st, cs.w
				c.check(g[gHas] == w, "member-exact:"+name, where, "a piece counts as available from exactly the peers that announced it and have not left", label, g[gHas].String(), "expected "+w.String(), fmt.Sprint("offers ", want(m)), factsText(s))
			}
			c.check(c.atList(o.st, g[gList], g[gSize]), "member-place:"+name, where, "a piece is in the list of the number of peers that have it", label, g[gList].String(), g[gSize].String(), factsText(o.st))
			c.check(g["locked"] == nil, "member-unlocks:"+name, where, "the lock is released")
			if name == "Unregister" {
				for _, s := range []*State{o.st.with(g["hadreqs"])} {
					if s == nil {
						continue
					}
					n := s.lenOf(g["reqs"], c.fieldType(tPPT, "requests").Underlying().(*types.Map).Elem())
					c.check(s.holds(EqI(s.mem[released], n)), "release-all", where, "every piece that the leaving peer was fetching can be assigned again", s.mem[released].String(), n.String())
					c.check(g["forgot"] != nil, "release-forgets", where, "the requests of the leaving peer are forgotten")
				}
			}
		}
		c.check(n > 0, "member-runs:"+name, where, name+" returns")
		c.done(e, "member:"+label)
	})
}

// fieldType is the type of a field of a struct of the program.
func (c *Ctx) fieldType(full, name string) types.Type {
	s := c.typ(full).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	panic(undecided{full + " has no field " + name})
}

func runC16(c *Ctx) {
	c.swarmInvariant()
	c.trackedPieces()
	visited := map[ssaInstr]bool{}
	for _, has := range []bool{false, true} {
		for _, big := range []bool{false, true} {
			init := TFalse
			if has {
				init = TTrue
			}
			c.memberCase("Unregister", "(*"+tPPT+").Unregister", has, big, visited, nil, func(*memberFocus) []*Term { return nil })
			for n := int64(1); n <= 2; n++ {
				n := n
				var offered []*Term
				c.memberCase("Register", "(*"+tPPT+").Register", has, big, visited, func(e *Exec, st *State, m *memberFocus, as []*Term) {
					offered = nil
					t := e.pg.fn("(*" + tPPT + ").Register").Params[2].Type()
					b, off, _, _ := parts(Sym("own:indices", t))
					as[2] = mkSlice(b, off, IntC(n), IntC(n))
					for i := int64(0); i < n; i++ {
						ix := I(Sym(fmt.Sprint("offer", i), t.Underlying().(*types.Slice).Elem()))
						st.learn(Le(IntC(0), ix))
						st.mem[mk(KElem, "", 0, nil, nil, b, AddC(off, i))] = ix
						offered = append(offered, ix)
					}
				}, func(m *memberFocus) []*Term {
					r := []*Term{init}
					for _, x := range offered {
						r = append(r, EqI(x, I(m.J)))
					}
					return r
				})
			}
			for _, offer := range []*Term{TFalse, TTrue} {
				offer := offer
				c.memberCase("RegisterBF", "(*"+tPPT+").RegisterBF", has, big, visited, func(e *Exec, st *State, m *memberFocus, as []*Term) {
					e.hooks.call["(*gotor/bf.Bitfield).Nbits"] = func(k *Call) ([]Res, bool) {
						if k.st.f.find(k.args[0]) != as[2] {
							return unknownCall(k), true
						}
						return k.ret(k.st.lenOf(k.st.field(c.typ(tPPT), m.ppt, "nodes"), c.fieldType(tPPT, "nodes"))), true
					}
					e.hooks.call["(*gotor/bf.Bitfield).Get"] = func(k *Call) ([]Res, bool) {
						if k.st.f.find(k.args[0]) != as[2] {
							return unknownCall(k), true
						}
						var rs []Res
						i := I(k.args[1])
						if s := k.st.with(EqI(i, I(m.J))); s != nil {
							rs = append(rs, Res{st: s, vals: []*Term{offer}})
						}
						for _, l := range []*Term{Le(AddC(i, 1), I(m.J)), Le(AddC(I(m.J), 1), i)} {
							if s := k.st.with(l); s != nil {
								rs = append(rs, Res{st: s, vals: []*Term{k.fresh("bit", k.sig.Results().At(0).Type())}})
							}
						}
						return rs, true
					}
				}, func(m *memberFocus) []*Term { return []*Term{init, offer} })
			}
		}
	}
}

var _ = fmt.Sprint
var _ ssa.Value

func init() {
	register(&Prop{id: "C15", title: "A piece is assigned to one peer at a time, and only if it is needed and offered",
		rule: "the assignment of pieces is interpreted on an arbitrary tracker, with the membership of the peer and the bits of the bitfield as predicates; marking a piece and passing one over are obligations",
		run:  runC15, min: map[string]int{"next-exclusive": 1, "next-needed": 1, "next-offered": 1, "next-complete": 1}})
	register(&Prop{id: "C16", title: "A leaving peer releases everything, availability is exact",
		rule: "registering and unregistering are interpreted on an arbitrary tracker, following one arbitrary piece through the sets and lists; releasing the requests is a relational loop invariant",
		run:  runC16, min: map[string]int{"member-exact": 3, "member-place": 3, "release-all": 1}})
}

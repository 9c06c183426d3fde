package main

// The files of a torrent tile its pieces.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	tLoc      = "gotor/torrent/info.PieceLocation"
	tPart     = "gotor/torrent/filesd.PieceInfo"
	fnPart    = "(*gotor/torrent/filesd.Entry).PieceInfo"
	fnLayout  = "gotor/torrent/filesd.MakeFileList"
	fnPieces  = "gotor/torrent/info.MakePieceMap"
	fnParts   = "(*gotor/torrent/info.TorInfo).PieceLookup"
	tMap      = "gotor/torrent/info.PieceMap"
	maxPLen   = 1 << 29
	maxLength = 1 << 62
)

// place is where a file lies: the pieces and offsets of its ends.
type place struct {
	s, so, e, eo *Term // first piece, offset in it; last piece, offset in it
	n            *Term // length
}

func (c *Ctx) placeOf(e *Exec, st *State, ptr *Term) place {
	get := func(n string) *Term { return I(e.getter(st, ptr, "(*"+tEntry+")."+n)) }
	base, _ := fieldBy(c.typ(tEntry), ptr, "EntryBase", hasType(tEntryBase))
	return place{get("StartPiece"), get("StartPieceOff"), get("EndPiece"), get("EndPieceOff"), I(e.getter(st, base, "(*"+tEntryBase+").Length"))}
}

// lies: the place is that of a file that starts at pos.
func (p place) lies(pos, plen *Term) []*Term {
	return []*Term{
		EqI(Add(Mul(p.s, plen), p.so), pos),
		EqI(Add(Mul(p.e, plen), p.eo), AddC(Add(pos, p.n), -1)),
		Ge0(p.so), Lt(p.so, plen),
		Le(IntC(-1), p.eo), Lt(p.eo, plen),
	}
}

// ptrOf is a pointer to a value.
func (c *Ctx) ptrOf(st *State, name string, v *Term, t types.Type) *Term {
	p := Sym("own:"+name, types.NewPointer(t))
	st.learn(notNil(p))
	st.store(p, v, t)
	return p
}

func (c *Ctx) layoutExec(root string) *Exec {
	e := c.exec(root)
	e.ideal = true
	e.paths = true
	e.sc = 64
	return e
}

// layoutList: the place of each file.
func (c *Ctx) layoutList() {
	c.guard("list", "the places of the files", func() {
		f := c.anchor(fnLayout)
		where := c.pg.pos(f.Pos())
		e := c.layoutExec(fnLayout)
		st := c.state()
		as := c.args(st, f)
		et := c.typ(tEntry)
		eb := c.typ(tEntryBase)
		given := Sym("own:given", nil)
		n := I(Sym("ngiven", lenType))
		st.learn(Ge0(n))
		st.learn(Le(n, IntC(1<<36)))
		var plen *Term
		for i, p := range f.Params {
			if intType(p.Type()) {
				plen = I(as[i])
			} else if s, ok := p.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), eb) {
				as[i] = mkSlice(given, IntC(0), n, n)
			}
		}
		if plen == nil {
			panic(undecided{"the layout is not made from files and a piece length"})
		}
		st.learn(Le(IntC(1), plen))
		st.learn(Le(plen, IntC(maxPLen)))
		pos, cnt := pg("pos", lenType), pg("count", lenType)
		st.mem[pos], st.mem[cnt] = IntC(0), IntC(0)
		e.scale, e.scaled = plen, []*Term{pos}
		lenAt := func(st *State, i *Term) *Term {
			el := mk(KElem, "", 0, nil, nil, given, I(i))
			addrTyp[el] = eb
			return I(e.getter(st, el, "(*"+tEntryBase+").Length"))
		}
		e.elemPreds = []string{"length"}
		e.elemOK = func(*State, string, *Term, types.Type) bool { return false }
		busy := false
		e.elemLearn = func(st *State, _ string, _ *Term, _ types.Type, at *Term) {
			if el, _ := elemAncestor(at); !busy && el != nil && el.args[0] == given {
				busy = true
				defer func() { busy = false }()
				st.learn(Ge0(lenAt(st, el.args[1])))
			}
		}
		st.setTruth(okElems("length", given), true)
		emit := func(st *State, at string, idx, v *Term) {
			cur, p := I(st.load(cnt, lenType)), I(st.load(pos, lenType))
			s := st.clone()
			pl := c.placeOf(e, s, c.ptrOf(s, "entry", v, et))
			l := lenAt(st, cur)
			// whichever way the index is written
			for _, a := range intAtoms(EqI(pl.n, IntC(0))) {
				if i := elemIndex(a, given); i != nil && st.holds(EqI(I(i), cur)) {
					l = lenAt(st, I(i))
				}
			}
			st.learn(Ge0(l))
			s.learn(Ge0(l))
			if e.dry == 0 {
				c.check(s.holds(EqI(idx, cur)), "list:order", at, "the places of the files are in the order of the files", idx.String(), cur.String())
				c.check(s.holds(EqI(pl.n, l)), "list:length", at, "each place is that of its own file", pl.n.String(), l.String())
				texts := []string{"a file starts where the one before it ends", "a file ends after as many bytes as it has", "the offset of the start of a file lies in its piece", "the offset of the start of a file lies in its piece", "the offset of the end of a file lies in its piece", "the offset of the end of a file lies in its piece"}
				for i, q := range pl.lies(p, plen) {
					c.check(s.holds(q), "list:place", at, texts[i], q.String(), factsText(s))
				}
			}
			st.store(pos, Add(p, l), lenType)
			st.store(cnt, AddC(cur, 1), lenType)
		}
		isList := func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return ok && types.Identical(s.Elem(), et)
		}
		e.hooks.markAppend = func(fr *Frame, st *State, in ssa.Instruction, s *Term, elems []*Term) {
			if v, ok := in.(ssa.Value); !ok || !isList(v.Type()) {
				return
			}
			_, _, l, _ := parts(st.f.find(s))
			for i, x := range elems {
				emit(st, c.pg.pos(in.Pos()), AddC(l, int64(i)), x)
			}
		}
		e.hooks.markStore = func(fr *Frame, st *State, in ssa.Instruction, addr, v *Term) {
			s, ok := in.(*ssa.Store)
			if !ok || addr.k != KElem || !types.Identical(s.Val.Type(), et) {
				return
			}
			if ia, ok := s.Addr.(*ssa.IndexAddr); ok && isList(ia.X.Type()) {
				emit(st, c.pg.pos(in.Pos()), I(addr.args[1]), v)
			}
		}
		good := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			good++
			_, _, l, _ := parts(o.st.f.find(o.vals[0]))
			cur := I(o.st.load(cnt, lenType))
			c.check(o.st.holds(EqI(cur, n)) && o.st.holds(EqI(l, n)), "list:all", where, "every file has a place", l.String(), cur.String(), factsText(o.st))
		}
		c.check(good > 0, "list:all", where, "every file has a place", "none is made")
		c.done(e, "list")
	})
}

// layoutPart: the part of a piece that lies in a file.
func (c *Ctx) layoutPart() {
	c.guard("part", "the part of a piece that lies in a file", func() {
		f := c.anchor(fnPart)
		where := c.pg.pos(f.Pos())
		for _, cs := range []string{"before", "after", "first and last", "first", "last", "inside"} {
			e := c.layoutExec(fnPart)
			e.peel = true
			st := c.state()
			as := c.args(st, f)
			if len(as) != 3 {
				panic(undecided{"a part is not asked for by piece and piece length"})
			}
			st.learn(notNil(as[0]))
			p := c.placeOf(e, st, as[0])
			idx, plen := I(as[1]), I(as[2])
			pos := I(Sym("filepos", lenType))
			st.learn(Le(IntC(1), plen))
			st.learn(Le(plen, IntC(maxPLen)))
			st.learn(Ge0(pos))
			st.learn(Ge0(p.n))
			for _, q := range p.lies(pos, plen) {
				st.learn(q)
			}
			less := func(a, b *Term) {
				st.learn(Lt(a, b))
				st.learn(Ge0(Mul(AddC(Sub(b, a), -1), plen)))
			}
			same := func(a, b *Term) {
				st.learn(EqI(a, b))
				st.learn(EqI(Mul(a, plen), Mul(b, plen)))
			}
			first, last := idx, idx
			switch cs {
			case "before":
				less(idx, p.s)
			case "after":
				less(p.e, idx)
			case "first and last":
				same(idx, p.s)
				same(idx, p.e)
			case "first":
				same(idx, p.s)
				less(idx, p.e)
				last = nil
			case "last":
				less(p.s, idx)
				same(idx, p.e)
				first = nil
			case "inside":
				less(p.s, idx)
				less(idx, p.e)
				first, last = nil, nil
			}
			e.scale = plen
			n := 0
			for _, o := range e.Run(st, f, as, nil) {
				if o.panic != nil {
					continue
				}
				n++
				s := o.st
				bad := s.nonNil(o.vals[1])
				if cs == "before" || cs == "after" {
					c.check(bad, "part:outside", where, "a file has no part of a piece that it does not lie in", cs, factsText(s))
					continue
				}
				c.check(s.isNil(o.vals[1]), "part:inside", where, "a file has a part of each piece that it lies in", cs, factsText(s))
				if bad {
					continue
				}
				ptr := c.ptrOf(s, "part", o.vals[0], c.typ(tPart))
				seek, amnt := c.partOf(s, ptr)
				begin, end := Mul(idx, plen), Mul(AddC(idx, 1), plen)
				if first != nil {
					begin = pos
				}
				if last != nil {
					end = Add(pos, p.n)
				}
				c.check(s.holds(EqI(Add(pos, seek), begin)), "part:seek", where, "a part starts where the piece or the file starts, whichever is later", cs, seek.String(), factsText(s))
				c.check(s.holds(EqI(amnt, Sub(end, begin))), "part:amount", where, "a part ends where the piece or the file ends, whichever is earlier", cs, amnt.String(), factsText(s))
			}
			c.check(n > 0, "part:inside", where, "asking for a part comes back", cs)
			c.done(e, "part")
		}
	})
}

func (c *Ctx) partOf(st *State, ptr *Term) (seek, amnt *Term) {
	t := c.typ(tPart)
	return I(st.field(t, ptr, "SeekAmnt")), I(st.field(t, ptr, "ReadAmnt"))
}

// prefix: the sum of what the first n elements count.
func prefix(base *Term, count func(st *State, i *Term) *Term) rel {
	at := func(n *Term) *Term {
		if k, ok := I(n).constInt(); ok && k.Sign() == 0 {
			return IntC(0)
		}
		return App("filepos", lenType, base, I(n))
	}
	r := rel{name: "pos", at: at}
	r.ok = func(st *State, x, n *Term) bool {
		x, n = I(x), I(n)
		if st.holds(EqI(n, IntC(0))) {
			return st.holds(EqI(x, IntC(0)))
		}
		if st.holds(EqI(x, I(at(n)))) {
			return true
		}
		for _, l := range st.f.log {
			for _, a := range intAtoms(l) {
				if a.k == KApp && a.s == "filepos" && a.args[0] == base && st.holds(EqI(I(a.args[1]), n)) && st.holds(EqI(x, I(a))) {
					return true
				}
			}
		}
		// one more
		m := AddC(n, -1)
		try := []*Term{m}
		for _, l := range append(append([]*Term{}, st.f.log...), EqI(x, IntC(0))) {
			for _, a := range intAtoms(l) {
				if i := elemIndex(a, base); i != nil && st.holds(EqI(I(i), m)) {
					try = append(try, I(i))
				}
			}
		}
		for _, i := range try {
			if st.holds(EqI(x, Add(I(at(i)), count(st, i)))) {
				return true
			}
		}
		return false
	}
	return r
}

// scaleUp multiplies what is known of two whole numbers that occur multiplied.
func scaleUp(st *State, f *Term) {
	fa := f.atom()
	if fa == nil {
		return
	}
	many := map[*Term]bool{}
	for _, l := range st.f.log {
		if l.k == KGe0 || l.k == KEq0 {
			for _, m := range factorsOf(l.args[0]) {
				if len(m) == 2 && m[0] == fa {
					many[m[1]] = true
				} else if len(m) == 2 && m[1] == fa {
					many[m[0]] = true
				}
			}
		}
	}
	for _, l := range append([]*Term{}, st.f.log...) {
		if l.k != KGe0 && l.k != KEq0 {
			continue
		}
		n := 0
		for _, m := range factorsOf(l.args[0]) {
			if len(m) == 1 && many[m[0]] {
				n++
			} else if len(m) > 0 {
				n = -9
			}
		}
		if n > 0 {
			if p := Mul(f, l.args[0]); l.k == KGe0 {
				st.learn(Ge0(p))
			} else {
				st.learn(EqI(p, IntC(0)))
			}
		}
	}
}

// layoutPieces: the parts of each piece.
func (c *Ctx) layoutPieces() {
	c.guard("pieces", "the parts of the pieces", func() {
		f := c.anchor(fnPieces)
		where := c.pg.pos(f.Pos())
		e := c.layoutExec(fnPieces)
		e.peel = true
		e.sc = 12
		st := c.state()
		st.f.light = true
		as := c.args(st, f)
		et := c.typ(tEntry)
		lt := c.typ(tLoc)
		var ints []*Term
		given := Sym("own:given", nil)
		n := I(Sym("ngiven", lenType))
		st.learn(Ge0(n))
		st.learn(Le(n, IntC(1<<36)))
		for i, p := range f.Params {
			if intType(p.Type()) {
				ints = append(ints, I(as[i]))
			} else if s, ok := p.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), et) {
				as[i] = mkSlice(given, IntC(0), n, n)
			}
		}
		if len(ints) != 3 {
			panic(undecided{"the pieces are not made from a layout, their number, their length and the length of everything"})
		}
		np, plen, total := ints[0], ints[1], ints[2]
		st.learn(Le(IntC(1), plen))
		st.learn(Le(plen, IntC(maxPLen)))
		st.learn(Ge0(total))
		st.learn(Ge0(np))
		st.learn(Lt(np, IntC(1<<32)))
		st.learn(Le(total, Mul(np, plen)))
		// how far the parts reach, the piece of the last one, how many of them
		// are not recorded yet, and the piece that was recorded last
		pos, last, owed, filed := pg("pos", lenType), pg("piece", lenType), pg("owed", lenType), pg("filed", lenType)
		st.mem[pos], st.mem[last], st.mem[owed], st.mem[filed] = IntC(0), IntC(-1), IntC(0), IntC(-1)
		e.scale, e.scaled = plen, []*Term{pos}
		at := func(st *State, i *Term) *Term {
			el := mk(KElem, "", 0, nil, nil, given, I(i))
			addrTyp[el] = et
			return el
		}
		sum := prefix(given, func(st *State, i *Term) *Term { return c.placeOf(e, st, at(st, i)).n })
		st.learn(EqI(total, I(sum.at(n))))
		plain := sum.ok
		sum.ok = func(st *State, x, n *Term) bool {
			if !st.holds(EqI(I(x), I(st.load(pos, lenType)))) {
				return false
			}
			if plain(st, x, n) {
				return true
			}
			t := st.clone()
			scaleUp(t, plen)
			return plain(t, x, n)
		}
		e.rels = func(*State) []rel { return []rel{sum} }
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		h[fnPart] = func(k *Call) ([]Res, bool) {
			st := k.st.clone()
			p := c.placeOf(e, st, k.args[0])
			idx, pl := I(k.args[1]), I(k.args[2])
			if e.dry == 0 {
				c.check(st.holds(EqI(pl, plen)), "pieces:length", k.pos(), "the parts are those of pieces of the torrent's length", pl.String())
			}
			if e.dry == 0 {
				c.check(st.holds(EqI(I(st.load(owed, lenType)), IntC(0))) || st.holds(EqI(idx, I(st.load(last, lenType)))), "pieces:kept", k.pos(), "the parts of a piece are recorded before those of the next", idx.String(), factsText(st))
			}
			var i *Term
			for _, t := range []*Term{p.n, p.s, p.so, p.e, p.eo} {
				for _, a := range intAtoms(EqI(t, IntC(0))) {
					if x := elemIndex(a, given); x != nil && i == nil {
						i = I(x)
					}
				}
			}
			if i == nil {
				if e.dry == 0 {
					c.fail("pieces:file", k.pos(), "a part is that of one of the files", k.args[0].String())
				}
				return nil, false
			}
			start, next := I(sum.at(i)), I(sum.at(AddC(i, 1)))
			st.learn(Ge0(p.n))
			st.learn(Ge0(start))
			st.learn(EqI(next, Add(start, p.n)))
			st.learn(Le(next, total))
			for _, q := range p.lies(start, plen) {
				st.learn(q)
			}
			less := func(st *State, a, b *Term) bool {
				return st.learn(Lt(a, b)) && st.learn(Ge0(Mul(AddC(Sub(b, a), -1), plen)))
			}
			same := func(st *State, a, b *Term) bool {
				return st.learn(EqI(a, b)) && st.learn(EqI(Mul(a, plen), Mul(b, plen)))
			}
			var res []Res
			part := k.sig.Results().At(0).Type()
			give := func(s *State, begin, end *Term) {
				t := s.clone()
				ptr := c.ptrOf(t, "part", k.fresh("part", part), part)
				sa, _ := fieldCell(part, ptr, "SeekAmnt")
				ra, _ := fieldCell(part, ptr, "ReadAmnt")
				t.store(sa, Sub(begin, start), lenType)
				t.store(ra, Sub(end, begin), lenType)
				v := t.load(ptr, part)
				s.store(last, idx, lenType)
				res = append(res, Res{st: s, vals: []*Term{v, TNil}})
			}
			if s := st.clone(); less(s, idx, p.s) {
				res = append(res, Res{st: s, vals: []*Term{k.fresh("none", part), k.newErr("part")}})
			}
			if s := st.clone(); less(s, p.e, idx) {
				res = append(res, Res{st: s, vals: []*Term{k.fresh("none", part), k.newErr("part")}})
			}
			begin, end := Mul(idx, plen), Mul(AddC(idx, 1), plen)
			for _, first := range []bool{true, false} {
				for _, lst := range []bool{true, false} {
					s := st.clone()
					b, en := begin, end
					ok := true
					if first {
						ok = same(s, idx, p.s)
						b = start
					} else {
						ok = less(s, p.s, idx)
					}
					if ok && lst {
						ok = same(s, idx, p.e)
						en = Add(start, p.n)
					} else if ok {
						ok = less(s, idx, p.e)
					}
					if ok {
						give(s, b, en)
					}
				}
			}
			return res, true
		}
		add := func(st *State, at string, s, v *Term) {
			T := I(st.load(pos, lenType))
			t := st.clone()
			ptr := c.ptrOf(t, "location", v, lt)
			pa, _ := fieldBy(lt, ptr, "Loc", hasType(tPart))
			seek, amnt := c.partOf(t, pa)
			ea, etp := fieldBy(lt, ptr, "Entry", hasType("*"+tEntry))
			en := t.f.find(t.load(ea, etp))
			if e.dry == 0 {
				good := en.k == KElem && en.args[0] == given
				c.check(good, "pieces:entry", at, "a part is in one of the files", en.String())
				if good {
					c.check(st.holds(EqI(T, Add(I(sum.at(I(en.args[1]))), seek))), "pieces:next", at, "a part starts where the one before it ends", seek.String(), T.String(), factsText(st))
				}
				c.check(st.holds(Ge0(amnt)), "pieces:amount", at, "a part is not negative", amnt.String())
			}
			st.store(pos, Add(T, amnt), lenType)
			st.store(owed, AddC(I(st.load(owed, lenType)), 1), lenType)
		}
		isLocs := func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return ok && types.Identical(s.Elem(), lt)
		}
		e.hooks.markAppend = func(fr *Frame, st *State, in ssa.Instruction, s *Term, elems []*Term) {
			if v, ok := in.(ssa.Value); !ok || !isLocs(v.Type()) {
				return
			}
			for _, x := range elems {
				add(st, c.pg.pos(in.Pos()), s, x)
			}
		}
		e.hooks.markStore = func(fr *Frame, st *State, in ssa.Instruction, addr, v *Term) {
			s, ok := in.(*ssa.Store)
			if !ok || addr.k != KElem || !isLocs(s.Val.Type()) {
				return
			}
			idx := I(addr.args[1])
			due, pc := I(st.load(owed, lenType)), I(st.load(last, lenType))
			if e.dry == 0 {
				at := c.pg.pos(in.Pos())
				c.check(st.holds(EqI(idx, pc)), "pieces:which", at, "the parts of a piece are recorded as that piece's", idx.String(), pc.String())
				l := st.lenOf(v, s.Val.Type())
				grown := st.holds(EqI(l, Add(st.lenOf(st.load(addr, s.Val.Type()), s.Val.Type()), due)))
				whole := st.holds(Lt(I(st.load(filed, lenType)), idx)) && st.holds(EqI(l, due))
				c.check(grown || whole, "pieces:kept", at, "the parts that a piece has are kept", l.String(), due.String())
			}
			st.store(owed, IntC(0), lenType)
			st.store(filed, idx, lenType)
		}
		good := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			if !o.st.isNil(o.vals[1]) {
				t := o.st.clone()
				scaleUp(t, plen)
				for _, l := range append([]*Term{}, t.f.log...) {
					for _, a := range intAtoms(l) {
						if a.k == KApp && a.s == "filepos" && a.args[0] == given && t.holds(EqI(I(a.args[1]), n)) {
							t.learn(EqI(I(a), total))
						}
					}
				}
				why := factsText(t)
				c.check(t.f.bot || t.never(Le(IntC(1), n)), "pieces:accept", where, "the pieces of a torrent with enough of them are made", why)
				continue
			}
			good++
			c.check(o.st.holds(EqI(I(o.st.load(owed, lenType)), IntC(0))), "pieces:kept", where, "the parts of the last piece are recorded", factsText(o.st))
			c.check(o.st.holds(EqI(I(o.st.load(pos, lenType)), total)), "pieces:all", where, "the parts of the pieces are all of the torrent", factsText(o.st))
		}
		c.check(good > 0, "pieces:all", where, "the parts of the pieces are all of the torrent", "none are made")
		c.done(e, "pieces")
	})
}

// layoutUse: the metadata of a torrent is made with its layout.
func (c *Ctx) layoutUse() {
	c.guard("use", "the layout of a torrent", func() {
		f := c.anchor("gotor/torrent/info.NewTorInfo")
		where := c.pg.pos(f.Pos())
		e := c.exec(f.RelString(nil))
		e.paths, e.sc, e.ideal = true, 400, true
		st := c.state()
		as := c.args(st, f)
		eb := c.typ(tEntryBase)
		given := Sym("own:given", nil)
		n := I(Sym("ngiven", lenType))
		st.learn(Ge0(n))
		st.learn(Le(n, IntC(1<<36)))
		var plen *Term
		for i, p := range f.Params {
			if intType(p.Type()) {
				plen = I(as[i])
			} else if s, ok := p.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), eb) {
				as[i] = mkSlice(given, IntC(0), n, n)
			}
		}
		if plen == nil {
			panic(undecided{"the metadata is not made of a piece length and files"})
		}
		sum := c.sums(given)
		sizes := c.unsigned(given)
		e.rels = func(*State) []rel { return []rel{sum, sizes} }
		pm, fl := Sym("own:piecemap", nil), Sym("own:layout", nil)
		whole := func(b *Term) *Term {
			l := I(App("len", lenType, b))
			return mkSlice(b, IntC(0), l, l)
		}
		is := func(st *State, v, b *Term) bool {
			x, off, l, _ := parts(st.f.find(v))
			return x == b && st.holds(EqI(off, IntC(0))) && st.holds(EqI(l, I(App("len", lenType, b))))
		}
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		h[fnLayout] = func(k *Call) ([]Res, bool) {
			if e.dry == 0 {
				c.check(sizes.ok(k.st, nil, n), "use:sizes", k.pos(), "no file has a negative length", factsText(k.st))
			}
			for i := 0; i < k.sig.Params().Len(); i++ {
				v := k.args[i]
				if intType(k.sig.Params().At(i).Type()) {
					k.need("the layout is that for the length of the pieces of the torrent", EqI(I(v), plen))
					k.need("the length of a piece is positive", Le(IntC(1), I(v)))
					k.need("the length of a piece is at most 512 MB", Le(I(v), IntC(maxPLen)))
				} else if e.dry == 0 {
					x, off, l, _ := parts(k.st.f.find(v))
					c.check(x == given && k.st.holds(EqI(off, IntC(0))) && k.st.holds(EqI(l, n)), "use:files", k.pos(), "the layout is that of the files given", v.String())
				}
			}
			st := k.st.clone()
			return []Res{{st: st, vals: []*Term{whole(fl)}}}, true
		}
		h[fnPieces] = func(k *Call) ([]Res, bool) {
			var ints []*Term
			for i := 0; i < k.sig.Params().Len(); i++ {
				v := k.args[i]
				if intType(k.sig.Params().At(i).Type()) {
					ints = append(ints, I(v))
				} else if e.dry == 0 {
					c.check(is(k.st, v, fl), "use:layout", k.pos(), "the parts of the pieces are those of the layout", v.String())
				}
			}
			if len(ints) == 3 && e.dry == 0 {
				s := k.st.clone()
				np, pl, ln := ints[0], ints[1], ints[2]
				c.check(s.holds(EqI(pl, plen)), "use:length", k.pos(), "the pieces have the length given", pl.String())
				c.check(sum.ok(s, ln, n), "use:total", k.pos(), "the length of everything is the sum of the lengths of the files", ln.String(), factsText(s))
				covers := false
				for _, q := range c.countForms(s, sum, n, np) {
					covers = covers || s.holds(Le(ln, Mul(q, pl)))
				}
				c.check(covers, "use:cover", k.pos(), "there are enough pieces for all of the files", np.String(), factsText(s))
			}
			good, bad := k.st.clone(), k.st.clone()
			bad.ghost["failed"] = TTrue
			return []Res{{st: good, vals: []*Term{whole(pm), TNil}}, {st: bad, vals: []*Term{TNil, k.newErr("pm")}}}, true
		}
		good := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil || !o.st.isNil(o.vals[1]) {
				continue
			}
			good++
			s := o.st
			c.check(s.ghost["failed"] == nil, "use:errors", where, "files that cannot be divided into pieces are an error", factsText(s))
			ti := c.typ(tTI)
			get := func(t types.Type) *Term {
				a, ft := fieldBy(ti, s.f.find(o.vals[0]), "", func(x types.Type) bool { return types.Identical(x, t) })
				return s.load(a, ft)
			}
			c.check(is(s, get(c.typ(tMap)), pm), "use:keep", where, "the parts of the pieces are kept", get(c.typ(tMap)).String())
			c.check(is(s, get(c.typ("gotor/torrent/filesd.FileList")), fl), "use:keep", where, "the layout of the files is kept", get(c.typ("gotor/torrent/filesd.FileList")).String())
		}
		c.check(good > 0, "use:any", where, "some metadata is accepted")
		c.done(e, "use")
	})
	c.guard("look", "looking up the parts of a piece", func() {
		f := c.anchor(fnParts)
		where := c.pg.pos(f.Pos())
		for _, side := range []int{-1, 0, 1} {
			inside := side == 0
			e := c.exec(f.RelString(nil))
			e.ideal, e.paths = true, true
			st := c.state()
			as := c.args(st, f)
			ti := c.typ(tTI)
			st.learn(notNil(as[0]))
			a, ft := fieldBy(ti, as[0], "", func(x types.Type) bool { return types.Identical(x, c.typ(tMap)) })
			pm := Sym("own:piecemap", nil)
			n := I(e.getter(st, as[0], "(*"+tTI+").NumPieces"))
			st.learn(Ge0(n))
			st.store(a, mkSlice(pm, IntC(0), n, n), ft)
			idx := I(as[1])
			switch side {
			case -1:
				st.learn(Lt(idx, IntC(0)))
			case 0:
				st.learn(Ge0(idx))
				st.learn(Lt(idx, n))
			case 1:
				st.learn(Le(n, idx))
			}
			el := mk(KElem, "", 0, nil, nil, pm, idx)
			addrTyp[el] = ft.Underlying().(*types.Slice).Elem()
			want := st.load(el, addrTyp[el])
			for _, o := range e.Run(st, f, as, nil) {
				if o.panic != nil {
					c.fail("look:parts", where, "looking up the parts of a piece comes back", idx.String())
					continue
				}
				ok := o.st.isNil(o.vals[1])
				c.check(ok == inside, "look:inside", where, "there are parts for exactly the pieces of the torrent", factsText(o.st))
				if ok && inside {
					c.check(sameValue(o.st, o.vals[0], want) || o.st.f.find(o.vals[0]) == o.st.f.find(want), "look:parts", where, "the parts of a piece are those recorded for it", o.vals[0].String(), want.String())
				}
			}
			c.done(e, "look")
		}
	})
}

func runC14(c *Ctx) {
	c.layoutList()
	c.layoutPart()
	c.layoutPieces()
	c.layoutUse()
}

func init() {
	register(&Prop{
		id: "C14", title: "The files of a torrent tile its pieces exactly",
		rule:   "the loops that lay out the files and the pieces are interpreted with the position in the torrent as a ghost quantity; every place and part that is recorded is compared with it",
		assume: []string{"64-bit arithmetic is exact (the sum of the lengths was checked to fit)"},
		run:    runC14,
	})
}

// factorsOf lists the factors of each product of a polynomial; none for its constant.
func factorsOf(p *Term) (fs [][]*Term) {
	for _, x := range p.ps {
		if x.m.k == KMono {
			fs = append(fs, x.m.args)
		} else {
			fs = append(fs, []*Term{x.m})
		}
	}
	return
}

package main

// Creating a torrent: the hashes are those of the pieces of the files.

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

const (
	fnCreate  = "gotor/torrent/info.CreateTorInfo"
	fnSegment = "gotor/utils.SegmentData"
	fnSHA1    = "gotor/utils.SHA1"
	fnNewInfo = "gotor/torrent/info.NewTorInfo"
)

func isBytesList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByteSlice(s.Elem())
}

// createSegments: data is cut into consecutive segments.
func (c *Ctx) createSegments() {
	c.guard("cut", "cutting data into pieces", func() {
		f := c.anchor(fnSegment)
		where := c.pg.pos(f.Pos())
		e := c.exec(fnSegment)
		e.paths, e.sc, e.ideal = true, 64, true
		st := c.state()
		as := c.args(st, f)
		data := Sym("own:data", nil)
		n := I(Sym("len:data", lenType))
		st.learn(Ge0(n))
		var seg *Term
		for i, p := range f.Params {
			switch {
			case isByteSlice(p.Type()):
				room := I(Sym("cap:data", lenType)) // there may be other bytes after the data
				st.learn(Le(n, room))
				as[i] = mkSlice(data, IntC(0), n, room)
			case intType(p.Type()):
				seg = I(as[i])
			}
		}
		if seg == nil || len(as) != 2 {
			panic(undecided{"data is not cut by a length"})
		}
		st.learn(Le(IntC(1), seg))
		st.learn(Le(seg, IntC(maxPLen)))
		pos, cnt := pg("pos", lenType), pg("count", lenType)
		st.mem[pos], st.mem[cnt] = IntC(0), IntC(0)
		emit := func(st *State, at string, idx, v *Term) {
			p, k := I(st.load(pos, lenType)), I(st.load(cnt, lenType))
			b, o, l, _ := parts(st.f.find(v))
			if e.dry == 0 {
				c.check(st.holds(EqI(idx, k)), "cut:order", at, "the pieces are in the order of the data", idx.String(), k.String())
				c.check(b == data && st.holds(EqI(o, p)), "cut:next", at, "each piece starts where the one before it ends", o.String(), p.String(), factsText(st))
				full := st.holds(EqI(l, seg))
				rest := st.holds(EqI(Add(p, l), n)) && st.holds(Le(l, seg)) && st.holds(Le(IntC(1), l))
				c.check(full || rest, "cut:length", at, "each piece is as long as asked for, but the last which has the rest", l.String(), factsText(st))
				c.check(st.holds(Le(Add(p, l), n)), "cut:inside", at, "a piece ends in the data", l.String())
			}
			if !st.holds(EqI(l, seg)) {
				st.ghost["rest"] = TTrue // there is none after it
			}
			st.store(pos, Add(p, l), lenType)
			st.store(cnt, AddC(k, 1), lenType)
		}
		e.hooks.markAppend = func(fr *Frame, st *State, in ssa.Instruction, s *Term, elems []*Term) {
			if v, ok := in.(ssa.Value); !ok || !isBytesList(v.Type()) {
				return
			}
			_, _, l, _ := parts(st.f.find(s))
			for i, x := range elems {
				emit(st, c.pg.pos(in.Pos()), AddC(l, int64(i)), x)
			}
		}
		e.hooks.markStore = func(fr *Frame, st *State, in ssa.Instruction, addr, v *Term) {
			s, ok := in.(*ssa.Store)
			if !ok || addr.k != KElem || !isByteSlice(s.Val.Type()) {
				return
			}
			if ia, ok := s.Addr.(*ssa.IndexAddr); ok && isBytesList(ia.X.Type()) {
				emit(st, c.pg.pos(in.Pos()), I(addr.args[1]), v)
			}
		}
		good := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			good++
			_, _, l, _ := parts(o.st.f.find(o.vals[0]))
			p, k := I(o.st.load(pos, lenType)), I(o.st.load(cnt, lenType))
			c.check(o.st.holds(EqI(p, n)), "cut:all", where, "all the data is in the pieces", p.String(), factsText(o.st))
			c.check(o.st.holds(EqI(l, k)), "cut:count", where, "there are no pieces but those", l.String(), k.String(), factsText(o.st))
		}
		c.check(good > 0, "cut:all", where, "all the data is in the pieces", "there are none")
		c.done(e, "cut")
	})
	c.guard("sha1", "the hash of a piece", func() {
		f := c.anchor(fnSHA1)
		e := c.exec(fnSHA1)
		st := c.state()
		as := c.args(st, f)
		good := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			good++
			c.check(hashIs(o.st, o.vals[0], st.sliceContent(as[0])), "sha1", c.pg.pos(f.Pos()), "the hash of a piece is its SHA-1", o.vals[0].String())
		}
		c.check(good > 0, "sha1", c.pg.pos(f.Pos()), "the hash of a piece is its SHA-1", "there is none")
		c.done(e, "sha1")
	})
}

// flatPath lists what a path is joined from.
func flatPath(x *Term) []*Term {
	x = asSeq(x)
	if w := wholeOf(x); w != nil && w.k == KApp && w.s == "pathjoin" {
		var r []*Term
		for _, a := range w.args {
			r = append(r, flatPath(a)...)
		}
		return r
	}
	return []*Term{x}
}

// pieceHashes: x is the hashes number a to b, one after the other.
func pieceHashes(st *State, x, a, b *Term) bool {
	x = asSeq(st.f.find(x))
	ends := []*Term{I(a)} // of what was passed; they are equal
	for _, g := range x.args {
		if st.holds(EqI(seqLen(Seq(g)), IntC(0))) {
			continue
		}
		var next []*Term
		if g.k == SSub {
			if h := g.args[0]; h.k == KApp && h.s == "piecehash" && g.args[1] == IntC(0) && g.args[2] == IntC(20) && st.holds(EqI(I(h.args[0]), ends[0])) {
				next = []*Term{AddC(ends[0], 1)}
			}
		}
		if w := wholeOf(Seq(g)); w != nil && next == nil {
			try := func(t *Term) {
				if t.k == KApp && t.s == "hashrange" && st.holds(EqI(I(t.args[0]), ends[0])) {
					next = append(next, I(t.args[1]))
				}
			}
			try(w)
			w = st.f.find(w)
			try(w)
			for t, v := range st.f.truth {
				if v && t.k == KEqT {
					for _, y := range t.args {
						if y.k == KApp && y.s == "hashrange" && st.f.find(y) == w {
							try(y)
						}
					}
				}
			}
		}
		if len(next) == 0 {
			return false
		}
		if ends = next; len(ends) > 1 {
			sort.Slice(ends, func(i, j int) bool { return ends[i].id < ends[j].id })
		}
	}
	for _, x := range ends {
		if st.holds(EqI(x, I(b))) {
			return true
		}
	}
	return false
}

func (c *Ctx) createInfo() {
	c.guard("create", "creating a torrent", func() {
		f := c.anchor(fnCreate)
		where := c.pg.pos(f.Pos())
		e := c.exec(fnCreate)
		e.wide = true
		e.paths, e.sc, e.ideal = true, 200, true
		st := c.state()
		as := c.args(st, f)
		str, i64 := types.Typ[types.String], types.Typ[types.Int64]
		eb := c.typ(tEntryBase)
		given := Sym("own:paths", nil)
		n := I(Sym("npaths", lenType))
		st.learn(Ge0(n))
		st.learn(Le(n, IntC(1<<36)))
		var ss []*Term
		var plen *Term
		for i, p := range f.Params {
			switch {
			case isStringSlice(p.Type()):
				as[i] = mkSlice(given, IntC(0), n, n)
			case isString(p.Type()):
				ss = append(ss, as[i])
			case intType(p.Type()):
				plen = I(as[i])
			}
		}
		if len(ss) != 2 || plen == nil {
			panic(undecided{"a torrent is not created from paths, a directory, a name and a piece length"})
		}
		st.learn(Le(IntC(1), plen))
		st.learn(Le(plen, IntC(maxPLen)))
		eofGlob := mk(KGlob, "io.EOF", 0, nil, nil)
		st.learn(notNil(st.load(eofGlob, types.Universe.Lookup("error").Type())))
		wd, name := ss[0], ss[1]
		pathAt := func(st *State, i *Term) *Term {
			el := mk(KElem, "", 0, nil, nil, given, I(i))
			addrTyp[el] = str
			return st.load(el, str)
		}
		fullPath := func(st *State, x, i *Term) bool {
			want := []*Term{st.strSeq(wd)}
			switch {
			case st.holds(Le(IntC(2), n)):
				want = append(want, st.strSeq(name))
			case !st.holds(Le(n, IntC(1))):
				return false
			}
			want = append(want, st.strSeq(pathAt(st, i)))
			got := flatPath(st.f.find(x))
			var w []*Term
			for _, p := range want {
				for _, q := range flatPath(p) {
					if !st.holds(EqI(seqLen(q), IntC(0))) {
						w = append(w, q)
					}
				}
			}
			if len(got) != len(w) {
				return false
			}
			for i := range w {
				if !eqSeqs(st, st.strSeq(got[i]), w[i]) {
					return false
				}
			}
			return true
		}
		// whichever way the index is written
		indexIn := func(st *State, x, cur *Term) *Term {
			for _, q := range flatPath(st.f.find(x)) {
				for _, a := range append(intAtoms(EqI(seqLen(q), IntC(0))), q) {
					if i := elemIndex(a, given); i != nil && st.holds(EqI(I(i), cur)) {
						return I(i)
					}
				}
			}
			return cur
		}
		var (
			hn     = pg("hashes", lenType)  // hashes computed
			held   = pg("held", lenType)    // bytes in the buffer
			hashed = pg("hashed", lenType)  // of these, hashed or in the batch
			bn     = pg("pieces", lenType)  // pieces of the batch
			bk     = pg("piece", lenType)   // of these, hashed
			nf     = pg("files", lenType)   // files opened
			na     = pg("entries", lenType) // entries made
		)
		for _, g := range []*Term{hn, held, hashed, bn, bk, nf, na} {
			st.mem[g] = IntC(0)
		}
		get := func(st *State, g *Term) *Term { return I(st.load(g, lenType)) }
		set := func(st *State, g, v *Term) { st.store(g, I(v), lenType) }
		e.rels = func(b *State) []rel {
			from := []*Term{IntC(0)}
			if v, ok := b.mem[hn]; ok && I(v) != IntC(0) {
				from = append(from, I(v))
			}
			var r []rel
			for _, a := range from {
				a := a
				r = append(r, rel{name: "hashes" + a.String(), str: true,
					at: func(n *Term) *Term { return App("hashrange", str, a, I(n)) },
					ok: func(st *State, x, n *Term) bool {
						return st.holds(EqI(I(n), get(st, hn))) && pieceHashes(st, x, a, n)
					}})
			}
			return r
		}
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		bad := func(k *Call, vals ...*Term) Res {
			s := k.st.clone()
			s.ghost["failed"] = TTrue
			return Res{st: s, vals: append(vals, k.newErr("io"))}
		}
		i := func(k *Call) *Term { return AddC(get(k.st, nf), -1) }
		file := func(st *State, i *Term) *Term { return App("created", nil, I(i)) }
		isFile := func(st *State, x *Term) bool {
			x = st.f.find(x)
			if x.k == KIface {
				x = st.f.find(x.args[0])
			}
			return x.k == KApp && x.s == "created" && st.holds(EqI(I(x.args[0]), AddC(get(st, nf), -1)))
		}
		h["os.Open"] = func(k *Call) ([]Res, bool) {
			cur := get(k.st, nf)
			if e.dry == 0 {
				g := k.st.ghost["stage"]
				c.check(g == nil || g == IntC(2), "create:whole", k.pos(), "a file is read to its end before the next one is opened", "path "+k.fr.stack())
				c.check(k.st.holds(Lt(cur, n)) && fullPath(k.st, k.args[0], indexIn(k.st, k.args[0], cur)), "create:path", k.pos(), "the files are those of the paths in their order, in the directory, and in the one with the torrent's name if there are several", k.args[0].String(), factsText(k.st))
			}
			s := k.st.clone()
			s.ghost["stage"] = IntC(1)
			set(s, nf, AddC(cur, 1))
			v := file(s, cur)
			s.learn(notNil(v))
			return []Res{{st: s, vals: []*Term{v, TNil}}, bad(k, TNil)}, true
		}
		h["(*os.File).Stat"] = func(k *Call) ([]Res, bool) {
			if e.dry == 0 {
				c.check(isFile(k.st, k.args[0]), "create:stat", k.pos(), "the length of a file is its own", k.args[0].String())
			}
			s := k.st.clone()
			v := App("createdstat", nil, i(k))
			s.learn(notNil(v))
			return []Res{{st: s, vals: []*Term{v, TNil}}, bad(k, TNil)}, true
		}
		sizeOf := func(i *Term) *Term { return I(App("createdsize", i64, I(i))) }
		h["(io/fs.FileInfo).Size"] = func(k *Call) ([]Res, bool) {
			x := k.st.f.find(k.args[0])
			if x.k == KIface {
				x = k.st.f.find(x.args[0])
			}
			if x.k == KApp && x.s == "createdstat" {
				v := sizeOf(x.args[0])
				k.st.learn(Ge0(v))
				return k.ret(v), true
			}
			return unknownCall(k), true
		}
		h["(*os.File).Close"] = func(k *Call) ([]Res, bool) {
			s := k.st.clone()
			b := k.st.clone()
			b.ghost["closebad"] = TTrue
			return []Res{{st: s, vals: []*Term{TNil}}, {st: b, vals: []*Term{k.newErr("close")}}}, true
		}
		// what was hashed, once the batch is over
		settle := func(st *State, pos, stack string) {
			if st.ghost["batch"] == nil {
				return
			}
			if e.dry == 0 {
				c.check(st.holds(EqI(get(st, bk), get(st, bn))), "create:each", pos, "each piece that was read is hashed", get(st, bk).String(), "path "+stack, factsText(st))
			}
			delete(st.ghost, "batch")
			set(st, bn, IntC(0))
			set(st, bk, IntC(0))
		}
		anyErr := types.Universe.Lookup("error").Type()
		h["(*os.File).Read"] = func(k *Call) ([]Res, bool) {
			s0 := k.st.clone()
			settle(s0, k.pos(), k.fr.stack())
			b, o, l, _ := parts(s0.f.find(k.args[1]))
			hd := get(s0, held)
			if e.dry == 0 {
				stack := "path " + k.fr.stack()
				c.check(isFile(s0, k.args[0]) && s0.ghost["stage"] == IntC(1), "create:file", k.pos(), "what is read is the file that was opened last", k.args[0].String(), stack)
				c.check(s0.ghost["short"] == nil, "create:multiple", k.pos(), "the bytes that are hashed before more are read are whole pieces", stack)
				c.check((s0.ghost["buf"] == nil || s0.ghost["buf"] == b) && s0.holds(EqI(o, hd)), "create:next", k.pos(), "what is read follows what was read before and has no hash yet", o.String(), hd.String(), stack, factsText(s0))
				c.check(s0.holds(Le(IntC(1), l)), "create:room", k.pos(), "there is room for what is read", l.String(), stack, factsText(s0))
			}
			s0.ghost["buf"] = b
			cnt := k.fresh("read", lenType)
			s, end, fl := s0.clone(), s0.clone(), s0.clone()
			s.learn(Le(IntC(1), I(cnt)))
			s.learn(Le(I(cnt), l))
			s.writeBytes(b, o, Seq(mkSub(Sym("file:"+k.site, nil), IntC(0), l)))
			set(s, held, Add(o, I(cnt)))
			end.ghost["stage"] = IntC(2)
			eof := end.load(eofGlob, anyErr)
			for _, x := range []*State{s, end, fl} {
				x.learn(notNil(x.load(eofGlob, anyErr)))
			}
			fl.ghost["failed"] = TTrue
			err := k.newErr("read")
			fl.learn(Not(EqT(err, fl.load(eofGlob, anyErr))))
			return []Res{
				{st: s, vals: []*Term{cnt, TNil}},
				{st: end, vals: []*Term{IntC(0), eof}},
				{st: fl, vals: []*Term{k.fresh("some", lenType), err}},
			}, true
		}
		many := func(st *State, l *Term) bool {
			fa := plen.atom()
			multiple := func(x *Term) bool {
				fs := factorsOf(x)
				for _, m := range fs {
					has := false
					for _, y := range m {
						has = has || y == fa
					}
					if !has {
						return false
					}
				}
				return x.c0.Sign() == 0
			}
			if multiple(l) {
				return true
			}
			for _, f := range st.f.log {
				if f.k == KEq0 {
					for _, sg := range []int64{1, -1} {
						x := Add(l, MulC(I(f.args[0]), sg))
						if multiple(x) && st.holds(EqI(x, l)) {
							return true
						}
					}
				}
			}
			return st.holds(EqI(l, plen))
		}
		// what does not hold is reported, and assumed from there on
		take := func(k *Call, x *Term, all bool) {
			b, o, l, _ := parts(x)
			st := k.st
			at := get(st, hashed)
			ok := (st.ghost["buf"] == nil && st.holds(EqI(l, IntC(0))) || st.ghost["buf"] == b) && st.holds(EqI(o, at)) && st.holds(Le(Add(at, l), get(st, held)))
			ok = ok && (!all || st.holds(EqI(Add(at, l), get(st, held))))
			if e.dry == 0 {
				c.check(ok, "create:read", k.pos(), "what is hashed is what was read, in its order, once", o.String(), l.String(), at.String(), get(st, held).String(), "path "+k.fr.stack(), factsText(st))
			}
			if !many(st, l) {
				st.ghost["short"] = TTrue
			}
			if at = Add(at, l); all || st.holds(EqI(at, get(st, held))) {
				// all of the buffer is hashed: it is free
				set(st, held, IntC(0))
				at = IntC(0)
			}
			set(st, hashed, at)
		}
		lists := map[*Term]bool{}
		h[fnSegment] = func(k *Call) ([]Res, bool) {
			s := k.st.clone()
			settle(s, k.pos(), k.fr.stack())
			k2 := *k
			k2.st = s
			var data, seg *Term
			for i := 0; i < k.sig.Params().Len(); i++ {
				if t := k.sig.Params().At(i).Type(); intType(t) {
					seg = I(k.args[i])
				} else {
					data = s.f.find(k.args[i])
				}
			}
			if e.dry == 0 {
				c.check(s.holds(EqI(seg, plen)), "create:plen", k.pos(), "the pieces are as long as the torrent says", seg.String())
				c.check(s.ghost["short"] == nil, "create:multiple", k.pos(), "only the last piece is shorter than the others", "path "+k.fr.stack())
			}
			take(&k2, data, true)
			base := Sym("own:batch:"+k.pos(), nil)
			lists[base] = true
			cnt := I(k.fresh("npieces", lenType))
			s.learn(Ge0(cnt))
			s.ghost["batch"] = base
			set(s, bn, cnt)
			set(s, bk, IntC(0))
			return []Res{{st: s, vals: []*Term{mkSlice(base, IntC(0), cnt, cnt)}}}, true
		}
		hashes := 0
		h[fnSHA1] = func(k *Call) ([]Res, bool) {
			s := k.st
			x := s.f.find(k.args[0])
			cur := get(s, hn)
			hashes++
			var idx *Term
			if g := s.ghost["batch"]; g != nil {
				idx = elemIndex(x, g)
				if idx == nil {
					idx = elemIndex(k.args[0], g)
				}
			}
			if idx != nil {
				at := get(s, bk)
				if e.dry == 0 {
					c.check(s.holds(EqI(I(idx), at)), "create:order", k.pos(), "the pieces are hashed in their order", idx.String(), at.String(), "path "+k.fr.stack(), factsText(s))
				}
				set(s, bk, AddC(at, 1))
			} else {
				settle(s, k.pos(), k.fr.stack())
				_, _, l, _ := parts(x)
				if e.dry == 0 {
					c.check(s.ghost["short"] == nil && s.holds(Le(l, plen)) && s.holds(Le(IntC(1), l)), "create:multiple", k.pos(), "only the last piece is shorter than the others", l.String(), "path "+k.fr.stack())
				}
				take(k, x, false)
				if !s.holds(EqI(l, plen)) {
					s.ghost["short"] = TTrue
				}
			}
			set(s, hn, AddC(cur, 1))
			return k.ret(asSeq(Seq(mkSub(App("piecehash", str, cur), IntC(0), IntC(20))))), true
		}
		// the buffer is only filled by what is read
		written := func(st *State, base *Term, pos string) {
			if e.dry == 0 && base != nil && (st.ghost["buf"] == base) {
				c.fail("create:changed", pos, "what was read is hashed as it is", base.String())
			}
		}
		h["builtin.copy"] = func(k *Call) ([]Res, bool) {
			b, _, _, _ := parts(k.st.f.find(k.args[0]))
			written(k.st, b, k.pos())
			return nil, false
		}
		entry := func(st *State, ptr *Term, m string) *Term {
			return e.getter(st, ptr, "(*"+tEntryBase+")."+m)
		}
		emit := func(st *State, pos string, at, v *Term) {
			cur := get(st, na)
			if e.dry == 0 {
				s := st.clone()
				ptr := c.ptrOf(s, "entry", v, eb)
				tp := entry(s, ptr, "TorPath")
				ix := indexIn(s, tp, cur)
				rule := "there is one entry for each path, in their order, with its path and the length of the file"
				c.check(s.holds(EqI(at, cur)), "create:entries", pos, rule, at.String(), cur.String())
				c.check(eqSeqs(s, s.strSeq(tp), s.strSeq(pathAt(s, ix))), "create:torpath", pos, rule, tp.String(), factsText(s))
				ln := I(entry(s, ptr, "Length"))
				okLen := s.holds(EqI(ln, sizeOf(cur)))
				for _, a := range intAtoms(EqI(ln, IntC(0))) {
					okLen = okLen || a.k == KApp && a.s == "createdsize" && s.holds(EqI(I(a.args[0]), cur)) && s.holds(EqI(ln, I(a)))
				}
				c.check(okLen, "create:length", pos, rule, ln.String(), factsText(s))
			}
			s := st.clone()
			ptr := c.ptrOf(s, "entry", v, eb)
			lp := entry(s, ptr, "LocalPath")
			if fits := fullPath(s, lp, indexIn(s, lp, cur)); !fits && s.f.find(lp) == s.f.find(entry(s, ptr, "TorPath")) {
				st.ghost["local"] = TTrue // it has none yet
			} else if e.dry == 0 {
				c.check(fits, "create:local", pos, "the local path of a file is the one that was read", lp.String(), factsText(s))
			}
			set(st, na, AddC(cur, 1))
		}
		isList := func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return ok && types.Identical(s.Elem(), eb)
		}
		e.hooks.markAppend = func(fr *Frame, st *State, in ssa.Instruction, s *Term, elems []*Term) {
			if v, ok := in.(ssa.Value); !ok || !isList(v.Type()) {
				return
			}
			_, _, l, _ := parts(st.f.find(s))
			for i, x := range elems {
				emit(st, c.pg.pos(in.Pos()), AddC(l, int64(i)), x)
			}
		}
		e.hooks.markStore = func(fr *Frame, st *State, in ssa.Instruction, addr, v *Term) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			pos := c.pg.pos(in.Pos())
			if addr.k == KElem {
				if types.Identical(s.Val.Type(), byteType) {
					written(st, addr.args[0], pos)
					return
				}
				if ia, ok := s.Addr.(*ssa.IndexAddr); ok && types.Identical(s.Val.Type(), eb) && isList(ia.X.Type()) {
					emit(st, pos, I(addr.args[1]), v)
				}
				if lists[addr.args[0]] && e.dry == 0 {
					c.fail("create:changed", pos, "what was read is hashed as it is", addr.String())
				}
				if addr.args[0] == given && e.dry == 0 {
					c.fail("create:paths", pos, "the paths stay as they are", addr.String())
				}
				return
			}
			el, _ := elemAncestor(addr)
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if el == nil || !ok || !types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), eb) {
				return
			}
			lpA := func() bool { // the local path, if that is what changes
				t := st.clone()
				before := entry(t, el, "LocalPath")
				t.store(addr, v, s.Val.Type())
				return t.f.find(before) != t.f.find(entry(t, el, "LocalPath")) && t.f.find(entry(st.clone(), el, "TorPath")) == t.f.find(entry(t, el, "TorPath"))
			}
			if isString(s.Val.Type()) && lpA() {
				at := I(el.args[1])
				if e.dry == 0 {
					c.check(st.holds(EqI(at, AddC(get(st, na), -1))) && fullPath(st, v, indexIn(st, v, at)), "create:local", pos, "the local path of a file is the one that was read", at.String(), v.String(), factsText(st))
				}
				delete(st.ghost, "local")
				return
			}
			if e.dry == 0 {
				c.fail("create:kept", pos, "an entry stays as it was made", addr.String(), v.String())
			}
		}
		made := 0
		info := Sym("own:madeinfo", f.Signature.Results().At(0).Type())
		h[fnNewInfo] = func(k *Call) ([]Res, bool) {
			good, no := k.st.clone(), bad(k, TNil)
			settle(good, k.pos(), k.fr.stack())
			good.learn(notNil(info))
			good.ghost["made"] = TTrue
			res := []Res{{st: good, vals: []*Term{info, TNil}}, no}
			if e.dry > 0 {
				return res, true
			}
			made++
			s := good
			var ss []*Term
			var pl, fs *Term
			for i := 0; i < k.sig.Params().Len(); i++ {
				switch t := k.sig.Params().At(i).Type(); {
				case isString(t):
					ss = append(ss, k.args[i])
				case intType(t):
					pl = I(k.args[i])
				case isList(t):
					fs = s.f.find(k.args[i])
				}
			}
			if len(ss) != 2 || pl == nil || fs == nil {
				panic(undecided{"the metadata is not made of a name, a piece length, hashes and files"})
			}
			stack := "path " + k.fr.stack()
			c.check(eqSeqs(s, s.strSeq(ss[0]), s.strSeq(name)), "create:name", k.pos(), "the torrent has the name that was given", ss[0].String())
			c.check(s.holds(EqI(pl, plen)), "create:plen", k.pos(), "the pieces are as long as asked for", pl.String())
			g := s.ghost["stage"]
			c.check(g == nil || g == IntC(2), "create:whole", k.pos(), "every file is read to its end", stack)
			c.check(s.holds(EqI(get(s, hashed), get(s, held))), "create:rest", k.pos(), "everything that was read is hashed", get(s, hashed).String(), get(s, held).String(), stack, factsText(s))
			c.check(pieceHashes(s, ss[1], IntC(0), get(s, hn)), "create:hashes", k.pos(), "the hashes of the torrent are those of the pieces, in their order", ss[1].String(), get(s, hn).String(), factsText(s))
			_, o, l, _ := parts(fs)
			c.check(s.holds(EqI(o, IntC(0))) && s.holds(EqI(l, n)) && s.holds(EqI(get(s, na), n)) && s.holds(EqI(get(s, nf), n)), "create:all", k.pos(), "every file that was given is in the torrent", l.String(), get(s, na).String(), get(s, nf).String(), factsText(s))
			c.check(s.ghost["local"] == nil, "create:local", k.pos(), "the local path of a file is the one that was read", stack)
			return res, true
		}
		h["errors.Is"] = func(k *Call) ([]Res, bool) {
			x, y := k.st.f.find(k.args[0]), k.st.f.find(k.args[1])
			switch {
			case x == y || k.st.holds(EqT(x, y)):
				return k.ret(TTrue), true
			case k.st.never(EqT(x, y)):
				// what the operating system reports is never the end of a file in disguise
				return k.ret(TFalse), true
			}
			return nil, false
		}
		for _, s := range []string{"(*os.File).ReadAt", "(*os.File).Seek", "(*os.File).ReadFrom", "(*os.File).WriteTo"} {
			h[s] = func(k *Call) ([]Res, bool) {
				if e.dry == 0 {
					c.fail("create:sequence", k.pos(), "the files are read from start to end", k.name)
				}
				return unknownCall(k), true
			}
		}
		good := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			s := o.st
			if s.isNil(o.vals[1]) {
				good++
				c.check(s.ghost["made"] != nil && s.f.find(o.vals[0]) == s.f.find(info), "create:result", where, "the result is the torrent that was made", o.vals[0].String(), factsText(s))
				c.check(s.ghost["failed"] == nil, "create:failed", where, "no torrent is made from files that could not be read", factsText(s))
				continue
			}
			c.check(s.nonNil(o.vals[1]) && (s.ghost["failed"] != nil || s.ghost["closebad"] != nil), "create:refused", where, "creating a torrent only fails when a file cannot be read or the layout does not fit", o.vals[1].String(), factsText(s))
		}
		c.check(good > 0 && made > 0 && hashes > 0, "create:result", where, "a torrent can be created", "none is")
		c.done(e, "create")
	})
}

func runC20(c *Ctx) {
	c.createSegments()
	c.createInfo()
}

func init() {
	register(&Prop{
		id: "C20", title: "A created torrent describes its files",
		rule:   "the creation of a torrent is interpreted with the bytes read, the bytes hashed and the pieces of a batch as ghost quantities",
		assume: []string{"a read that gives no error gives at least one byte, as os.File does; the end of a file is reported without bytes"},
		run:    runC20,
	})
}

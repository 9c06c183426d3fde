package main

// Torrent files: what is loaded is what the file says.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	tList = "gotor/bencode.List"
)

// entryOf: the value of a key of a dictionary, as a type.
func (c *Ctx) entryOf(e *Exec, st *State, m *Term, key string, t types.Type) (has, x *Term) {
	any := types.NewInterfaceType(nil, nil)
	h, v := st.mapGet(m, mkSeqLit(key), any)
	is := e.isType(st, v, t)
	if !st.holds(h) {
		return h, e.payload(st, v, t)
	}
	return is, e.payload(st, v, t)
}

func (c *Ctx) keyIs(e *Exec, st *State, m *Term, key string, t types.Type, x *Term) bool {
	has, v := c.entryOf(e, st, m, key, t)
	return st.holds(has) && sameValue(st, x, v)
}

// keyBad: the key is missing or has another type.
func (c *Ctx) keyBad(e *Exec, st *State, m *Term, key string, t types.Type) bool {
	h, v := st.mapGet(m, mkSeqLit(key), types.NewInterfaceType(nil, nil))
	return st.never(h) || st.never(e.isType(st, v, t))
}

func runC21(c *Ctx) {
	c.loadTorrent()
	c.newTorrent()
	c.fromDict()
	c.metadata()
	c.pieceHash()
	c.unchanged()
}

// hashed is the SHA-1 of a sequence.
func hashIs(st *State, x, content *Term) bool {
	return eqSeqs(st, st.strSeq(x), sha1Of(content))
}

func (c *Ctx) loadTorrent() {
	c.guard("load", "loading a torrent file", func() {
		f := c.anchor("gotor/torrent.FromTorrentFile")
		where := c.pg.pos(f.Pos())
		e := c.exec(f.RelString(nil))
		e.paths, e.sc = true, 100
		st := c.state()
		as := c.args(st, f)
		dict, str := c.typ(tDict), types.Typ[types.String]
		content := asSeq(Sym("own:content", str))
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		fails := func(k *Call, why string) Res {
			s := k.st.clone()
			s.ghost["failed"] = mkSeqLit(why)
			n := k.sig.Results().Len()
			vs := make([]*Term, n)
			for i := range vs {
				vs[i] = zeroValue(k.sig.Results().At(i).Type())
			}
			vs[n-1] = k.newErr(why)
			return Res{st: s, vals: vs}
		}
		file := func(k *Call, s *State) *Term {
			b := Sym("own:filebytes", nil)
			s.mem[mk(KBArr, "", 0, nil, nil, b)] = content
			n := seqLen(content)
			return mkSlice(b, IntC(0), n, n)
		}
		read := func(k *Call) ([]Res, bool) {
			good := k.st.clone()
			return []Res{{st: good, vals: []*Term{file(k, good), TNil}}, fails(k, "read")}, true
		}
		handle := mk(KPtr, "own:file", 0, nil, nil)
		for _, n := range []string{"os.ReadFile", "io/ioutil.ReadFile"} {
			h[n] = read
		}
		for _, n := range []string{"io.ReadAll", "io/ioutil.ReadAll"} {
			h[n] = func(k *Call) ([]Res, bool) {
				x := k.st.f.find(k.args[0])
				if x.k == KIface {
					x = x.args[0]
				}
				if x != handle {
					return nil, false
				}
				return read(k)
			}
		}
		h["os.Open"] = func(k *Call) ([]Res, bool) {
			return []Res{{st: k.st.clone(), vals: []*Term{handle, TNil}}, fails(k, "open")}, true
		}
		D, top := Sym("own:decoded", nil), Sym("own:dict", dict)
		decoded := 0
		h["gotor/bencode.Decode"] = func(k *Call) ([]Res, bool) {
			if e.dry == 0 {
				decoded++
				c.check(k.st.f.seqEqual(k.st.sliceContent(k.args[0]), content), "load:content", k.pos(), "the whole file is decoded", k.args[0].String())
			}
			good, other := k.st.clone(), k.st.clone()
			is := mk(KIface, "", 0, dict, nil, top)
			good.ghost["dict"] = TTrue
			other.ghost["failed"] = mkSeqLit("no dictionary")
			other.learn(Not(e.isType(other, D, dict)))
			return []Res{{st: good, vals: []*Term{is, TNil}}, {st: other, vals: []*Term{D, TNil}}, fails(k, "decode")}, true
		}
		h["gotor/bencode.Encode"] = func(k *Call) ([]Res, bool) {
			x := k.st.f.find(k.args[0])
			if x.k == KIface {
				x = x.args[0]
			}
			good := k.st.clone()
			s := encOf(x)
			b := App("encbytes", nil, x)
			good.mem[mk(KBArr, "", 0, nil, nil, b)] = s
			r := mkSlice(b, IntC(0), seqLen(s), seqLen(s))
			return []Res{{st: good, vals: []*Term{r, TNil}}, fails(k, "encode")}, true
		}
		made := Sym("own:info", types.NewPointer(c.typ(tTI)))
		h["gotor/torrent/info.FromDict"] = func(k *Call) ([]Res, bool) {
			if e.dry == 0 {
				c.check(c.keyIs(e, k.st, top, "info", dict, k.args[0]), "load:info", k.pos(), "the metadata is made of the info dictionary", k.args[0].String())
			}
			good := k.st.clone()
			good.learn(Not(EqT(made, TNil)))
			good.ghost["made"] = TTrue
			return []Res{{st: good, vals: []*Term{made, TNil}}, fails(k, "info")}, true
		}
		e.hooks.markMap = func(fr *Frame, st *State, in ssa.Instruction, m, k, v *Term) {
			if !isFresh(m) && e.dry == 0 {
				c.fail("load:changed", c.pg.pos(in.Pos()), "what was decoded is not changed", m.String())
			}
		}
		good := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			s := o.st
			bad := c.keyBad(e, s, top, "announce", str) || c.keyBad(e, s, top, "info", dict)
			if !s.isNil(o.vals[1]) {
				c.check(s.ghost["failed"] != nil || bad, "load:accepts", where, "a torrent file is only refused when it cannot be read, is not a dictionary with an announce URL and an info dictionary, or its metadata is refused", factsText(s))
				continue
			}
			good++
			c.check(s.ghost["failed"] == nil, "load:errors", where, "a torrent file that cannot be read, decoded or understood is an error", factsText(s))
			_, ann := c.entryOf(e, s, top, "announce", str)
			_, inf := c.entryOf(e, s, top, "info", dict)
			t := o.vals[0]
			c.check(!bad && sameValue(s, e.getter(s, t, "(*"+tTor+").Announce"), ann), "load:announce", where, "the announce URL is the one in the file", factsText(s))
			hash := e.getter(s, t, "(*"+tTor+").Infohash")
			c.check(!bad && hashIs(s, hash, encOf(inf)), "load:infohash", where, "the infohash is the SHA-1 of the bencoded info dictionary of the file", hash.String(), sha1Of(encOf(inf)).String())
			c.check(s.ghost["made"] != nil && s.f.find(e.getter(s, t, "(*"+tTor+").Info")) == s.f.find(made), "load:metadata", where, "the metadata of the torrent is the one made of its info dictionary", factsText(s))
		}
		c.check(good > 0 && decoded > 0, "load:any", where, "some torrent file is accepted")
		c.done(e, "load")
	})
}

func (c *Ctx) newTorrent() {
	f := c.pg.fn("gotor/torrent.NewTorrent")
	if f == nil {
		return
	}
	c.guard("new", "making a torrent", func() {
		where := c.pg.pos(f.Pos())
		e := c.exec(f.RelString(nil))
		e.paths, e.sc = true, 100
		st := c.state()
		as := c.args(st, f)
		made := Sym("own:bencode", c.typ(tDict))
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		h["(*"+tTI+").Bencode"] = func(k *Call) ([]Res, bool) {
			c.check(k.st.f.find(k.args[0]) == k.st.f.find(as[0]), "new:info", k.pos(), "the metadata of the torrent is bencoded", k.args[0].String())
			return []Res{{st: k.st, vals: []*Term{made}}}, true
		}
		h["gotor/bencode.Encode"] = func(k *Call) ([]Res, bool) {
			x := k.st.f.find(k.args[0])
			if x.k == KIface {
				x = x.args[0]
			}
			good, bad := k.st.clone(), k.st.clone()
			s := encOf(x)
			b := App("encbytes", nil, x)
			good.mem[mk(KBArr, "", 0, nil, nil, b)] = s
			r := mkSlice(b, IntC(0), seqLen(s), seqLen(s))
			bad.ghost["failed"] = TTrue
			return []Res{{st: good, vals: []*Term{r, TNil}}, {st: bad, vals: []*Term{TNil, k.newErr("enc")}}}, true
		}
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			s := o.st
			if !s.isNil(o.vals[1]) {
				c.check(s.ghost["failed"] != nil, "new:accepts", where, "metadata that can be encoded makes a torrent", factsText(s))
				continue
			}
			t := o.vals[0]
			c.check(s.ghost["failed"] == nil && hashIs(s, e.getter(s, t, "(*"+tTor+").Infohash"), encOf(made)), "new:infohash", where, "the infohash is the SHA-1 of the bencoded metadata", factsText(s))
			c.check(s.f.find(e.getter(s, t, "(*"+tTor+").Info")) == s.f.find(as[0]) && sameValue(s, e.getter(s, t, "(*"+tTor+").Announce"), as[1]), "new:fields", where, "the metadata and the announce URL are those given", factsText(s))
		}
		c.done(e, "new")
	})
}

// sums: the sum of the lengths of the first n files.
func (c *Ctx) sums(base *Term) rel {
	eb := c.typ(tEntryBase)
	at := func(n *Term) *Term { return App("sumto", lenType, base, I(n)) }
	r := rel{name: "sum", at: at}
	r.ok = func(st *State, x, n *Term) bool {
		x, n = I(x), I(n)
		is := func(x, n *Term) bool {
			if st.holds(EqI(n, IntC(0))) {
				return st.holds(EqI(x, IntC(0)))
			}
			if st.holds(EqI(x, I(at(n)))) {
				return true
			}
			for _, l := range st.f.log {
				for _, a := range intAtoms(l) {
					if a.k == KApp && a.s == "sumto" && a.args[0] == base && st.holds(EqI(I(a.args[1]), n)) && st.holds(EqI(x, I(a))) {
						return true
					}
				}
			}
			return false
		}
		if is(x, n) {
			return true
		}
		m := AddC(n, -1)
		el := mk(KElem, "", 0, nil, nil, base, m)
		addrTyp[el] = eb
		a, t := fieldCell(eb, el, "length")
		if is(Sub(x, I(st.load(a, t))), m) {
			return true
		}
		// whichever way the index is written
		for _, at := range intAtoms(EqI(x, IntC(0))) {
			if i := elemIndex(at, base); i != nil && st.holds(EqI(I(i), m)) && is(Sub(x, I(at)), m) {
				return true
			}
		}
		return false
	}
	return r
}

// unsigned: the first n elements have no negative length.
func (c *Ctx) unsigned(base *Term) rel {
	eb := c.typ(tEntryBase)
	at := func(n *Term) *Term { return App("negativesto", lenType, base, I(n)) }
	r := rel{name: "unsigned", at: at, self: true}
	r.ok = func(st *State, _, n *Term) bool {
		n = I(n)
		is := func(n *Term) bool {
			if st.holds(Le(n, IntC(0))) || st.holds(EqI(IntC(0), I(at(n)))) {
				return true
			}
			for _, l := range st.f.log {
				for _, a := range intAtoms(l) {
					if a.k == KApp && a.s == "negativesto" && a.args[0] == base && st.holds(EqI(I(a.args[1]), n)) && st.holds(EqI(IntC(0), I(a))) {
						return true
					}
				}
			}
			return false
		}
		if is(n) {
			return true
		}
		m := AddC(n, -1)
		if !is(m) {
			return false
		}
		el := mk(KElem, "", 0, nil, nil, base, m)
		addrTyp[el] = eb
		a, t := fieldCell(eb, el, "length")
		if st.holds(Ge0(I(st.load(a, t)))) {
			return true
		}
		for _, l := range st.f.log {
			for _, x := range intAtoms(l) {
				if i := elemIndex(x, base); i != nil && x.k == KLoad && st.holds(EqI(I(i), m)) && st.holds(Ge0(I(x))) {
					return true
				}
			}
		}
		return false
	}
	return r
}

// countForms lists the forms of a number of pieces that sums of lengths are
// divided into, with what is known about the sums of all n files.
func (c *Ctx) countForms(s *State, sum rel, n, np *Term) []*Term {
	// sums of all the files are the same
	for _, l := range append([]*Term{}, s.f.log...) {
		for _, a := range intAtoms(l) {
			if a.k == KApp && a.s == "sumto" && s.holds(EqI(I(a.args[1]), n)) {
				s.learn(EqI(I(a), I(sum.at(n))))
			}
		}
	}
	qs := []*Term{np}
	for _, l := range s.f.log {
		for _, a := range intAtoms(l) {
			for k := int64(0); k < 2 && a.k == KApp && a.s == "div"; k++ {
				if q := AddC(I(a), k); s.holds(EqI(q, np)) {
					qs = append(qs, q)
				}
			}
		}
	}
	return qs
}

// metadata: the torrent that NewTorInfo makes.
func (c *Ctx) metadata() {
	c.guard("meta", "making the metadata", func() {
		f := c.anchor("gotor/torrent/info.NewTorInfo")
		where := c.pg.pos(f.Pos())
		e := c.exec(f.RelString(nil))
		e.paths, e.sc, e.ideal = true, 400, true
		st := c.state()
		as := c.args(st, f)
		eb := c.typ(tEntryBase)
		given := Sym("own:given", nil)
		n := I(Sym("ngiven", lenType))
		st.learn(Ge0(n))
		st.learn(Le(n, IntC(1<<36)))
		var ss []*Term
		var plen *Term
		for i, p := range f.Params {
			switch {
			case isString(p.Type()):
				ss = append(ss, as[i])
			case intType(p.Type()):
				plen = as[i]
			default:
				if s, ok := p.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), eb) {
					as[i] = mkSlice(given, IntC(0), n, n)
				}
			}
		}
		if len(ss) != 2 || plen == nil {
			panic(undecided{"the metadata is not made of a name, a piece length, hashes and files"})
		}
		name, hashes := ss[0], ss[1]
		sum := c.sums(given)
		sizes := c.unsigned(given)
		e.rels = func(*State) []rel { return []rel{sum, sizes} }
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		pm := Sym("own:piecemap", nil)
		h["gotor/torrent/info.MakePieceMap"] = func(k *Call) ([]Res, bool) {
			good, bad := k.st.clone(), k.st.clone()
			bad.ghost["failed"] = TTrue
			r := mkSlice(pm, IntC(0), I(App("len", lenType, pm)), I(App("len", lenType, pm)))
			return []Res{{st: good, vals: []*Term{r, TNil}}, {st: bad, vals: []*Term{TNil, k.newErr("pm")}}}, true
		}
		// the layout of the files does not matter here
		h["gotor/torrent/filesd.MakeFileList"] = func(k *Call) ([]Res, bool) { return unknownCall(k), true }
		good := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil || !o.st.isNil(o.vals[1]) {
				continue
			}
			good++
			s := o.st
			t := o.vals[0]
			get := func(g string) *Term { return e.getter(s, t, "(*"+tTI+")."+g) }
			c.check(s.ghost["failed"] == nil, "meta:errors", where, "files that cannot be divided into pieces are an error", factsText(s))
			c.check(sizes.ok(s, nil, n), "meta:sizes", where, "no file has a negative length", factsText(s))
			c.check(sameValue(s, get("Name"), name), "meta:name", where, "the name is the one given", get("Name").String())
			c.check(sameValue(s, get("PieceLen"), plen), "meta:piecelen", where, "the piece length is the one given", get("PieceLen").String())
			c.check(sameValue(s, get("Hashes"), hashes), "meta:hashes", where, "the hashes are those given", get("Hashes").String())
			np, ln, pl := I(get("NumPieces")), I(get("Length")), I(plen)
			c.check(s.holds(EqI(MulC(np, 20), seqLen(s.strSeq(hashes)))), "meta:count", where, "there is one hash of 20 bytes for each piece", np.String(), factsText(s))
			c.check(sum.ok(s, ln, n), "meta:length", where, "the length is the sum of the lengths of the files", ln.String(), factsText(s))
			qs := c.countForms(s, sum, n, np)
			covers := false
			for _, q := range qs {
				covers = covers || s.holds(Le(ln, Mul(q, pl))) && s.holds(Lt(Mul(AddC(q, -1), pl), ln))
			}
			c.check(covers, "meta:pieces", where, "the pieces cover the length, and the last one is not empty", factsText(s))
			c.check(s.holds(EqI(I(get("LastPieceLen")), Sub(pl, Sub(Mul(np, pl), ln)))), "meta:last", where, "the last piece has what the others leave", get("LastPieceLen").String(), factsText(s))
			single := get("IsSingle")
			one := EqI(n, IntC(1))
			c.check(s.f.find(single) == s.f.find(one) || s.holds(one) && s.holds(single) || s.never(one) && s.never(single), "meta:single", where, "a torrent of one file is known as such", single.String())
		}
		c.check(good > 0, "meta:any", where, "some metadata is accepted")
		c.done(e, "meta")
	})
}

// pieceHash: the hash of a piece.
func (c *Ctx) pieceHash() {
	c.guard("hash", "the hash of a piece", func() {
		f := c.anchor("(*" + tTI + ").PieceHash")
		e := c.exec(f.RelString(nil))
		e.invs = c.allInvs()
		e.ideal = true
		st := c.state()
		as := c.args(st, f)

		st.learn(Ge0(I(as[1])))
		st.learn(Lt(I(as[1]), I(e.getter(st, as[0], "(*"+tTI+").NumPieces"))))
		n := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			n++
			c.check(eqSeqs(o.st, o.st.strSeq(o.vals[0]), c.hashOf(e, o.st, as[0], as[1])), "hash:piece", c.pg.pos(f.Pos()), "the hash of a piece is the one at its place", o.vals[0].String())
		}
		c.check(n > 0, "hash:piece", c.pg.pos(f.Pos()), "the hash of a piece is the one at its place", "there is none")
		c.done(e, "hash")
	})
}

// unchanged: nothing changes a torrent after it was loaded.
func (c *Ctx) unchanged() {
	c.guard("unchanged", "changes to a torrent", func() {
		load := c.anchor("gotor/torrent.FromTorrentFile")
		ms := map[*ssa.Function]bool{load: true}
		for _, n := range []string{"gotor/torrent.NewTorrent", "gotor/torrent/info.FromDict", "gotor/torrent/info.NewTorInfo"} {
			if f := c.pg.fn(n); f != nil {
				ms[f] = true
			}
		}
		reach := c.pg.reachable(func(f *ssa.Function) bool { return ms[f] }, c.anchor("gotor.main"))
		if !c.pg.reachable(nil, c.anchor("gotor.main"))[load] {
			c.fail("unchanged:load", c.pg.pos(load.Pos()), "the torrent file is loaded", "it is not")
		}
		tt, ti := c.typ(tTor), c.typ(tTI)
		n := 0
		for f := range reach {
			if ms[f] {
				continue
			}
			n++
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					t := types.Type(nil)
					addr := s.Addr
					for {
						fa, ok := addr.(*ssa.FieldAddr)
						if !ok {
							break
						}
						addr = fa.X
						t = fa.X.Type().Underlying().(*types.Pointer).Elem()
					}
					if t == nil {
						t = s.Val.Type()
					}
					if _, local := addr.(*ssa.Alloc); !local && (types.Identical(t, tt) || types.Identical(t, ti)) {
						c.fail("unchanged:"+f.RelString(nil), c.pg.pos(in.Pos()), "a torrent does not change after it was loaded", f.RelString(nil))
					}
				}
			}
		}
		c.check(n > 0, "unchanged:functions", "", "the functions that run after loading were looked at")
		c.ok("unchanged:all", c.pg.pos(load.Pos()), "no function that runs after loading writes to a torrent or its metadata")
	})
}

func (c *Ctx) fromDict() {
	c.guard("dict", "the info dictionary", func() {
		f := c.anchor("gotor/torrent/info.FromDict")
		where := c.pg.pos(f.Pos())
		e := c.exec(f.RelString(nil))
		e.paths, e.sc = true, 400
		st := c.state()
		as := c.args(st, f)
		dict, str, list, i64 := c.typ(tDict), types.Typ[types.String], c.typ(tList), types.Typ[types.Int64]
		eb := c.typ(tEntryBase)
		var D *Term
		for i, p := range f.Params {
			if types.Identical(p.Type(), dict) {
				D = as[i]
			}
		}
		if D == nil {
			panic(undecided{"no dictionary is given"})
		}
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		any := types.NewInterfaceType(nil, nil)
		elemAt := func(st *State, base, i *Term) *Term {
			el := mk(KElem, "", 0, nil, nil, base, I(i))
			addrTyp[el] = any
			return st.load(el, any)
		}
		// the list of files, and of the parts of the path of file i
		files := func(st *State) (base, n *Term) {
			_, l := c.entryOf(e, st, D, "files", list)
			b, _, n, _ := parts(st.f.find(l))
			return b, n
		}
		file := func(st *State, i *Term) *Term {
			b, _ := files(st)
			return e.payload(st, elemAt(st, b, i), dict)
		}
		// every path list that is looked at
		lists := func(st *State) []*Term {
			var r []*Term
			for t, v := range st.f.truth {
				if v && t.k == KApp && t.s == "is:"+shortType(list) && len(t.args) == 1 && t.args[0].k == KApp && t.args[0].s == "mapval" {
					if k, ok := seqLit(asSeq(t.args[0].args[1])); ok && k == "path" {
						b, _, _, _ := parts(st.f.find(e.payload(st, t.args[0], list)))
						r = append(r, b)
					}
				}
			}
			return r
		}
		// the first n parts of a path, each with a slash
		joins := func(st *State, base, x, n *Term) bool {
			x = asSeq(st.f.find(x))
			if st.holds(EqI(n, IntC(0))) {
				return st.holds(EqI(seqLen(x), IntC(0)))
			}
			is := func(x, n *Term) bool {
				if st.holds(EqI(n, IntC(0))) {
					return st.holds(EqI(seqLen(x), IntC(0)))
				}
				w := wholeOf(x)
				if w == nil {
					return false
				}
				return isJoined(st, w, base, n, "joined")
			}
			if is(x, n) {
				return true
			}
			k := len(x.args)
			if k < 2 || x.args[k-1].k != SLit || x.args[k-1].s != "/" {
				return false
			}
			part := Seq(x.args[k-2])
			m := AddC(n, -1)
			return eqSeqs(st, part, st.strSeq(e.payload(st, elemAt(st, base, m), str))) && is(Seq(x.args[:k-2]...), m)
		}
		// the first n parts of a path, with slashes between them
		cuts := func(st *State, base, x, n *Term) bool {
			x = asSeq(st.f.find(x))
			if st.holds(EqI(n, IntC(0))) {
				return st.holds(EqI(seqLen(x), IntC(0)))
			}
			if w := wholeOf(x); w != nil && isJoined(st, w, base, n, "joinedcut") {
				return true
			}
			m := AddC(n, -1)
			part := st.strSeq(e.payload(st, elemAt(st, base, m), str))
			if st.holds(EqI(m, IntC(0))) {
				if len(x.args) == 2 {
					if w := wholeOf(Seq(x.args[0])); w != nil && isJoined(st, w, base, m, "joinedcut") {
						x = Seq(x.args[1])
					}
				}
				return eqSeqs(st, x, part)
			}
			k := len(x.args)
			if k < 3 || x.args[k-2].k != SLit || x.args[k-2].s != "/" {
				return false
			}
			w := wholeOf(Seq(x.args[:k-2]...))
			return eqSeqs(st, Seq(x.args[k-1]), part) && w != nil && isJoined(st, w, base, m, "joinedcut")
		}
		e.rels = func(st *State) []rel {
			var r []rel
			for _, b := range lists(st) {
				b := b
				r = append(r, rel{name: "cut" + b.String(), str: true, at: func(n *Term) *Term { return joinedCut(b, n) }, ok: func(st *State, x, n *Term) bool { return cuts(st, b, x, n) }})
				r = append(r, rel{name: "path" + b.String(), str: true, at: func(n *Term) *Term { return joined(b, n) }, ok: func(st *State, x, n *Term) bool { return joins(st, b, x, n) }})
			}
			return r
		}
		// the parts of the path are collected in a list of strings
		e.elemPreds = []string{"parts"}
		e.elemOK = func(st *State, n string, v *Term, t types.Type) bool {
			if !isString(t) {
				return false
			}
			w := wholeOf(asSeq(v))
			if w == nil || w.k != KApp || len(w.args) != 1 || w.args[0].k != KElem && w.args[0].k != KLoad {
				return false
			}
			for _, b := range lists(st) {
				if elemIndex(w, b) != nil {
					return true
				}
			}
			return false
		}
		e.elemLearn = func(st *State, n string, v *Term, t types.Type, at *Term) {}
		isPath := func(st *State, x, i *Term) bool {
			d := file(st, i)
			has, l := c.entryOf(e, st, d, "path", list)
			if !st.holds(has) {
				return false
			}
			b, _, n, _ := parts(st.f.find(l))
			x = asSeq(st.f.find(x))
			if w := wholeOf(x); w != nil && w.k == KApp && (w.s == "strjoin" || w.s == "pathjoin" && len(w.args) == 1 && w.args[0].k == KSlice) {
				ok, sep := true, "/"
				if w.s == "strjoin" {
					sep, ok = seqLit(asSeq(w.args[1]))
				}
				if ok && sep == "/" {
					sb, _, sl, _ := parts(st.f.find(w.args[0]))
					return st.f.truth[okElems("parts", sb)] && st.holds(EqI(sl, n))
				}
			}
			return joins(st, b, Seq(append(append([]*Term{}, x.args...), mkLit("/"))...), n) || cuts(st, b, x, n) || cutJoin(st, x, b, n)
		}
		cnt := pg("files", lenType)
		st.mem[cnt] = IntC(0)
		rule := "the files are those of the list, in its order, each with its own length and path"
		fieldsOf := func(v *Term) (path, n *Term) { return pathOf(v, eb, "torPath"), pathOf(v, eb, "length") }
		same := func(st *State, v, w *Term) bool {
			p, n := fieldsOf(v)
			q, m := fieldsOf(w)
			return st.holds(EqI(I(n), I(m))) && (st.f.find(p) == st.f.find(q) || eqSeqs(st, st.strSeq(p), st.strSeq(q)))
		}
		entryAt := func(st *State, base, i *Term) *Term {
			el := mk(KElem, "", 0, nil, nil, base, I(i))
			addrTyp[el] = eb
			return st.load(el, eb)
		}
		// a copy of the same file in another list
		copied := func(st *State, v, at *Term) bool {
			p, n := fieldsOf(v)
			for _, a := range append(intAtoms(EqI(I(n), IntC(0))), p) {
				var in func(t *Term) *Term
				in = func(t *Term) *Term {
					if t.k == KFld && t.args[0].k == KElem {
						for _, nm := range []string{"length", "torPath"} {
							if a, _ := fieldCell(eb, t.args[0], nm); a == t {
								return t.args[0]
							}
						}
					}
					for _, x := range t.args {
						if r := in(x); r != nil {
							return r
						}
					}
					return nil
				}
				if el := in(a); el != nil && st.holds(EqI(I(el.args[1]), at)) && same(st, v, entryAt(st, el.args[0], I(el.args[1]))) {
					return true
				}
			}
			return false
		}
		isList := func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return ok && types.Identical(s.Elem(), eb)
		}
		single := func(st *State, v *Term) bool {
			p, n := fieldsOf(v)
			return c.keyIs(e, st, D, "name", str, p) && c.keyIs(e, st, D, "length", i64, n)
		}
		emit := func(st *State, pos string, at, v *Term) {
			if single(st, v) || copied(st, v, at) {
				return
			}
			cur := I(st.load(cnt, lenType))
			if e.dry == 0 {
				p, n := fieldsOf(v)
				// whichever way the index is written
				ix := cur
				fb, _ := files(st)
				for _, a := range intAtoms(EqI(I(n), IntC(0))) {
					if i := elemIndex(a, fb); i != nil && st.holds(EqI(I(i), cur)) {
						ix = I(i)
					}
				}
				d := file(st, ix)
				c.check(st.holds(EqI(at, cur)), "dict:order", pos, rule, at.String(), cur.String())
				c.check(c.keyIs(e, st, d, "length", i64, n), "dict:length", pos, rule, n.String(), factsText(st))
				c.check(isPath(st, p, ix), "dict:path", pos, rule, p.String(), factsText(st))
			}
			st.store(cnt, AddC(cur, 1), lenType)
		}
		e.hooks.markAppend = func(fr *Frame, st *State, in ssa.Instruction, s *Term, elems []*Term) {
			v, ok := in.(ssa.Value)
			if !ok {
				return
			}
			_, _, l, _ := parts(st.f.find(s))
			for i, x := range elems {
				at := AddC(l, int64(i))
				switch {
				case isList(v.Type()):
					emit(st, c.pg.pos(in.Pos()), at, x)
				case e.dry == 0 && isStringSlice(v.Type()) && e.elemOK(st, "parts", x, str):
					for _, b := range lists(st) {
						if i := elemIndex(wholeOf(asSeq(x)), b); i != nil {
							c.check(st.holds(EqI(I(i), at)), "dict:parts", c.pg.pos(in.Pos()), "the parts of a path are in its order", i.String(), at.String())
						}
					}
				}
			}
		}
		e.hooks.markStore = func(fr *Frame, st *State, in ssa.Instruction, addr, v *Term) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			pos := c.pg.pos(in.Pos())
			if addr.k == KElem && types.Identical(s.Val.Type(), eb) {
				if ia, ok := s.Addr.(*ssa.IndexAddr); !ok || !isList(ia.X.Type()) {
					return // an array that will be a list of its own
				}
				if same(st, v, entryAt(st, addr.args[0], addr.args[1])) {
					return
				}
				emit(st, pos, I(addr.args[1]), v)
				return
			}
			ia, _ := s.Addr.(*ssa.IndexAddr)
			if addr.k == KElem && ia != nil && isStringSlice(ia.X.Type()) && e.dry == 0 && e.elemOK(st, "parts", v, str) {
				for _, b := range lists(st) {
					if i := elemIndex(wholeOf(asSeq(v)), b); i != nil {
						c.check(st.holds(EqI(I(i), I(addr.args[1]))), "dict:parts", pos, "the parts of a path are in its order", i.String(), addr.args[1].String())
					}
				}
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || e.dry > 0 {
				return
			}
			el, _ := elemAncestor(addr)
			if el == nil || !types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), eb) {
				return
			}
			if nm := structOf(eb).Field(fa.Field).Name(); nm != "localPath" {
				a, t := fieldCell(eb, el, nm)
				c.check(sameValue(st, v, st.load(a, t)), "dict:field:"+nm, pos, "the length and the path of a file stay those of the dictionary", v.String())
			}
		}
		e.hooks.markMap = func(fr *Frame, st *State, in ssa.Instruction, m, k, v *Term) {
			if !isFresh(m) && e.dry == 0 {
				c.fail("dict:changed", c.pg.pos(in.Pos()), "the dictionary is not changed", m.String())
			}
		}
		n := 0
		h["gotor/torrent/info.NewTorInfo"] = func(k *Call) ([]Res, bool) {
			good, bad := k.st.clone(), k.st.clone()
			good.ghost["made"] = TTrue
			bad.ghost["refused"] = TTrue
			made := Sym("own:madeinfo", k.sig.Results().At(0).Type())
			good.learn(Not(EqT(made, TNil)))
			res := []Res{{st: good, vals: []*Term{made, TNil}}, {st: bad, vals: []*Term{TNil, k.newErr("info")}}}
			if e.dry > 0 {
				return res, true
			}
			n++
			var ss []*Term
			var plen, fs *Term
			for i := 0; i < k.sig.Params().Len(); i++ {
				switch t := k.sig.Params().At(i).Type(); {
				case isString(t):
					ss = append(ss, k.args[i])
				case intType(t):
					plen = k.args[i]
				case isList(t):
					fs = k.st.f.find(k.args[i])
				}
			}
			if len(ss) != 2 || plen == nil || fs == nil {
				panic(undecided{"the metadata is not made of a name, a piece length, hashes and files"})
			}
			s := k.st
			c.check(c.keyIs(e, s, D, "name", str, ss[0]), "dict:name", k.pos(), "the name is the one in the dictionary", ss[0].String())
			c.check(c.keyIs(e, s, D, "piece length", i64, plen), "dict:piecelen", k.pos(), "the piece length is the one in the dictionary", plen.String())
			c.check(c.keyIs(e, s, D, "pieces", str, ss[1]), "dict:pieces", k.pos(), "the hashes are those in the dictionary", ss[1].String())
			b, o, l, _ := parts(fs)
			if has, _ := c.entryOf(e, s, D, "length", i64); s.holds(has) {
				c.check(s.holds(EqI(l, IntC(1))) && single(s, entryAt(s, b, o)), "dict:single", k.pos(), "a dictionary with a length is that of a single file with its name and length", l.String(), factsText(s))
				return res, true
			}
			has, _ := c.entryOf(e, s, D, "files", list)
			_, m := files(s)
			cur := I(s.load(cnt, lenType))
			c.check(s.holds(has) && s.holds(EqI(l, m)) && s.holds(EqI(cur, m)) && s.holds(EqI(o, IntC(0))), "dict:files", k.pos(), "every file of the list is there, and no other", l.String(), cur.String(), factsText(s))
			return res, true
		}
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			if o.st.isNil(o.vals[1]) {
				c.check(o.st.ghost["made"] != nil && o.st.nonNil(o.vals[0]), "dict:result", where, "the metadata that was made is the result", o.vals[0].String())
			}
		}
		c.check(n > 0, "dict:any", where, "some dictionary is accepted")
		c.done(e, "dict")
	})
}

func isStringSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isString(s.Elem())
}

// joined stands for the first n parts of a path, each with a slash.
func joined(base, n *Term) *Term { return App("joined", types.Typ[types.String], base, I(n)) }

// joinedCut is the same without the last slash.
func joinedCut(base, n *Term) *Term { return App("joinedcut", types.Typ[types.String], base, I(n)) }

func isJoined(st *State, w, base, n *Term, how string) bool {
	w = st.f.find(w)
	if st.f.find(App(how, types.Typ[types.String], base, I(n))) == w {
		return true
	}
	for t, v := range st.f.truth {
		if v && t.k == KEqT {
			for _, x := range t.args {
				if x.k == KApp && x.s == how && x.args[0] == base && st.f.find(x) == w && st.holds(EqI(I(x.args[1]), n)) {
					return true
				}
			}
		}
	}
	return false
}

// cutJoin: the parts joined, without the last slash.
func cutJoin(st *State, x, base, n *Term) bool {
	if len(x.args) != 1 || x.args[0].k != SSub {
		return false
	}
	g := x.args[0]
	if !isJoined(st, g.args[0], base, n, "joined") {
		return false
	}
	return st.holds(EqI(g.args[1], IntC(0))) && st.holds(EqI(g.args[2], AddC(I(App("len", lenType, g.args[0])), -1)))
}

func init() {
	register(&Prop{
		id: "C21", title: "A torrent is what its file says",
		rule:   "Loading is interpreted for an arbitrary file: the infohash, the announce URL and every field of the metadata are the ones that the decoded dictionary determines, for any number of files and parts of a path.",
		assume: []string{"SHA-1 is an uninterpreted function", "64-bit sums of lengths do not overflow where the metadata is made"},
		min:    map[string]int{"load": 6, "dict": 6, "meta": 8},
		run:    runC21,
	})
}

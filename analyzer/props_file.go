package main

// Pieces and files: what is written where, what counts as a valid piece, and
// how files are made.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	fnLookup    = "(*gotor/torrent/info.TorInfo).PieceLookup"
	fnReadPiece = "(*gotor/torrent/fileio.FileIO).ReadPiece"
	fnWriteP    = "(*gotor/torrent/fileio.FileIO).WritePiece"
	fnLocalPath = "(*gotor/torrent/filesd.EntryBase).LocalPath"
	tPLoc       = "gotor/torrent/info.PieceLocation"
)

func eqSeqs(st *State, a, b *Term) bool {
	a, b = asSeq(a), asSeq(b)
	return st.f.seqEqual(a, b) || st.holds(EqT(a, b)) || st.holds(EqT(b, a))
}

func sha1Of(content *Term) *Term {
	return Seq(mkSub(App("sha1", types.Typ[types.String], content), IntC(0), IntC(20)))
}

// hashOf is the hash that the torrent gives for a piece.
func (c *Ctx) hashOf(e *Exec, st *State, ti, idx *Term) *Term {
	h := st.strSeq(e.getter(st, ti, "(*"+tTI+").Hashes"))
	s := seqSlice(st.f, h, MulC(idx, 20), IntC(20))
	if s == nil {
		s = Seq(mkSub(h, MulC(idx, 20), IntC(20)))
	}
	return s
}

// fileKey: the key of the map that a file came from.
func fileKey(t *Term) *Term {
	if t.k == KApp && t.s == "mapval" {
		return t.args[1]
	}
	for _, a := range t.args {
		if k := fileKey(a); k != nil {
			return k
		}
	}
	return nil
}

// elemIndex: the index of an element of the base that a term mentions.
func elemIndex(t, base *Term) *Term {
	if t.k == KElem && t.args[0] == base {
		return t.args[1]
	}
	for _, a := range t.args {
		if i := elemIndex(a, base); i != nil {
			return i
		}
	}
	return nil
}

// pieceLocs stands for the locations that PieceLookup gives.
func (c *Ctx) pieceLocs(e *Exec, idx *Term, key string) (base, n *Term) {
	base = Sym("own:locs", nil)
	n = I(Sym("nlocs", lenType))
	e.hooks.call[fnLookup] = func(k *Call) ([]Res, bool) {
		if e.dry == 0 {
			c.check(k.st.holds(EqI(k.args[1], idx)), key+":lookup", k.pos(), "the locations used are those of the piece asked for", k.args[1].String())
		}
		good, bad := k.st.clone(), k.st.clone()
		good.learn(Ge0(n))
		good.ghost["looked"] = TTrue
		good.learn(Ge0(idx))
		good.learn(Lt(idx, I(e.getter(good, k.args[0], "(*"+tTI+").NumPieces"))))
		return []Res{{st: good, vals: []*Term{mkSlice(base, IntC(0), n, n), TNil}}, {st: bad, vals: []*Term{TNil, k.newErr("lookup")}}}, true
	}
	return
}

// location reads the fields of location i.
func (c *Ctx) location(st *State, base, i *Term) (path, seek, amnt *Term) {
	lt := c.typ(tPLoc)
	el := mk(KElem, "", 0, nil, nil, base, I(i))
	addrTyp[el] = lt
	v := st.load(el, lt)
	s := structOf(lt)
	for j := 0; j < s.NumFields(); j++ {
		ft := s.Field(j).Type()
		x := structField(v, j, ft)
		if s.Field(j).Name() == "Entry" {
			ep := c.typ("gotor/torrent/filesd.Entry")
			a, _ := fieldBy(ep, x, "EntryBase", func(t types.Type) bool { return structOf(t) != nil })
			path = App("path", types.Typ[types.String], a)
			continue
		}
		if is := structOf(ft); is != nil {
			for m := 0; m < is.NumFields(); m++ {
				w := I(structField(x, m, is.Field(m).Type()))
				switch is.Field(m).Name() {
				case "SeekAmnt":
					seek = w
				case "ReadAmnt":
					amnt = w
				}
			}
		}
	}
	return
}

// lookups: PieceLookup gives the locations of the piece, for every piece.
func (c *Ctx) lookups() {
	c.guard("lookup", "looking up a piece", func() {
		f := c.anchor(fnLookup)
		e := c.exec(fnLookup)
		e.invs = c.allInvs()
		e.paths, e.sc = true, 64
		c.noPanics(e, "lookup-panic")
		st := c.state()
		as := c.args(st, f)
		idx := I(as[1])
		n := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			where := c.pg.pos(f.Pos())
			np := I(e.getter(o.st, as[0], "(*"+tTI+").NumPieces"))
			in := o.st.clone()
			inside := in.learn(Ge0(idx)) && in.learn(Lt(idx, np))
			if !o.st.isNil(o.vals[1]) {
				c.check(!inside, "lookup:accepts", where, "every piece of the torrent has its locations", factsText(o.st))
				continue
			}
			n++
			c.check(o.st.holds(Ge0(idx)) && o.st.holds(Lt(idx, np)), "lookup:range", where, "only the pieces of the torrent have locations", factsText(o.st))
			a, t := fieldBy(c.typ(tTI), as[0], "pm", func(t types.Type) bool {
				s, ok := t.Underlying().(*types.Slice)
				if !ok {
					return false
				}
				_, ok = s.Elem().Underlying().(*types.Slice)
				return ok
			})
			base, off, _, _ := parts(o.st.load(a, t))
			et := t.Underlying().(*types.Slice).Elem()
			el := mk(KElem, "", 0, nil, nil, base, Add(off, idx))
			addrTyp[el] = et
			want := o.st.load(el, et)
			c.check(o.st.f.find(o.vals[0]) == o.st.f.find(want), "lookup:locations", where, "a piece is looked up at its own place in the map", o.vals[0].String(), want.String())
		}
		if n == 0 {
			c.fail("lookup:accepts", c.pg.pos(f.Pos()), "every piece of the torrent has its locations", "never succeeds")
		}
		c.done(e, "lookup")
	})
}

// pieceIO interprets the transfer of one piece between memory and the files.
func (c *Ctx) pieceIO(name string, write bool, visited map[ssaInstr]bool) {
	key, verb := "read", "read"
	if write {
		key, verb = "write", "written"
	}
	c.guard(key, "a piece is "+verb, func() {
		f := c.anchor(name)
		where := c.pg.pos(f.Pos())
		e := c.exec(name)
		e.invs = c.allInvs()
		e.paths, e.sc, e.ideal = true, 64, true
		st := c.state()
		as := c.args(st, f)
		idx := I(as[1])
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		// the memory belongs to the caller for the time of the call
		data := Sym("own:data", nil)
		dlen := I(Sym("len:data", lenType))
		st.learn(Ge0(dlen))
		as[2] = mkSlice(data, IntC(0), dlen, dlen)
		base, n := c.pieceLocs(e, idx, key)
		h[fnLocalPath] = func(k *Call) ([]Res, bool) {
			return k.ret(App("path", types.Typ[types.String], k.st.f.find(k.args[0]))), true
		}
		tiA, tiT := fieldBy(c.typ(tFIO), as[0], "torInfo", hasType("*"+tTI))
		hashed := func(st *State) bool {
			ti := st.load(tiA, tiT)
			return eqSeqs(st, sha1Of(st.sliceContent(as[2])), c.hashOf(e, st, ti, idx))
		}
		done, sum := pg("done", lenType), pg("sum", types.Typ[types.Int64])
		st.mem[done], st.mem[sum] = IntC(0), IntC(0)
		sink := func(k *Call) ([]Res, bool) {
			if visited != nil {
				visited[k.instr] = true
			}
			cur, at := I(k.st.load(done, lenType)), I(k.st.load(sum, types.Typ[types.Int64]))
			for _, x := range k.args {
				// the same place, however it is written
				if i := elemIndex(x, base); i != nil && k.st.holds(EqI(i, cur)) {
					cur = I(i)
					break
				}
			}
			path, seek, amnt := c.location(k.st, base, cur)
			if e.dry == 0 {
				where, stack := k.pos(), "path "+k.fr.stack()
				if write {
					c.check(hashed(k.st), key+":hash", where, "nothing is written to a file before the data is known to have the hash that the torrent gives for the piece", stack, factsText(k.st))
				}
				got := fileKey(k.args[0])
				c.check(got != nil && k.st.f.find(got) == k.st.f.find(path), key+":file", where, "the part of a piece is "+verb+" in the file of its location", k.args[0].String(), path.String(), stack)
				b, o, l, _ := parts(k.st.f.find(k.args[1]))
				c.check(b == data && k.st.holds(EqI(o, at)), key+":from", where, "the parts of a piece follow each other in memory without gap or overlap", o.String(), at.String(), stack, factsText(k.st))
				c.check(k.st.holds(EqI(l, amnt)), key+":amount", where, "as many bytes are "+verb+" as the location says", l.String(), amnt.String(), stack)
				c.check(k.st.holds(EqI(k.args[2], seek)), key+":offset", where, "the bytes are "+verb+" at the offset that the location says", k.args[2].String(), seek.String(), stack)
				c.check(k.st.holds(Lt(cur, n)), key+":last", where, "no more than the locations of the piece are "+verb, stack)
			}
			cur = I(k.st.load(done, lenType))
			good, bad := k.st.clone(), k.st.clone()
			good.store(done, AddC(cur, 1), lenType)
			_, _, l, _ := parts(k.st.f.find(k.args[1]))
			good.store(sum, Add(at, l), types.Typ[types.Int64])
			nn := I(Sym("n:"+k.site, lenType))
			bad.learn(Ge0(nn))
			bad.learn(Le(nn, l))
			if !write {
				b, o, _, _ := parts(k.st.f.find(k.args[1]))
				good.writeBytes(b, o, Seq(mkSub(Sym("file:"+k.site, nil), IntC(0), l)))
				bad.writeBytes(b, o, Seq(mkSub(Sym("filebad:"+k.site, nil), IntC(0), l)))
			}
			bad.ghost["failed"] = TTrue
			return []Res{{st: good, vals: []*Term{l, TNil}}, {st: bad, vals: []*Term{nn, k.newErr("file")}}}, true
		}
		other := func(k *Call) ([]Res, bool) {
			if e.dry == 0 {
				c.fail(key+":other", k.pos(), "a piece is only moved between memory and files at the offsets of its locations", k.name, "path "+k.fr.stack())
			}
			return unknownCall(k), true
		}
		for _, s := range []string{"Write", "WriteAt", "WriteString", "Read", "ReadAt", "Truncate", "Seek", "ReadFrom", "WriteTo"} {
			h["(*os.File)."+s] = other
		}
		if write {
			h["(*os.File).WriteAt"] = sink
		} else {
			h["(*os.File).ReadAt"] = sink
		}
		for _, s := range []string{"os.Create", "os.OpenFile", "os.WriteFile", "os.Remove", "os.RemoveAll", "os.Rename", "os.Truncate"} {
			h[s] = other
		}
		good := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			if !o.st.isNil(o.vals[1]) {
				if o.st.ghost["failed"] == nil && o.st.ghost["looked"] != nil && !hasMissing(o.st) {
					refused := false
					for _, last := range []bool{false, true} {
						s := o.st.clone()
						ti := s.load(tiA, tiT)
						end := AddC(I(e.getter(s, ti, "(*"+tTI+").NumPieces")), -1)
						var ok bool
						if last {
							ok = s.learn(EqI(idx, end)) && s.learn(EqI(dlen, e.getter(s, ti, "(*"+tTI+").LastPieceLen")))
						} else {
							ok = s.learn(Lt(idx, end)) && s.learn(EqI(dlen, e.getter(s, ti, "(*"+tTI+").PieceLen")))
						}
						if ok && write {
							ok = s.learn(EqT(sha1Of(s.sliceContent(as[2])), c.hashOf(e, s, ti, idx)))
						}
						refused = refused || ok
					}
					c.check(!refused, key+":accepts", where, "a piece of the torrent is "+verb+" when the files can be", factsText(o.st))
				}
				continue
			}
			good++
			c.check(o.st.ghost["failed"] == nil, key+":error", where, "a piece that could not be "+verb+" gives an error", factsText(o.st))
			c.check(o.st.holds(EqI(o.st.load(done, lenType), n)), key+":whole", where, "when there is no error, all the parts of the piece are "+verb, I(o.st.load(done, lenType)).String(), factsText(o.st))
			c.check(o.st.holds(EqI(o.vals[0], o.st.load(sum, types.Typ[types.Int64]))), key+":count", where, "the number of bytes given back is how many were "+verb, o.vals[0].String())
			if write {
				c.check(hashed(o.st), key+":refused", where, "data without the hash that the torrent gives for the piece is refused with an error", factsText(o.st))
			}
		}
		c.check(good > 0, key+":accepts", where, "a piece of the torrent is "+verb+" when the files can be", "it never is")
		c.done(e, key)
	})
}

// hasMissing: a file of the piece is not among the open ones.
func hasMissing(st *State) bool {
	for _, l := range st.f.log {
		if l.k == KNot && l.args[0].k == KApp && l.args[0].s == "has" {
			return true
		}
		if l.k != KNot && len(l.args) == 2 && (l.args[0].k == KNil && isMapVal(l.args[1]) || l.args[1].k == KNil && isMapVal(l.args[0])) {
			return true
		}
	}
	return false
}

func isMapVal(t *Term) bool { return t.k == KApp && t.s == "mapval" }

func runC09(c *Ctx) {
	c.torInfoInvariant()
	c.lookups()
	visited := map[ssaInstr]bool{}
	c.pieceIO(fnWriteP, true, visited)
	c.pieceIO(fnReadPiece, false, visited)
	c.fileWriters(visited)
}

// fileChanges: calls that change the content of a file.
func fileChanges(ci ssa.CallInstruction) bool {
	switch callName(ci) {
	case "(*os.File).Write", "(*os.File).WriteAt", "(*os.File).WriteString", "(*os.File).Truncate", "(*os.File).ReadFrom",
		"os.Create", "os.WriteFile", "os.Truncate", "io/ioutil.WriteFile", "os.CreateTemp", "os.Remove", "os.RemoveAll",
		"syscall.Write", "syscall.Pwrite", "syscall.Truncate", "syscall.Ftruncate", "syscall.Unlink":
		return true
	case "os.OpenFile":
		if a := ci.Common().Args; len(a) == 3 {
			k, ok := a[1].(*ssa.Const)
			return !ok || k.Value == nil || k.Int64()&0x200 != 0 // O_TRUNC
		}
	}
	return false
}

// fileWriters: files change nowhere but where a checked piece is written and
// where a file is brought to its size.
func (c *Ctx) fileWriters(visited map[ssaInstr]bool) {
	c.guard("writers", "what changes files", func() {
		sizing := c.pg.reachable(nil, c.anchor("gotor/utils.OCAT"))
		wp := c.anchor(fnWriteP)
		inside := c.pg.reachable(nil, wp)
		cut := func(f *ssa.Function) bool { return f == wp || sizing[f] }
		for _, f := range c.pg.allFns {
			if c.outside(f) {
				continue
			}
			if !inside[f] && !sizing[f] {
				for g := range c.pg.reachable(cut, f) {
					if g == f || !inside[g] {
						continue
					}
					_, cs := c.pg.callees(g)
					for _, ci := range cs {
						if fileChanges(ci) {
							c.fail("writers:"+f.RelString(nil)+":unchecked", c.pg.pos(f.Pos()), "files are only changed where a piece that was checked is written, or where they are brought to their size", f.RelString(nil)+" reaches "+callName(ci)+" in "+g.RelString(nil)+" without checking the piece")
						}
					}
				}
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					name := f.RelString(nil)
					if mi, ok := in.(*ssa.MakeInterface); ok && mi.X.Type().String() == "*os.File" {
						it := mi.Type().Underlying().(*types.Interface)
						w := false
						for i := 0; i < it.NumMethods(); i++ {
							w = w || it.Method(i).Name() == "Write"
						}
						if w && !stdStream(mi.X) {
							c.fail("writers:"+name+":given", c.pg.pos(in.Pos()), "a file is not handed to code that may write to it", mi.String())
						}
					}
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if fileChanges(ci) {
						if a := ci.Common().Args; len(a) > 0 && stdStream(a[0]) {
							continue
						}
						c.check(visited[in] || sizing[f], "writers:"+name+":"+callName(ci), c.pg.pos(in.Pos()), "files are only changed where a piece that was checked is written, or where they are brought to their size", name)
					}
					if g := ci.Common().StaticCallee(); g != nil && sizing[g] && !sizing[f] && g.RelString(nil) != "gotor/utils.OCAT" && c.changesFiles(g) {
						c.fail("writers:"+name+":"+callName(ci), c.pg.pos(in.Pos()), "what makes or fills a file is only used to bring it to its size", name)
					}
				}
			}
		}
	})
}

// outside: code that is no part of the client.
func (c *Ctx) outside(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg == nil || f.Pkg.Pkg.Path() == "gotor/utils/test"
}

func (c *Ctx) changesFiles(f *ssa.Function) bool {
	for g := range c.pg.reachable(nil, f) {
		_, cs := c.pg.callees(g)
		for _, ci := range cs {
			if fileChanges(ci) {
				return true
			}
		}
	}
	return false
}

func stdStream(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && g.Pkg.Pkg.Path() == "os"
}

// ------------------------------------------------------- what we have (C10)

func runC10(c *Ctx) {
	c.torInfoInvariant()
	c.swarmInvariant()
	c.lookups()
	c.pieceIO(fnReadPiece, false, nil)
	visited := map[ssaInstr]bool{}
	c.validation(visited)
	c.startup(false)
	c.marks(visited)
}

// validation: every piece is marked by the hash of what the files hold.
func (c *Ctx) validation(visited map[ssaInstr]bool) {
	c.guard("validate", "the check of the files", func() {
		f := c.anchor("(*" + tSwarm + ").Validate")
		where := c.pg.pos(f.Pos())
		e := c.exec(f.RelString(nil))
		e.invs = c.allInvs()
		e.paths, e.sc, e.ideal = true, 64, true
		st := c.state()
		as := c.args(st, f)
		sw := as[0]
		i64 := types.Typ[types.Int64]
		next, got, owed := pg("next", i64), pg("got", i64), pg("owed", types.Typ[types.Bool])
		st.mem[next], st.mem[got], st.mem[owed] = IntC(0), IntC(0), TFalse
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		ti := func(st *State) *Term {
			return e.getter(st, st.field(c.typ(tSwarm), sw, "Tor"), "(*gotor/torrent.Torrent).Info")
		}
		disk := func(i *Term) *Term { return App("disk", nil, I(i)) }
		h[fnReadPiece] = func(k *Call) ([]Res, bool) {
			cur := I(k.st.load(next, i64))
			if e.dry == 0 {
				c.check(k.st.holds(EqI(k.args[1], cur)), "validate:order", k.pos(), "every piece is read, one after the other", k.args[1].String(), cur.String())
				c.check(k.st.f.find(k.args[0]) == k.st.f.find(k.st.field(c.typ(tSwarm), sw, "Fileio")), "validate:files", k.pos(), "the pieces are read from the files of the torrent")
				c.check(k.st.never(k.st.load(owed, types.Typ[types.Bool])), "validate:each", k.pos(), "a piece is marked before the next one is read")
			}
			good, bad := k.st.clone(), k.st.clone()
			base, off, ln, _ := parts(k.st.f.find(k.args[2]))
			n := I(Sym("n:"+k.site, i64))
			good.learn(Ge0(n))
			good.learn(Le(n, ln))
			good.writeBytes(base, off, Seq(mkSub(disk(k.args[1]), IntC(0), n)))
			good.store(got, n, i64)
			good.store(next, AddC(cur, 1), i64)
			good.store(owed, TTrue, types.Typ[types.Bool])
			bad.writeBytes(base, off, Seq(mkSub(Sym("badread:"+k.site, nil), IntC(0), ln)))
			bad.ghost["failed"] = TTrue
			return []Res{{st: good, vals: []*Term{n, TNil}}, {st: bad, vals: []*Term{IntC(0), k.newErr("read")}}}, true
		}
		mark := func(k *Call, j, val *Term) {
			visited[k.instr] = true
			cur := AddC(I(k.st.load(next, i64)), -1)
			if e.dry == 0 {
				c.check(k.st.holds(EqI(j, cur)), "validate:piece", k.pos(), "the piece that is marked is the one that was read last", I(j).String(), cur.String())
				bf := k.st.field(c.typ(tSwarm), sw, "Bf")
				c.check(k.st.f.find(k.args[0]) == k.st.f.find(bf), "validate:bitfield", k.pos(), "the pieces are marked in the bitfield of the swarm", k.args[0].String())
				eq := func(st *State) bool {
					// the same piece, however its index is written
					for _, x := range []*Term{I(j), cur} {
						if eqSeqs(st, sha1Of(Seq(mkSub(disk(x), IntC(0), I(st.load(got, i64))))), c.hashOf(e, st, ti(st), x)) {
							return true
						}
					}
					return false
				}
				s := k.st.clone()
				if s.learn(val) {
					c.check(eq(s), "validate:had", k.pos(), "a piece is only marked as had when the bytes that the files hold for it have the hash that the torrent gives", factsText(s))
				}
				s = k.st.clone()
				if s.learn(Not(val)) {
					ok := false
					for _, x := range []*Term{I(j), cur} {
						a, b := sha1Of(Seq(mkSub(disk(x), IntC(0), I(s.load(got, i64))))), c.hashOf(e, s, ti(s), x)
						ok = ok || s.never(EqT(a, b)) || s.never(EqT(b, a))
					}
					c.check(ok, "validate:missing", k.pos(), "a piece is only marked as missing when the bytes that the files hold for it do not have the hash that the torrent gives", factsText(s))
				}
			}
			k.st.store(owed, TFalse, types.Typ[types.Bool])
		}
		h["(*gotor/bf.Bitfield).Set"] = func(k *Call) ([]Res, bool) {
			mark(k, k.args[1], k.args[2])
			return k.ret(), true
		}
		for _, n := range []string{"Fill", "SetNbits"} {
			h["(*gotor/bf.Bitfield)."+n] = func(k *Call) ([]Res, bool) {
				if e.dry == 0 {
					c.fail("validate:piece", k.pos(), "the piece that is marked is the one that was read last", k.name)
				}
				return k.ret(), true
			}
		}
		n := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			if !o.st.isNil(o.vals[0]) {
				c.check(o.st.ghost["failed"] != nil, "validate:accepts", where, "checking the files only fails when they cannot be read", factsText(o.st))
				continue
			}
			n++
			c.check(o.st.ghost["failed"] == nil, "validate:error", where, "files that cannot be read give an error", factsText(o.st))
			np := I(e.getter(o.st, ti(o.st), "(*"+tTI+").NumPieces"))
			c.check(o.st.holds(EqI(o.st.load(next, i64), np)) && o.st.never(o.st.load(owed, types.Typ[types.Bool])), "validate:all", where, "without an error, every piece was read and marked", I(o.st.load(next, i64)).String(), factsText(o.st))
		}
		c.check(n > 0, "validate:accepts", where, "checking the files only fails when they cannot be read", "it never succeeds")
		c.done(e, "validate")
	})
}

// startup: the files are brought to their sizes and checked before anything is
// announced, and the bitfield that was checked is the one that is used.
func (c *Ctx) startup(announce bool) {
	c.guard("startup", "making a swarm", func() {
		f := c.anchor("gotor/swarm.NewSwarm")
		where := c.pg.pos(f.Pos())
		e := c.exec(f.RelString(nil))
		e.invs = c.allInvs()
		delete(e.invs, tSwarm)
		delete(e.invs, tPH)
		delete(e.invs, tPPT)
		e.paths, e.sc, e.ideal = true, 64, true
		st := c.state()
		as := c.args(st, f)
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		load := c.freshOrErr(e, tTor, nil)
		h["gotor/torrent.FromTorrentFile"] = func(k *Call) ([]Res, bool) {
			rs, _ := load(k)
			rs[0].st.ghost["tor"] = rs[0].vals[0]
			rs[1].st.ghost["failed"] = TTrue
			return rs, true
		}
		info := func(st *State) *Term {
			if st.ghost["tor"] == nil {
				return TNil
			}
			return e.getter(st, st.ghost["tor"], "(*gotor/torrent.Torrent).Info")
		}
		step := func(k *Call, name string) ([]Res, bool) {
			good, bad := k.st.clone(), k.st.clone()
			good.ghost[name] = TTrue
			bad.ghost["failed"] = TTrue
			return []Res{{st: good, vals: []*Term{TNil}}, {st: bad, vals: []*Term{k.newErr(name)}}}, true
		}
		h["(*"+tFIO+").OCATAll"] = func(k *Call) ([]Res, bool) {
			if e.dry == 0 {
				t := info(k.st)
				want := e.getter(k.st, t, "(*"+tTI+").Files")
				c.check(k.st.f.find(k.args[1]) == k.st.f.find(want), "startup:sizes", k.pos(), "all the files of the torrent are brought to their sizes", k.args[1].String())
			}
			return step(k, "sized")
		}
		bfOf := func(st *State, sw *Term) *Term { return st.f.find(st.field(c.typ(tSwarm), sw, "Bf")) }
		h["(*"+tSwarm+").Validate"] = func(k *Call) ([]Res, bool) {
			if e.dry == 0 {
				c.check(k.st.ghost["sized"] != nil, "startup:order", k.pos(), "the files have their sizes when they are checked", "path "+k.fr.stack())
				bf := bfOf(k.st, k.args[0])
				np := I(e.getter(k.st, info(k.st), "(*"+tTI+").NumPieces"))
				nb := c.bfNum(e, k.st, bf, "Nbits")
				c.check(k.st.holds(EqI(nb, np)), "startup:bitfield", k.pos(), "the bitfield that the check fills in has a bit for each piece", nb.String(), np.String())
			}
			bf := bfOf(k.st, k.args[0])
			rs, _ := step(k, "checked")
			rs[0].st.ghost["bf"] = bf
			return rs, true
		}
		sizes := map[string]bool{}
		for _, n := range []string{"Set", "Fill", "SetNbits"} {
			n := n
			h["(*gotor/bf.Bitfield)."+n] = func(k *Call) ([]Res, bool) {
				if e.dry == 0 && !sizes[n] {
					c.fail("startup:marks", k.pos(), "what the check found is not changed", k.name)
				}
				return unknownCall(k), true
			}
		}
		// which pieces the check finds is not known
		nset := Sym("pieces found", lenType)
		for _, n := range []string{"Nset", "Complete", "Data", "Data5"} {
			n, name := n, "(*gotor/bf.Bitfield)."+n
			h[name] = func(k *Call) ([]Res, bool) {
				if k.st.ghost["checked"] == nil || k.st.f.find(k.args[0]) != k.st.f.find(k.st.ghost["bf"]) {
					return nil, false
				}
				np := I(e.getter(k.st, info(k.st), "(*"+tTI+").NumPieces"))
				k.st.learn(Le(IntC(0), I(nset)))
				k.st.learn(Le(I(nset), np))
				switch n {
				case "Nset":
					return k.ret(I(nset)), true
				case "Complete":
					return k.ret(EqI(I(nset), np)), true
				}
				return k.ret(k.fresh("bits", k.sig.Results().At(0).Type())), true
			}
		}
		optPort := TNil
		if announce {
			optPort = I(e.getter(st, as[0], "(*gotor/utils.Opts).Port"))
		}
		// the bytes of the pieces that are missing, as they are counted
		seen, missing := pg("seen", lenType), pg("missing", lenType)
		st.mem[seen], st.mem[missing] = IntC(0), IntC(0)
		if announce {
			h["(*gotor/bf.Bitfield).Get"] = func(k *Call) ([]Res, bool) {
				if k.st.ghost["checked"] == nil || k.st.f.find(k.args[0]) != k.st.f.find(k.st.ghost["bf"]) {
					return unknownCall(k), true
				}
				t := info(k.st)
				np := I(e.getter(k.st, t, "(*"+tTI+").NumPieces"))
				cur := I(k.st.load(seen, lenType))
				if !k.st.holds(EqI(cur, I(k.args[1]))) || !k.st.holds(Lt(cur, np)) {
					return unknownCall(k), true // not counting
				}
				k.st.store(seen, AddC(cur, 1), lenType)
				had, gone := k.st.clone(), k.st.clone()
				rs := []Res{{st: had, vals: []*Term{TTrue}}}
				acc := I(k.st.load(missing, lenType))
				last, full := gone.clone(), gone.clone()
				if last.learn(EqI(cur, AddC(np, -1))) {
					ll := I(e.getter(last, t, "(*"+tTI+").LastPieceLen"))
					last.learn(Ge0(ll))
					last.store(missing, Add(acc, ll), lenType)
					rs = append(rs, Res{st: last, vals: []*Term{TFalse}})
				}
				if full.learn(Lt(cur, AddC(np, -1))) {
					full.store(missing, Add(acc, I(e.getter(full, t, "(*"+tTI+").PieceLen"))), lenType)
					rs = append(rs, Res{st: full, vals: []*Term{TFalse}})
				}
				return rs, true
			}
		}
		told := func(k *Call) {
			var stats, port, id *Term
			for i := 0; i < k.sig.Params().Len(); i++ {
				switch k.sig.Params().At(i).Type().String() {
				case "*gotor/tracker.Stats":
					stats = k.args[i]
				case "uint16":
					port = k.args[i]
				case "string":
					id = k.args[i]
				}
			}
			if stats == nil || port == nil || id == nil {
				panic(undecided{"the arguments of " + k.name + " are not known"})
			}
			sv := k.st.load(stats, c.typ("gotor/tracker.Stats"))
			num := func(n string) *Term { return I(e.getter(k.st, sv, "(gotor/tracker.Stats)."+n)) }
			np := I(e.getter(k.st, info(k.st), "(*"+tTI+").NumPieces"))
			c.check(k.st.holds(EqI(I(k.st.load(seen, lenType)), np)), "startup:left", k.pos(), "left is the number of bytes of the pieces that are missing", "not all pieces are looked at", factsText(k.st))
			sum, left := I(k.st.load(missing, lenType)), num("Left")
			if a := left.atom(); a != nil && a.k == KApp && a.s == "wrap:uint64" && len(a.args) == 1 {
				left = I(a.args[0])
			}
			c.check(k.st.holds(EqI(left, sum)), "startup:left", k.pos(), "left is the number of bytes of the pieces that are missing", left.String(), sum.String(), factsText(k.st))
			c.check(k.st.holds(EqI(num("Dnloaded"), IntC(0))) && k.st.holds(EqI(num("Uploaded"), IntC(0))), "startup:none", k.pos(), "nothing was transferred when the first announcement is made")
			k.st.ghost["port"], k.st.ghost["id"] = k.st.f.find(port), k.st.strSeq(id)
		}
		get := c.freshOrErr(e, "gotor/tracker.Response", nil)
		h["gotor/tracker.Get"] = func(k *Call) ([]Res, bool) {
			if e.dry == 0 {
				c.check(k.st.ghost["checked"] != nil, "startup:announce", k.pos(), "nothing is announced before the files were checked", "path "+k.fr.stack())
				c.check(k.st.f.find(k.args[0]) == k.st.ghost["tor"], "startup:torrent", k.pos(), "the torrent that was loaded is the one that is announced")
				if announce {
					told(k)
				}
			}
			rs, _ := get(k)
			rs[1].st.ghost["failed"] = TTrue
			return rs, true
		}
		n := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			if !o.st.isNil(o.vals[1]) {
				c.check(o.st.ghost["failed"] != nil, "startup:accepts", where, "starting only fails when one of its steps does", factsText(o.st))
				continue
			}
			n++
			sw := o.vals[0]
			c.check(o.st.ghost["failed"] == nil, "startup:error", where, "a step that fails makes starting fail", factsText(o.st))
			c.check(o.st.ghost["checked"] != nil, "startup:checked", where, "the files were checked before a swarm is started")
			if announce {
				port := o.st.f.find(o.st.field(c.typ(tSwarm), sw, "Port"))
				id := o.st.field(c.typ(tSwarm), sw, "Id")
				c.check(o.st.ghost["port"] != nil && o.st.holds(EqI(I(port), I(o.st.ghost["port"]))), "startup:port", where, "the port that is announced is the one of the swarm", port.String())
				c.check(o.st.holds(EqI(I(port), optPort)), "startup:port", where, "the port of the swarm is the one of the options", port.String())
				c.check(o.st.ghost["id"] != nil && eqSeqs(o.st, o.st.strSeq(id), o.st.ghost["id"]), "startup:id", where, "the id that is announced is the one of the swarm", id.String())
			}
			if o.st.ghost["checked"] != nil {
				c.check(bfOf(o.st, sw) == o.st.f.find(o.st.ghost["bf"]), "startup:same", where, "the bitfield that was filled in is the one that the swarm uses")
				ppt := o.st.field(c.typ(tSwarm), sw, "PPT")
				a, t := fieldBy(c.typ(tPPT), ppt, "bf", hasType("*gotor/bf.Bitfield"))
				c.check(o.st.f.find(o.st.load(a, t)) == o.st.f.find(o.st.ghost["bf"]), "startup:tracker", where, "the piece tracker knows what we have by the same bitfield", o.st.load(a, t).String())
			}
		}
		c.check(n > 0, "startup:accepts", where, "starting only fails when one of its steps does", "it never succeeds")
		c.done(e, "startup")
	})
}

// marks: nothing else says that we have a piece.
func (c *Ctx) marks(visited map[ssaInstr]bool) {
	c.guard("marks", "what marks pieces", func() {
		for _, f := range c.pg.allFns {
			if c.outside(f) {
				continue
			}
			top := f
			for top.Parent() != nil {
				top = top.Parent()
			}
			if top.Pkg.Pkg.Path() == "gotor/bf" {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					switch callName(ci) {
					case "(*gotor/bf.Bitfield).Set", "(*gotor/bf.Bitfield).Fill":
						c.check(visited[in], "marks:"+f.RelString(nil), c.pg.pos(in.Pos()), "a piece is only marked as had where its bytes were checked", f.RelString(nil))
					}
				}
			}
		}
	})
}

// ------------------------------------------------------- sizing files (C12)

func runC12(c *Ctx) {
	c.sizing()
	c.sizeAll()
}

func (c *Ctx) sizing() {
	c.guard("size", "a file is brought to its size", func() {
		f := c.anchor("gotor/utils.OCAT")
		where := c.pg.pos(f.Pos())
		e := c.exec(f.RelString(nil))
		e.paths, e.sc = true, 64
		c.noPanics(e, "size-panic")
		st := c.state()
		as := c.args(st, f)
		path := as[0]
		length := I(as[1])
		st.learn(Ge0(length))
		st.learn(Le(length, IntC(1<<62)))
		i64 := types.Typ[types.Int64]
		size, pos := pg("size", i64), pg("pos", i64)
		s0 := I(Sym("size", i64))
		st.learn(Ge0(s0))
		st.learn(Le(s0, IntC(1<<62)))
		st.mem[size], st.mem[pos] = s0, IntC(0)
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		missing := func(k *Call, err *Term) *Term { return App("missing", types.Typ[types.Bool], k.st.f.find(err)) }
		h["os.IsNotExist"] = func(k *Call) ([]Res, bool) {
			if k.st.isNil(k.args[0]) {
				return k.ret(TFalse), true
			}
			return k.ret(missing(k, k.args[0])), true
		}
		h["errors.Is"] = func(k *Call) ([]Res, bool) {
			if k.st.isNil(k.args[0]) {
				return k.ret(TFalse), true
			}
			if n := notExistName(k.args[1]); n {
				return k.ret(missing(k, k.args[0])), true
			}
			return k.ret(k.fresh("is", types.Typ[types.Bool])), true
		}
		file := func(st *State, t *Term) bool {
			return st.ghost["file"] != nil && st.f.find(t) == st.f.find(st.ghost["file"])
		}
		open := func(k *Call, p, flags *Term) ([]Res, bool) {
			fl, ok := flags.constI64()
			if !ok {
				panic(undecided{"a file is opened with flags that are not known"})
			}
			if e.dry == 0 {
				c.check(k.st.f.find(p) == k.st.f.find(path), "size:path", k.pos(), "the file that was asked for is opened", p.String())
				if fl&0x240 != 0 { // O_CREATE, O_TRUNC
					o := k.st.ghost["openerr"]
					c.check(o != nil && k.st.holds(missing(k, o)), "size:create", k.pos(), "a file is only created or emptied when opening it said that there is none", "path "+k.fr.stack(), factsText(k.st))
				}
				c.check(fl&0x400 == 0 && fl&3 == 2, "size:mode", k.pos(), "files are opened to be read and written anywhere")
			}
			good, bad := k.st.clone(), k.st.clone()
			v := k.fresh("file", k.sig.Results().At(0).Type())
			good.learn(notNil(v))
			good.ghost["file"] = v
			if fl&0x240 != 0 {
				good.store(size, IntC(0), i64)
				good.ghost["created"] = TTrue
			}
			good.store(pos, IntC(0), i64)
			err := k.newErr("open")
			bad.ghost["openerr"] = err
			if fl&0x240 != 0 {
				bad.ghost["failed"] = TTrue
			}
			return []Res{{st: good, vals: []*Term{v, TNil}}, {st: bad, vals: []*Term{TNil, err}}}, true
		}
		h["os.OpenFile"] = func(k *Call) ([]Res, bool) { return open(k, k.args[0], k.args[1]) }
		h["os.Create"] = func(k *Call) ([]Res, bool) { return open(k, k.args[0], IntC(0x242)) }
		h["os.Open"] = func(k *Call) ([]Res, bool) { return open(k, k.args[0], IntC(0)) }
		fails := func(k *Call, vals func(st *State) []*Term, zero ...*Term) []Res {
			good, bad := k.st.clone(), k.st.clone()
			bad.ghost["failed"] = TTrue
			return []Res{{st: good, vals: append(vals(good), TNil)}, {st: bad, vals: append(zero, k.newErr("io"))}}
		}
		for _, n := range []string{"os.MkdirAll", "os.Mkdir"} {
			h[n] = func(k *Call) ([]Res, bool) {
				return fails(k, func(*State) []*Term { return nil }), true
			}
		}
		stat := func(k *Call) ([]Res, bool) {
			v := k.fresh("stat", k.sig.Results().At(0).Type())
			rs := fails(k, func(st *State) []*Term {
				st.learn(notNil(v))
				st.ghost["stat:size"] = I(st.load(size, i64))
				return []*Term{v}
			}, TNil)
			return rs, true
		}
		h["(*os.File).Stat"] = stat
		h["os.Stat"] = func(k *Call) ([]Res, bool) {
			rs, _ := stat(k)
			delete(rs[1].st.ghost, "failed")
			rs[1].st.ghost["openerr"] = rs[1].vals[1]
			return rs, true
		}
		h["(io/fs.FileInfo).Size"] = func(k *Call) ([]Res, bool) {
			if s := k.st.ghost["stat:size"]; s != nil {
				return k.ret(s), true
			}
			return unknownCall(k), true
		}
		seek := func(k *Call) ([]Res, bool) {
			w, _ := I(k.args[2]).constI64()
			p := I(k.args[1])
			switch w {
			case 1:
				p = Add(p, I(k.st.load(pos, i64)))
			case 2:
				p = Add(p, I(k.st.load(size, i64)))
			}
			return fails(k, func(st *State) []*Term {
				st.store(pos, p, i64)
				return []*Term{p}
			}, IntC(0)), true
		}
		h["(*os.File).Seek"] = seek
		grow := func(k *Call, at *Term) ([]Res, bool) {
			cur := I(k.st.load(size, i64))
			x := k.st.sliceContent(k.args[1])
			n := seqLen(x)
			if e.dry == 0 {
				c.check(file(k.st, k.args[0]), "size:path", k.pos(), "the file that was asked for is changed", k.args[0].String())
				c.check(k.st.holds(EqI(at, cur)), "size:keep", k.pos(), "what a file holds is not overwritten, zeros are only added after it", at.String(), cur.String(), "path "+k.fr.stack())
				c.check(eqSeqs(k.st, x, Seq(mkZero(n))), "size:zeros", k.pos(), "only zeros are added to a file", x.String())
				c.check(k.st.holds(Le(Add(at, n), length)), "size:limit", k.pos(), "a file never grows past its size", Add(at, n).String(), "path "+k.fr.stack(), factsText(k.st))
			}
			rs := fails(k, func(st *State) []*Term {
				st.store(size, Add(at, n), i64)
				return []*Term{n}
			}, IntC(0))
			return rs, true
		}
		h["(*os.File).Write"] = func(k *Call) ([]Res, bool) {
			at := I(k.st.load(pos, i64))
			rs, _ := grow(k, at)
			rs[0].st.store(pos, Add(at, rs[0].vals[0]), i64)
			return rs, true
		}
		h["(*os.File).WriteAt"] = func(k *Call) ([]Res, bool) { return grow(k, I(k.args[2])) }
		trunc := func(k *Call, ok bool, n *Term) ([]Res, bool) {
			if e.dry == 0 {
				c.check(ok, "size:path", k.pos(), "the file that was asked for is changed", k.args[0].String())
				c.check(k.st.holds(EqI(n, length)), "size:truncate", k.pos(), "a file is only cut to the size that it should have", I(n).String(), "path "+k.fr.stack())
			}
			return fails(k, func(st *State) []*Term {
				st.store(size, I(n), i64)
				return nil
			}), true
		}
		h["(*os.File).Truncate"] = func(k *Call) ([]Res, bool) { return trunc(k, file(k.st, k.args[0]), k.args[1]) }
		h["os.Truncate"] = func(k *Call) ([]Res, bool) {
			return trunc(k, k.st.f.find(k.args[0]) == k.st.f.find(path), k.args[1])
		}
		h["(*os.File).Close"] = func(k *Call) ([]Res, bool) {
			if file(k.st, k.args[0]) {
				k.st.ghost["closed"] = TTrue
			}
			return []Res{{st: k.st, vals: []*Term{TNil}}}, true
		}
		for _, n := range []string{"os.Remove", "os.RemoveAll", "os.Rename", "os.WriteFile"} {
			h[n] = func(k *Call) ([]Res, bool) {
				if e.dry == 0 {
					c.fail("size:other", k.pos(), "a file is only opened, created when missing, cut or grown", k.name)
				}
				return unknownCall(k), true
			}
		}
		n := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			if !o.st.isNil(o.vals[1]) {
				c.check(o.st.ghost["failed"] != nil || o.st.ghost["openerr"] != nil, "size:accepts", where, "bringing a file to its size only fails when a step on the file does", factsText(o.st))
				c.check(o.st.ghost["file"] == nil || o.st.ghost["closed"] != nil, "size:closed", where, "a file that could not be brought to its size is closed again", factsText(o.st))
				continue
			}
			n++
			c.check(o.st.ghost["failed"] == nil, "size:error", where, "a step that fails gives an error", factsText(o.st))
			c.check(file(o.st, o.vals[0]) && o.st.ghost["closed"] == nil, "size:open", where, "the file that is given back is open", o.vals[0].String())
			sz := I(o.st.load(size, i64))
			c.check(o.st.holds(EqI(sz, length)), "size:exact", where, "the file that is given back has exactly the size asked for", sz.String(), length.String(), factsText(o.st))
		}
		c.check(n > 0, "size:accepts", where, "bringing a file to its size only fails when a step on the file does", "it never succeeds")
		c.done(e, "size")
	})
}

// notExistName: the term is one of the errors that say that a file is missing.
func notExistName(t *Term) bool {
	s := t.String()
	return s == "*os.ErrNotExist" || s == "*io/fs.ErrNotExist"
}

// sizeAll: every file of the torrent is brought to its own size, and is found
// again by its path.
func (c *Ctx) sizeAll() {
	c.guard("sizes", "all the files are brought to their sizes", func() {
		f := c.anchor("(*" + tFIO + ").OCATAll")
		where := c.pg.pos(f.Pos())
		e := c.exec(f.RelString(nil))
		e.paths, e.sc, e.ideal = true, 64, true
		st := c.state()
		as := c.args(st, f)
		files := Sym("own:files", nil)
		n := I(Sym("nfiles", lenType))
		st.learn(Ge0(n))
		as[1] = mkSlice(files, IntC(0), n, n)
		et := f.Params[1].Type().Underlying().(*types.Slice).Elem()
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		done := pg("done", lenType)
		st.mem[done] = IntC(0)
		owed := pg("owed", types.Typ[types.Bool])
		st.mem[owed] = TFalse
		bt := types.Typ[types.Bool]
		entry := func(st *State, i *Term) (path, ln *Term) {
			el := mk(KElem, "", 0, nil, nil, files, I(i))
			addrTyp[el] = et
			a, at := fieldBy(et, el, "EntryBase", func(t types.Type) bool { return structOf(t) != nil })
			path = e.getter(st, a, fnLocalPath)
			_ = at
			ln = I(e.getter(st, a, "(*gotor/torrent/filesd.EntryBase).Length"))
			return
		}
		h["gotor/utils.OCAT"] = func(k *Call) ([]Res, bool) {
			cur := I(k.st.load(done, lenType))
			if e.dry == 0 {
				at := cur
				for _, x := range k.args {
					if i := elemIndex(x, files); i != nil && k.st.holds(EqI(i, cur)) {
						at = I(i)
						break
					}
				}
				p, l := entry(k.st, at)
				c.check(k.st.f.find(k.args[0]) == k.st.f.find(p), "sizes:path", k.pos(), "each file is made at its own path", k.args[0].String(), p.String())
				c.check(k.st.holds(EqI(k.args[1], l)), "sizes:length", k.pos(), "each file is made with its own length", I(k.args[1]).String(), l.String())
				c.check(k.st.never(k.st.load(owed, bt)), "sizes:kept", k.pos(), "each file is kept under its path")
			}
			good, bad := k.st.clone(), k.st.clone()
			good.store(done, AddC(cur, 1), lenType)
			good.store(owed, TTrue, bt)
			v := k.fresh("file", k.sig.Results().At(0).Type())
			good.learn(notNil(v))
			good.store(pg("path", types.Typ[types.String]), k.args[0], types.Typ[types.String])
			good.store(pg("file", k.sig.Results().At(0).Type()), v, k.sig.Results().At(0).Type())
			bad.ghost["failed"] = TTrue
			return []Res{{st: good, vals: []*Term{v, TNil}}, {st: bad, vals: []*Term{TNil, k.newErr("ocat")}}}, true
		}
		ft := c.anchor("gotor/utils.OCAT").Signature.Results().At(0).Type()
		st.mem[pg("path", types.Typ[types.String])] = Sym("nopath", types.Typ[types.String])
		st.mem[pg("file", ft)] = TNil
		e.hooks.markMap = func(fr *Frame, st *State, in ssa.Instruction, m, k, v *Term) {
			if v == nil || st.never(st.load(owed, bt)) {
				return
			}
			fp := st.load(pg("file", ft), ft)
			if e.dry == 0 {
				c.check(st.f.find(k) == st.f.find(st.load(pg("path", types.Typ[types.String]), types.Typ[types.String])), "sizes:key", c.pg.pos(in.Pos()), "a file is kept under its own path", k.String())
				a, t := fieldBy(c.typ("gotor/torrent/fileio.lockedFp"), v, "fp", hasType("*os.File"))
				c.check(st.f.find(st.load(a, t)) == st.f.find(fp), "sizes:value", c.pg.pos(in.Pos()), "the file that was opened is the one that is kept", v.String())
			}
			st.store(owed, TFalse, bt)
		}
		good := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			if !o.st.isNil(o.vals[0]) {
				c.check(o.st.ghost["failed"] != nil, "sizes:accepts", where, "making the files only fails when one of them cannot be made", factsText(o.st))
				continue
			}
			good++
			c.check(o.st.ghost["failed"] == nil, "sizes:error", where, "a file that cannot be made gives an error", factsText(o.st))
			c.check(o.st.holds(EqI(o.st.load(done, lenType), n)) && o.st.never(o.st.load(owed, bt)), "sizes:all", where, "without an error, all the files are made and kept", I(o.st.load(done, lenType)).String(), factsText(o.st))
		}
		c.check(good > 0, "sizes:accepts", where, "making the files only fails when one of them cannot be made", "it never succeeds")
		c.done(e, "sizes")
	})
}

func init() {
	register(&Prop{
		id: "C09", title: "A piece is only written when its hash is right, and exactly where it belongs",
		rule:   "WritePiece and ReadPiece are interpreted for every piece and every number of locations: at each file write the data must be known to hash to the hash of that piece; file, offset, amount and place in memory of the k-th transfer must be those of the k-th location; every failing transfer must end in an error. No other code may change the content of a file, except where a file is brought to its size.",
		assume: []string{"SHA-1 is an uninterpreted function of the bytes", "the locations that the piece map lists are taken as given", "offsets do not overflow 64 bits", "the caller does not change the data during the call"},
		min:    map[string]int{"write": 8, "read": 6, "writers": 3},
		run:    runC09,
	})
	register(&Prop{
		id: "C10", title: "The client only claims pieces whose bytes on disk have the right hash",
		rule:   "Validate is interpreted over all the pieces: each is read, and marked by exactly whether the bytes read hash to the hash of the torrent; NewSwarm runs it on a bitfield with a bit for each piece after the files have their sizes, before announcing, and uses that bitfield; no other call marks a piece.",
		assume: []string{"SHA-1 is an uninterpreted function of the bytes", "nobody else changes the files"},
		min:    map[string]int{"validate": 8, "startup": 8},
		run:    runC10,
	})
	register(&Prop{
		id: "C12", title: "Opening the files of a torrent never destroys data that belongs to it",
		rule:   "OCAT is interpreted with the size and the position of the file as symbols: creating or emptying needs a preceding report that the file is missing, cutting is only to the wanted size, only zeros are written and only after the end, and on success the size is exact; OCATAll does it for each file with its own path and length.",
		assume: []string{"file lengths are not negative (checked when the torrent is loaded)", "nobody else changes the files meanwhile"},
		min:    map[string]int{"size": 8, "sizes": 5},
		run:    runC12,
	})
}

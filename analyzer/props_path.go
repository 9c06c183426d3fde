package main

// Paths: everything a torrent makes the client write lies in the working directory.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tEntryBase = "gotor/torrent/filesd.EntryBase"
	tEntry     = "gotor/torrent/filesd.Entry"
)

// pathDom recognises strings that are safe as the names of files.
type pathDom struct {
	e  *Exec
	wd *Term
}

// wholeOf: the string that a sequence is all of.
func wholeOf(x *Term) *Term {
	if x.k == KSeq && len(x.args) == 1 && x.args[0].k == SSub && x.args[0].args[1] == IntC(0) {
		g := x.args[0]
		if g.args[2] == I(App("len", lenType, g.args[0])) {
			return g.args[0]
		}
	}
	return nil
}

// part: a string is the name of a file or directory, and of none above.
func (p *pathDom) part(st *State, x *Term) bool {
	x = asSeq(x)
	for _, bad := range []string{"", ".", ".."} {
		if !st.never(p.e.equal(st, x, mkSeqLit(bad))) {
			return false
		}
	}
	return noSlash(st, x)
}

func noSlash(st *State, x *Term) bool {
	has := func(t *Term) bool {
		if len(t.args) == 0 || t.args[0].k != KSeq && t.args[0].k != KSym && t.args[0].k != KLoad && t.args[0].k != KApp || !eqSeqs(st, asSeq(t.args[0]), x) {
			return false
		}
		if len(t.args) < 2 {
			return false
		}
		if l, ok := seqLit(asSeq(t.args[1])); t.args[1].k == KSeq || t.args[1].k == SLit {
			return ok && (strings.Contains(l, "/") && strings.HasSuffix(t.s, "Any") || l == "/")
		}
		return st.holds(EqI(I(t.args[1]), IntC('/')))
	}
	for t, v := range st.f.truth {
		if t.k != KApp {
			continue
		}
		switch t.s {
		case "strings.ContainsAny", "strings.ContainsRune", "strings.Contains":
			if !v && has(t) {
				return true
			}
		}
	}
	for _, l := range st.f.log {
		for _, t := range intAtoms(l) {
			switch t.s {
			case "strings.IndexAny", "strings.IndexByte", "strings.Index", "strings.IndexRune":
				if has(t) && st.holds(Lt(I(t), IntC(0))) {
					return true
				}
			}
		}
	}
	return false
}

// state runs over a string: 0 at the start and after a slash, 1 after a name,
// -1 when it is no path of safe names.
func (p *pathDom) state(st *State, x *Term) int {
	x = asSeq(x)
	s := 0
	if st.holds(EqI(seqLen(x), IntC(0))) {
		return 0
	}
	for i := 0; i < len(x.args); i++ {
		g := x.args[i]
		switch g.k {
		case SLit:
			for _, ch := range g.s {
				if ch != '/' || s != 1 {
					return -1
				}
				s = 0
			}
		case SSub:
			src := g.args[0]
			full := g.args[1] == IntC(0) && st.holds(EqI(g.args[2], I(App("len", lenType, src))))
			cut := g.args[1] == IntC(0) && st.holds(EqI(g.args[2], AddC(I(App("len", lenType, src)), -1)))
			switch {
			case s != 0:
				return -1
			case full && st.f.truth[App("path:0", nil, src)]:
				s = 0
			case full && (st.f.truth[App("path:1", nil, src)] || p.part(st, src)):
				s = 1
			case cut && st.f.truth[App("path:0", nil, src)]:
				s = 1
			case full && src.k == KApp && p.made(st, src):
				s = 1
			default:
				return -1
			}
		default:
			return -1
		}
	}
	return s
}

// made: a path that a function makes of safe names.
func (p *pathDom) made(st *State, t *Term) bool {
	names := func(a *Term) bool {
		b, _, l, _ := parts(st.f.find(a))
		return st.f.truth[okElems("part", b)] && st.holds(Lt(IntC(0), l))
	}
	switch {
	case t.s == "strjoin" && len(t.args) == 2:
		sep, ok := seqLit(asSeq(t.args[1]))
		return ok && sep == "/" && names(t.args[0])
	case t.s == "pathjoin":
		for _, a := range t.args {
			if a.k == KSlice {
				if !names(a) {
					return false
				}
			} else if p.state(st, a) != 1 {
				return false
			}
		}
		return len(t.args) > 0
	}
	return false
}

// inside: a path that lies in the working directory, and is not that directory.
func (p *pathDom) inside(st *State, x *Term, strict bool) bool {
	x = asSeq(st.f.find(x))
	if !strict && eqSeqs(st, x, st.strSeq(p.wd)) {
		return true
	}
	t := wholeOf(x)
	if t == nil || t.k != KApp || t.s != "pathjoin" || len(t.args) < 2 {
		return false
	}
	for _, a := range t.args[1:] {
		if a.k == KSlice || p.state(st, a) != 1 {
			return false
		}
	}
	return p.inside(st, t.args[0], false)
}

func (c *Ctx) pathRules(e *Exec, wd *Term) *pathDom {
	p := &pathDom{e: e, wd: wd}
	e.strPreds = []string{"path:0", "path:1"}
	e.strPred = func(st *State, n string, s *Term) bool {
		v := p.state(st, s)
		return v == 0 && n == "path:0" || v == 1 && n == "path:1"
	}
	eb := c.typ(tEntryBase)
	e.elemPreds = []string{"part", "safe", "inside"}
	e.elemOK = func(st *State, n string, v *Term, t types.Type) bool {
		switch n {
		case "part":
			return isString(t) && p.part(st, v)
		case "safe":
			return types.Identical(t, eb) && p.state(st, pathOf(v, eb, "torPath")) == 1
		}
		return types.Identical(t, eb) && p.inside(st, pathOf(v, eb, "localPath"), true)
	}
	e.elemLearn = func(st *State, n string, v *Term, t types.Type, at *Term) {
		var x *Term
		switch {
		case n == "part" && isString(t):
			x = v
		case n == "safe" && types.Identical(t, eb):
			x = pathOf(v, eb, "torPath")
		case n == "safe" && isString(t) && at.k == KFld:
			if a, _ := fieldCell(eb, at.args[0], "torPath"); a != at {
				return
			}
			x = v
		default:
			return
		}
		if w := wholeOf(asSeq(x)); w != nil {
			st.setTruth(App("path:1", nil, w), true)
		}
	}
	return p
}

func pathOf(v *Term, eb types.Type, name string) *Term {
	s := structOf(eb)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return structField(v, i, s.Field(i).Type())
		}
	}
	panic(undecided{"an entry has no " + name})
}

func runC11(c *Ctx) {
	c.localPaths()
	c.filesKept()
	c.whereOpened()
	c.sizeAll()
	c.sizing()
}

// filesKept: the files of a torrent are the ones that it was made from.
func (c *Ctx) filesKept() {
	c.guard("kept", "the files of a torrent", func() {
		f := c.anchor("gotor/torrent/info.NewTorInfo")
		where := c.pg.pos(f.Pos())
		e := c.exec(f.RelString(nil))
		e.paths, e.sc, e.ideal = true, 400, true
		st := c.state()
		as := c.args(st, f)
		eb, et := c.typ(tEntryBase), c.typ(tEntry)
		given := Sym("own:given", nil)
		n := I(Sym("ngiven", lenType))
		st.learn(Ge0(n))
		st.learn(Le(n, IntC(1<<36)))
		found := false
		for i, p := range f.Params {
			if s, ok := p.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), eb) {
				as[i], found = mkSlice(given, IntC(0), n, n), true
			}
		}
		if !found {
			panic(undecided{"the files of a torrent are not given as a list"})
		}
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		h["gotor/torrent/info.MakePieceMap"] = func(k *Call) ([]Res, bool) {
			good, bad := k.st.clone(), k.st.clone()
			return []Res{{st: good, vals: []*Term{k.fresh("pm", k.sig.Results().At(0).Type()), TNil}}, {st: bad, vals: []*Term{TNil, k.newErr("pm")}}}, true
		}
		cnt := pg("kept", lenType)
		st.mem[cnt] = IntC(0)
		emit := func(st *State, pos string, at, v *Term) {
			cur := I(st.load(cnt, lenType))
			if e.dry == 0 {
				c.check(st.holds(EqI(at, cur)), "kept:order", pos, "the files of a torrent are in the order given", I(at).String(), cur.String())
				for i := 0; i < structOf(eb).NumFields(); i++ {
					fd := structOf(eb).Field(i)
					var b *Term
					for j := 0; j < structOf(et).NumFields(); j++ {
						if types.Identical(structOf(et).Field(j).Type(), eb) {
							b = structField(v, j, eb)
						}
					}
					got := structField(b, i, fd.Type())
					ok := false
					// whichever way the index is written
					src := got
					if a := I(got); intType(fd.Type()) && a.atom() != nil {
						src = a.atom()
					}
					for _, ix := range []*Term{cur, elemIndex(src, given)} {
						if ix == nil || !st.holds(EqI(I(ix), cur)) {
							continue
						}
						el := mk(KElem, "", 0, nil, nil, given, I(ix))
						addrTyp[el] = eb
						a, t := fieldCell(eb, el, fd.Name())
						want := st.load(a, t)
						if intType(t) {
							ok = ok || st.holds(EqI(I(got), I(want)))
						} else {
							ok = ok || st.f.find(got) == st.f.find(want) || eqSeqs(st, st.strSeq(got), st.strSeq(want))
						}
					}
					c.check(ok, "kept:"+fd.Name(), pos, "each file keeps its paths and its length", got.String(), factsText(st))
				}
			}
			st.store(cnt, AddC(cur, 1), lenType)
		}
		isList := func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return ok && types.Identical(s.Elem(), et)
		}
		e.hooks.markAppend = func(fr *Frame, st *State, in ssa.Instruction, s *Term, elems []*Term) {
			if v, ok := in.(ssa.Value); !ok || !isList(v.Type()) {
				return
			}
			_, _, l, _ := parts(st.f.find(s))
			for i, x := range elems {
				emit(st, c.pg.pos(in.Pos()), AddC(l, int64(i)), x)
			}
		}
		e.hooks.markStore = func(fr *Frame, st *State, in ssa.Instruction, addr, v *Term) {
			s, ok := in.(*ssa.Store)
			if !ok || addr.k != KElem || !types.Identical(s.Val.Type(), et) {
				return
			}
			if ia, ok := s.Addr.(*ssa.IndexAddr); ok && isList(ia.X.Type()) {
				emit(st, c.pg.pos(in.Pos()), addr.args[1], v)
			}
		}
		good := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil || !o.st.isNil(o.vals[1]) {
				continue
			}
			good++
			fs := o.st.f.find(e.getter(o.st, o.vals[0], "(*"+tTI+").Files"))
			_, _, l, _ := parts(fs)
			cur := I(o.st.load(cnt, lenType))
			c.check(o.st.holds(EqI(cur, n)) && o.st.holds(EqI(l, n)), "kept:all", where, "a torrent has all the files that it was made from, and no others", l.String(), cur.String(), factsText(o.st))
		}
		c.check(good > 0, "kept:all", where, "a torrent has all the files that it was made from, and no others", "none is made")
		c.done(e, "kept")
	})
}

// opensPath: a call that opens, makes, removes or renames the file at a path.
func opensPath(name string) bool {
	if strings.HasPrefix(name, "(") {
		return false
	}
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return false
	}
	fn := name[i+1:]
	switch name[:i] {
	case "os", "io/ioutil", "syscall":
		for _, p := range []string{"Open", "Create", "Mkdir", "Remove", "Rename", "Link", "Symlink", "Truncate", "WriteFile", "ReadFile", "ReadDir", "Chmod", "Chown", "Chtimes", "Chdir", "Mknod", "Unlink", "CopyFS", "TempFile", "TempDir"} {
			if strings.HasPrefix(fn, p) {
				return true
			}
		}
	case "os/exec":
		return true
	}
	return false
}

// whereOpened: the files of a torrent are the only ones that are opened.
func (c *Ctx) whereOpened() {
	c.guard("opened", "the files that are opened", func() {
		all := c.anchor("(*" + tFIO + ").OCATAll")
		load := c.anchor("gotor/torrent.FromTorrentFile")
		main := c.anchor("gotor.main")
		reach := c.pg.reachable(func(f *ssa.Function) bool { return f == all }, main)
		n := 0
		rule := "the files of a torrent, at their own paths, are the only ones that are opened, made, moved or removed, besides reading the torrent file"
		// what only loading calls is interpreted with it below
		stop := map[string]bool{"gotor/torrent/info.FromDict": true, "gotor/bencode.Decode": true, "gotor/bencode.Encode": true}
		part := c.pg.reachable(func(f *ssa.Function) bool { return stop[f.RelString(nil)] }, load)
		for f := range reach {
			if f == load || !part[f] {
				continue
			}
			for g := range reach {
				gs, _ := c.pg.callees(g)
				for _, x := range gs {
					if x == f && !part[g] {
						delete(part, f)
					}
				}
			}
		}
		for f := range reach {
			_, cs := c.pg.callees(f)
			for _, ci := range cs {
				if name := callName(ci); opensPath(name) {
					n++
					c.check((f == load || part[f]) && (name == "os.ReadFile" || name == "os.Open"), "opened:"+f.RelString(nil)+":"+name, c.pg.pos(ci.Pos()), rule, f.RelString(nil))
				}
			}
		}
		if !reach[load] {
			c.fail("opened:torrent", c.pg.pos(main.Pos()), "the torrent file is read", "it is not")
		}
		// who changes the local path of a file
		dict := c.anchor("gotor/torrent/info.FromDict")
		later := c.pg.reachable(func(f *ssa.Function) bool { return f == dict }, main)
		eb := c.typ(tEntryBase)
		for f := range later {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok || !types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), eb) {
						continue
					}
					if _, local := fa.X.(*ssa.Alloc); !local && structOf(eb).Field(fa.Field).Name() == "localPath" {
						c.fail("opened:path:"+f.RelString(nil), c.pg.pos(in.Pos()), "the path of a file of a torrent is not changed after it was loaded", f.RelString(nil))
					}
				}
			}
		}
		// the working directory that loading is given
		e := c.exec(load.RelString(nil))
		e.paths, e.sc = true, 64
		st := c.state()
		as := c.args(st, load)
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		for _, name := range []string{"os.ReadFile", "os.Open", "io/ioutil.ReadFile"} {
			h[name] = func(k *Call) ([]Res, bool) {
				if e.dry == 0 {
					c.check(k.st.f.find(k.args[0]) == k.st.f.find(as[0]), "opened:torrent", k.pos(), "the torrent file that was asked for is read", k.args[0].String())
				}
				return nil, false
			}
		}
		m := 0
		h["gotor/torrent/info.FromDict"] = func(k *Call) ([]Res, bool) {
			m++
			if e.dry == 0 {
				for i := 0; i < k.sig.Params().Len(); i++ {
					if isString(k.sig.Params().At(i).Type()) {
						c.check(k.st.f.find(k.args[i]) == k.st.f.find(as[1]), "opened:dir", k.pos(), "the files are placed in the working directory that was given", k.args[i].String())
					}
				}
			}
			return unknownCall(k), true
		}
		unknown := func(k *Call) ([]Res, bool) { return unknownCall(k), true }
		for _, n := range []string{"gotor/bencode.Decode", "gotor/bencode.Encode"} {
			h[n] = unknown
		}
		e.Run(st, load, as, nil)
		c.check(m > 0, "opened:dir", c.pg.pos(load.Pos()), "the files are placed in the working directory that was given", "no metadata is made")
		c.done(e, "opened")
		mk := c.anchor("gotor/swarm.NewSwarm")
		e = c.exec(mk.RelString(nil))
		e.paths, e.sc = true, 64
		st = c.state()
		as = c.args(st, mk)
		in, wd := e.getter(st, as[0], "(*gotor/utils.Opts).Input"), e.getter(st, as[0], "(*gotor/utils.Opts).WorkingDir")
		h = map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		h["gotor/torrent.FromTorrentFile"] = func(k *Call) ([]Res, bool) {
			if e.dry == 0 {
				c.check(k.st.f.find(k.args[0]) == k.st.f.find(in) && k.st.f.find(k.args[1]) == k.st.f.find(wd), "opened:options", k.pos(), "the torrent file and the working directory are those of the options", k.args[0].String(), k.args[1].String())
			}
			return []Res{{st: k.st, vals: []*Term{TNil, k.newErr("load")}}}, true
		}
		e.Run(st, mk, as, nil)
		c.done(e, "opened")
	})
}

func (c *Ctx) localPaths() {
	c.guard("inside", "where the files of a torrent are", func() {
		f := c.anchor("gotor/torrent/info.FromDict")
		e := c.exec(f.RelString(nil))
		e.paths, e.sc = true, 400
		st := c.state()
		as := c.args(st, f)
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		var wd *Term
		for i, p := range f.Params {
			if isString(p.Type()) {
				wd = as[i]
			}
		}
		if wd == nil {
			panic(undecided{"no working directory is given"})
		}
		e.peel = true
		dom := c.pathRules(e, wd)
		eb := c.typ(tEntryBase)
		prefix := pg("prefix", lenType)
		st.mem[prefix] = IntC(0)
		e.hooks.markStore = func(fr *Frame, st *State, in ssa.Instruction, addr, v *Term) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			el, _ := elemAncestor(addr)
			if el == nil {
				return
			}
			good := false
			set := func(n string, ok bool) {
				if t := okElems(n, el.args[0]); !ok && st.f.truth[t] {
					st.setTruth(t, false)
				}
			}
			switch {
			case isString(s.Val.Type()) && addr.k == KElem:
				set("part", dom.part(st, v))
				return
			case types.Identical(s.Val.Type(), eb):
				good = dom.inside(st, pathOf(v, eb, "localPath"), true)
				set("inside", good)
				set("safe", dom.state(st, pathOf(v, eb, "torPath")) == 1)
			case addr.k == KFld && isString(s.Val.Type()):
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), eb) {
					return
				}
				switch structOf(eb).Field(fa.Field).Name() {
				case "localPath":
					good = dom.inside(st, v, true)
					set("inside", good)
				case "torPath":
					set("safe", dom.state(st, v) == 1)
					return
				default:
					return
				}
			default:
				return
			}
			cur := I(st.load(prefix, lenType))
			switch {
			case good && st.holds(EqI(I(el.args[1]), cur)):
				st.store(prefix, AddC(cur, 1), lenType)
			case good && st.holds(Lt(I(el.args[1]), cur)):
			case good:
			default:
				st.store(prefix, IntC(0), lenType)
			}
		}
		n := 0
		h["gotor/torrent/info.NewTorInfo"] = func(k *Call) ([]Res, bool) {
			n++
			if e.dry == 0 {
				var fs *Term
				for i := 0; i < k.sig.Params().Len(); i++ {
					if s, ok := k.sig.Params().At(i).Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), eb) {
						fs = k.st.f.find(k.args[i])
					}
				}
				if fs == nil {
					panic(undecided{"the files of a torrent are not given as a list"})
				}
				b, o, l, _ := parts(fs)
				ok := b.k == KNil || k.st.f.truth[okElems("inside", b)] || k.st.holds(Le(Add(o, l), I(k.st.load(prefix, lenType))))
				if cnt, known := l.constI64(); !ok && known && cnt < 16 {
					ok = true
					for i := int64(0); i < cnt; i++ {
						v := k.st.load(mk(KElem, "", 0, nil, nil, b, AddC(o, i)), eb)
						ok = ok && dom.inside(k.st, pathOf(v, eb, "localPath"), true)
					}
				}
				c.check(ok, "inside:files", k.pos(), "every file of a torrent lies in the working directory", l.String(), I(k.st.load(prefix, lenType)).String(), factsText(k.st))
			}
			return unknownCall(k), true
		}
		e.Run(st, f, as, nil)
		if n == 0 {
			c.fail("inside:files", c.pg.pos(f.Pos()), "every file of a torrent lies in the working directory", "no torrent is made")
		}
		c.done(e, "inside")
	})
}

func init() {
	register(&Prop{
		id: "C11", title: "A torrent cannot make the client touch files outside its working directory",
		rule:   "info.FromDict is interpreted for an arbitrary dictionary: when the metadata is made, every file has a local path made by joining names that are known not to be empty, '.', '..' or to contain a separator to the working directory; the metadata keeps these files; outside bringing them to their sizes no function reached from main opens, makes, moves or removes a file.",
		assume: []string{"filepath.Join of safe names stays below its first argument", "the file system has no symbolic links below the working directory that lead out of it"},
		min:    map[string]int{"inside": 1, "kept": 5, "opened": 4, "sizes": 6, "size": 10},
		run:    runC11,
	})
}

package main

// Bencoding: what the encoder writes and what the decoder accepts.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const fnEncode = "gotor/bencode.Encode"

// ---------------------------------------------------------------- C24

func encOf(v *Term) *Term { return asSeq(App("enc", types.Typ[types.String], v)) }

func isBuffer(t types.Type) bool {
	s := t.String()
	return s == "*bytes.Buffer" || s == "*strings.Builder"
}

func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// encoders: the functions that encode any value into a buffer.
func (c *Ctx) encoders() []*ssa.Function {
	var r []*ssa.Function
	for f := range c.pg.reachable(nil, c.anchor(fnEncode)) {
		if f.Parent() != nil || !c.pg.isRepo(f) || len(f.Blocks) == 0 {
			continue
		}
		val, buf, other := 0, 0, 0
		for _, p := range f.Params {
			switch {
			case isEmptyIface(p.Type()):
				val++
			case isBuffer(p.Type()):
				buf++
			case !intType(p.Type()):
				other++
			}
		}
		res := f.Signature.Results()
		if val == 1 && buf == 1 && other == 0 && res.Len() == 1 && res.At(0).Type().String() == "error" {
			r = append(r, f)
		}
	}
	return r
}

func encArgs(f *ssa.Function, args []*Term) (val, buf *Term) {
	for i, p := range f.Params {
		switch {
		case isEmptyIface(p.Type()):
			val = args[i]
		case isBuffer(p.Type()):
			buf = args[i]
		}
	}
	return
}

// ascending: the function orders the elements of the slice that it captures.
func ascending(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) != 1 || len(f.Params) != 2 {
		return false
	}
	elem := func(v ssa.Value) (ssa.Value, bool) {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return nil, false
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok {
			return nil, false
		}
		x := ia.X
		if l, ok := x.(*ssa.UnOp); ok {
			x = l.X
		}
		_, free := x.(*ssa.FreeVar)
		return ia.Index, free
	}
	for _, in := range f.Blocks[0].Instrs {
		r, ok := in.(*ssa.Return)
		if !ok || len(r.Results) != 1 {
			continue
		}
		b, ok := r.Results[0].(*ssa.BinOp)
		if !ok || !isString(b.X.Type()) {
			return false
		}
		x, y := b.X, b.Y
		switch b.Op {
		case token.GTR, token.GEQ:
			x, y = y, x
		case token.LSS, token.LEQ:
		default:
			return false
		}
		i, ok1 := elem(x)
		j, ok2 := elem(y)
		return ok1 && ok2 && i == f.Params[0] && j == f.Params[1]
	}
	return false
}

func runC24(c *Ctx) {
	c.guard("encoder", "the functions that encode values", func() {
		es := c.encoders()
		if len(es) == 0 {
			panic(undecided{"no function encodes any value into a buffer"})
		}
		summary := func(e *Exec) {
			for _, f := range es {
				f := f
				e.hooks.call[fnName(f)] = func(k *Call) ([]Res, bool) {
					v, b := encArgs(f, k.args)
					good, bad := k.st.clone(), k.st.clone()
					return c.encWrite(k, good, b, encOf(k.st.f.find(v)), func(st *State) []Res {
						bad.ghost["nested"] = TTrue
						return []Res{{st: st, vals: []*Term{TNil}}, {st: bad, vals: []*Term{k.newErr("enc")}}}
					}), true
				}
			}
		}
		c.encodeAll(summary)
		for _, f := range es {
			c.encodeValue(f, summary)
		}
	})
}

// encWrite is how a call writes to a buffer; hooked by the monitor.
func (c *Ctx) encWrite(k *Call, st *State, b, x *Term, then func(st *State) []Res) []Res {
	if m := k.e.onWrite; m != nil {
		m(k, st, b, x)
	} else {
		st.sbAdd(b, x)
	}
	return then(st)
}

// encodeAll: Encode gives what was encoded.
func (c *Ctx) encodeAll(summary func(e *Exec)) {
	f := c.anchor(fnEncode)
	where := c.pg.pos(f.Pos())
	e := c.exec(f.RelString(nil))
	e.paths, e.sc = true, 64
	e.hooks.call = map[string]func(k *Call) ([]Res, bool){}
	summary(e)
	st := c.state()
	as := c.args(st, f)
	good := 0
	for _, o := range e.Run(st, f, as, nil) {
		if o.panic != nil || !o.st.isNil(o.vals[1]) {
			continue
		}
		good++
		got := o.st.sliceContent(o.vals[0])
		c.check(o.st.ghost["nested"] == nil && eqSeqs(o.st, got, encOf(o.st.f.find(as[0]))), "encode:result", where, "Encode gives exactly the encoding of the value, and an error when it has none", got.String())
	}
	c.check(good > 0, "encode:result", where, "Encode gives exactly the encoding of the value, and an error when it has none", "it gives none")
	c.done(e, "encode")
}

// encodeValue: what is written for a value of every type.
func (c *Ctx) encodeValue(f *ssa.Function, summary func(e *Exec)) {
	where := c.pg.pos(f.Pos())
	dict, list := c.typ(tDict), c.typ("gotor/bencode.List")
	any := types.NewInterfaceType(nil, nil)
	ts := []types.Type{types.Typ[types.String], dict, list}
	must := map[types.Type]bool{}
	for _, k := range []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64} {
		ts = append(ts, types.Typ[k])
	}
	for _, t := range ts {
		must[t] = true
	}
	for _, k := range []types.BasicKind{types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Bool, types.Float64} {
		ts = append(ts, types.Typ[k])
	}
	ts = append(ts, types.NewSlice(types.Typ[types.Uint8]), types.NewSlice(any), types.NewMap(types.Typ[types.String], any), types.NewSlice(types.Typ[types.String]), nil)
	for _, t := range ts {
		t := t
		name := "nil"
		if t != nil {
			name = shortType(t)
		}
		key := "value:" + name
		c.guard(key, "the encoding of a "+name, func() {
			e := c.exec(f.RelString(nil))
			e.paths, e.sc, e.ideal = true, 100, true
			h := map[string]func(k *Call) ([]Res, bool){}
			e.hooks.call = h
			summary(e)
			st := c.state()
			as := c.args(st, f)
			var v, buf *Term
			ai := -1
			for i, p := range f.Params {
				switch {
				case isEmptyIface(p.Type()):
					ai = i
				case isBuffer(p.Type()):
					buf = as[i]
				}
			}
			st.learn(notNil(buf))
			isList, isDict := false, false
			var lb, lo, ll *Term
			switch {
			case t == nil:
				as[ai] = TNil
			default:
				v = opaqueValue(Sym("own:v", t), t)
				switch u := t.Underlying().(type) {
				case *types.Slice:
					isList = isEmptyIface(u.Elem())
					lb, lo, ll = Sym("own:list", nil), IntC(0), I(Sym("len:list", lenType))
					st.learn(Ge0(ll))
					v = mkSlice(lb, lo, ll, ll)
				case *types.Map:
					isDict = true
				case *types.Basic:
					if intType(t) {
						v = I(v)
					}
				}
				as[ai] = mk(KIface, "", 0, t, nil, v)
			}
			composite := isList || isDict
			// what was written and not yet recognised
			pend := func(st *State) *Term {
				if p := st.ghost["pend"]; p != nil {
					return p
				}
				return Seq()
			}
			item, keys := pg("item", lenType), pg("keys", lenType)
			st.mem[item], st.mem[keys] = IntC(0), IntC(0)
			keyAt := func(st *State, j *Term) *Term {
				b := st.ghost["sorted"]
				if b == nil {
					return nil
				}
				el := mk(KElem, "", 0, nil, nil, b, j)
				addrTyp[el] = types.Typ[types.String]
				return st.load(el, types.Typ[types.String])
			}
			advance := func(st *State, pos string) {
				if !composite {
					return
				}
				if st.ghost["open"] == nil {
					p := pend(st)
					if len(p.args) > 0 && p.args[0].k == SLit && (isList && p.args[0].s[0] == 'l' || isDict && p.args[0].s[0] == 'd') {
						st.ghost["open"] = TTrue
						st.ghost["pend"] = seqSlice(st.f, p, IntC(1), AddC(seqLen(p), -1))
					}
				}
				if st.ghost["open"] == nil {
					return
				}
				p := pend(st)
				if len(p.args) == 0 {
					return
				}
				if last := wholeOf(Seq(p.args[len(p.args)-1])); last == nil || last.k != KApp || last.s != "enc" {
					return
				}
				j := I(st.load(item, lenType))
				if e.dry == 0 {
					at := j
					for _, b := range []*Term{lb, st.ghost["sorted"]} {
						if b == nil {
							continue
						}
						// whichever way the index is written
						if i := elemIndex(p, b); i != nil && st.holds(EqI(I(i), j)) {
							at = I(i)
						}
					}
					switch {
					case isList:
						el := mk(KElem, "", 0, nil, nil, lb, at)
						addrTyp[el] = any
						c.check(eqSeqs(st, p, encOf(st.f.find(st.load(el, any)))), key+":item", pos, "the elements of a list are encoded in order, each once", p.String(), j.String(), factsText(st))
					case st.ghost["sorted"] == nil:
						c.fail(key+":item", pos, "the keys of a dictionary are encoded in ascending order, each once and with its own value", "the keys are not all collected and sorted", p.String())
					default:
						k := keyAt(st, at)
						has, val := st.mapGet(v, k, any)
						if st.never(has) {
							break // all of them are keys
						}
						want := Seq(mkDec(st.lenOf(k, types.Typ[types.String])), mkLit(":"), st.strSeq(k), encOf(st.f.find(val)))
						c.check(eqSeqs(st, p, want), key+":item", pos, "the keys of a dictionary are encoded in ascending order, each once and with its own value", p.String(), want.String(), factsText(st))
					}
				}
				st.ghost["pend"] = Seq()
				st.store(item, AddC(j, 1), lenType)
			}
			mine := func(st *State, b *Term) bool {
				b = st.f.find(b)
				if b.k == KIface {
					b = st.f.find(b.args[0])
				}
				return b == st.f.find(buf)
			}
			e.onWrite = func(k *Call, st *State, b, x *Term) {
				if !mine(st, b) {
					st.sbAdd(b, x)
					return
				}
				st.ghost["pend"] = Seq(pend(st), x)
				advance(st, k.pos())
			}
			write := func(conv func(c *Call) *Term, n int) func(k *Call) ([]Res, bool) {
				return func(k *Call) ([]Res, bool) {
					if !mine(k.st, k.args[0]) {
						return nil, false
					}
					x := conv(k)
					e.onWrite(k, k.st, k.args[0], x)
					if n == 1 {
						return k.ret(TNil), true
					}
					return k.ret(seqLen(x), TNil), true
				}
			}
			for _, t := range []string{"(*bytes.Buffer)", "(*strings.Builder)"} {
				h[t+".WriteString"] = write(argStr, 2)
				h[t+".Write"] = write(argBytes, 2)
				h[t+".WriteByte"] = write(argByte, 1)
				for _, m := range []string{"Reset", "Truncate", "WriteTo", "ReadFrom", "WriteRune", "Next", "Read", "ReadByte"} {
					h[t+"."+m] = func(k *Call) ([]Res, bool) {
						if mine(k.st, k.args[0]) {
							panic(undecided{"the buffer is not only written to"})
						}
						return nil, false
					}
				}
			}
			h["io.WriteString"] = write(argStr, 2)
			h["fmt.Fprintf"] = write(func(k *Call) *Term {
				x := k.sprintf(k.args[1], k.args[2])
				if x == nil {
					x = asSeq(Sym("printed:"+k.site, types.Typ[types.String]))
				}
				return x
			}, 2)
			sorts := func(k *Call) {
				s := k.st.f.find(k.args[0])
				if s.k == KIface {
					s = k.st.f.find(s.args[0])
				}
				b, o, l, _ := parts(s)
				n := I(k.st.load(keys, lenType))
				if k.st.holds(EqI(o, IntC(0))) && k.st.holds(EqI(l, n)) && k.st.ghost["all"] != nil && k.st.ghost["skipped"] == nil {
					k.st.ghost["sorted"] = b
				}
				k.st.bumpObj(b, "s")
			}
			for _, n := range []string{"sort.Strings", "slices.Sort"} {
				h[n] = func(k *Call) ([]Res, bool) { sorts(k); return k.ret(), true }
			}
			for _, n := range []string{"sort.Slice", "sort.SliceStable"} {
				h[n] = func(k *Call) ([]Res, bool) {
					if l := k.st.f.find(k.args[1]); l.k == KFn {
						if g, ok := l.obj.(*ssa.Function); ok && ascending(g) {
							sorts(k)
							return k.ret(), true
						}
					}
					panic(undecided{"the order of sorting is not recognised"})
				}
			}
			h["sort.Sort"] = func(k *Call) ([]Res, bool) {
				if s := k.st.f.find(k.args[0]); s.k == KIface && s.typ.String() == "sort.StringSlice" {
					sorts(k)
					return k.ret(), true
				}
				panic(undecided{"the order of sorting is not recognised"})
			}
			e.hooks.onNext = func(fr *Frame, st *State, it, k *Term) {
				if !isDict || st.f.find(it) != st.f.find(v) {
					return
				}
				if st.ghost["key"] != nil {
					st.ghost["skipped"] = TTrue
				}
				delete(st.ghost, "key")
				if k == nil {
					if st.ghost["all"] == nil {
						st.ghost["all"] = TTrue
						if st.ghost["skipped"] == nil {
							st.learn(EqI(I(st.load(keys, lenType)), st.mapLen(v)))
						}
					} else {
						st.ghost["skipped"] = TTrue // more than one loop
					}
				} else {
					st.ghost["key"] = k
				}
			}
			emit := func(st *State, pos string, at, x *Term) {
				cur := I(st.load(keys, lenType))
				k := st.ghost["key"]
				if k == nil || !eqSeqs(st, st.strSeq(k), st.strSeq(x)) {
					st.ghost["skipped"] = TTrue
				}
				if e.dry == 0 {
					c.check(st.holds(EqI(at, cur)), key+":keys", pos, "the keys are collected one after the other", at.String(), cur.String())
				}
				delete(st.ghost, "key")
				delete(st.ghost, "sorted")
				st.store(keys, AddC(cur, 1), lenType)
			}
			isKeys := func(t types.Type) bool {
				s, ok := t.Underlying().(*types.Slice)
				return isDict && ok && isString(s.Elem())
			}
			e.hooks.markAppend = func(fr *Frame, st *State, in ssa.Instruction, s *Term, elems []*Term) {
				if v, ok := in.(ssa.Value); !ok || !isKeys(v.Type()) {
					return
				}
				_, _, l, _ := parts(st.f.find(s))
				for i, x := range elems {
					emit(st, c.pg.pos(in.Pos()), AddC(l, int64(i)), x)
				}
			}
			e.hooks.markStore = func(fr *Frame, st *State, in ssa.Instruction, addr, x *Term) {
				s, ok := in.(*ssa.Store)
				if !ok || addr.k != KElem {
					return
				}
				if ia, ok := s.Addr.(*ssa.IndexAddr); ok && isKeys(ia.X.Type()) {
					emit(st, c.pg.pos(in.Pos()), addr.args[1], x)
				}
			}
			// the key that is next is known to be empty
			emptyKey := func(s *State, j *Term) bool {
				b := s.ghost["sorted"]
				if b == nil {
					return false
				}
				for _, l := range s.f.log {
					for _, t := range intAtoms(l) {
						i := elemIndex(t, b)
						if i != nil && t.k == KApp && t.s == "len" && s.holds(EqI(I(i), j)) && s.holds(EqI(I(t), IntC(0))) {
							return true
						}
					}
				}
				return false
			}
			good, n := 0, 0
			for _, o := range e.Run(st, f, as, nil) {
				if o.panic != nil {
					continue
				}
				n++
				s := o.st
				if !s.isNil(o.vals[0]) {
					// an error: of something inside, or the value is an empty string
					fine := s.ghost["nested"] != nil
					if t != nil && isString(t) && !fine {
						fine = s.holds(EqI(s.lenOf(v, t), IntC(0)))
					}
					if isDict && !fine {
						fine = emptyKey(s, I(s.load(item, lenType)))
					}
					if t != nil && must[t] {
						c.check(fine, key+":accepted", where, "every integer, string that is not empty, list and dictionary of such is encoded", factsText(s))
					}
					continue
				}
				good++
				if t == nil {
					c.fail(key, where, "what cannot be encoded gives an error", name)
					continue
				}
				c.check(s.ghost["nested"] == nil, key+":error", where, "when something inside cannot be encoded there is an error")
				p := pend(s)
				j := I(s.load(item, lenType))
				tail := func() bool {
					l, ok := seqLit(p)
					return s.ghost["open"] != nil && ok && l == "e"
				}
				switch {
				case isList:
					c.check(tail() && s.holds(EqI(j, ll)), key, where, "a list is encoded as 'l', its elements in order, and 'e'", p.String(), j.String(), factsText(s))
				case isDict:
					all := s.ghost["sorted"] != nil && s.holds(EqI(j, I(s.load(keys, lenType)))) || s.holds(EqI(s.mapLen(v), IntC(0)))
					c.check(tail() && all, key, where, "a dictionary is encoded as 'd', each key once in ascending order with its value after it, and 'e'", p.String(), j.String(), fmt.Sprint(s.ghost), factsText(s))
				case intType(t):
					c.check(eqSeqs(s, p, Seq(mkLit("i"), mkDec(v), mkLit("e"))), key, where, "an integer is encoded as 'i', its decimal digits and 'e'", p.String())
				case isString(t):
					c.check(eqSeqs(s, p, Seq(mkDec(s.lenOf(v, t)), mkLit(":"), s.strSeq(v))), key, where, "a string is encoded as its length, ':' and its bytes", p.String())
				case isByteSlice(t):
					c.check(eqSeqs(s, p, Seq(mkDec(ll), mkLit(":"), s.sliceContent(v))), key, where, "a string is encoded as its length, ':' and its bytes", p.String())
				default:
					c.fail(key, where, "what cannot be encoded gives an error", name)
				}
			}
			if t != nil && must[t] {
				c.check(good > 0, key, where, "every integer, string that is not empty, list and dictionary of such is encoded", "none is")
			} else {
				c.check(n > 0, key, where, "what cannot be encoded gives an error")
			}
			c.done(e, key)
		})
	}
}

// ---------------------------------------------------------------- C25

const fnDecode = "gotor/bencode.Decode"

// decoderParts: the parts of the decoder, told by their types and uses.
type decoderParts struct {
	typ  types.Type
	data string // the bytes that are decoded
	curs string // the position of the next byte
	curT types.Type
	deep map[string]types.Type // other numbers
	fns  map[string]*ssa.Function
}

func (c *Ctx) decoderParts() *decoderParts {
	d := &decoderParts{deep: map[string]types.Type{}, fns: map[string]*ssa.Function{}}
	reach := c.pg.reachable(nil, c.anchor(fnDecode))
	want := map[string]string{"int64": "int", "string": "string", tDict: "dict", "gotor/bencode.List": "list"}
	cand := map[string][]*ssa.Function{}
	for f := range reach {
		if len(f.Blocks) == 0 || f.Signature.Recv() == nil || !c.pg.isRepo(f) {
			continue
		}
		p, ok := f.Signature.Recv().Type().(*types.Pointer)
		if !ok || structOf(p.Elem()) == nil {
			continue
		}
		has := false
		for i := 0; i < structOf(p.Elem()).NumFields(); i++ {
			has = has || isByteSlice(structOf(p.Elem()).Field(i).Type())
		}
		if !has {
			continue
		}
		if d.typ != nil && !types.Identical(d.typ, p.Elem()) {
			panic(undecided{"there are several decoders"})
		}
		d.typ = p.Elem()
		res := f.Signature.Results()
		if len(f.Params) != 1 || res.Len() != 2 || res.At(1).Type().String() != "error" {
			continue
		}
		if k := want[res.At(0).Type().String()]; k != "" {
			cand[k] = append(cand[k], f)
		}
	}
	if d.typ == nil {
		panic(undecided{"there is no decoder"})
	}
	for _, k := range []string{"int", "string", "dict", "list"} {
		fs := cand[k]
		for _, f := range fs {
			if len(fs) == 1 || strings.EqualFold(f.Name(), "decode"+k) {
				d.fns[k] = f
			}
		}
		if d.fns[k] == nil {
			panic(undecided{"the function that decodes a " + k + " cannot be told"})
		}
	}
	s := structOf(d.typ)
	for i := 0; i < s.NumFields(); i++ {
		if isByteSlice(s.Field(i).Type()) {
			d.data = s.Field(i).Name()
		}
	}
	// the position is the number that the data is indexed by
	field := func(v ssa.Value) string {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				if p, ok := fa.X.Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), d.typ) {
					return s.Field(fa.Field).Name()
				}
			}
		}
		return ""
	}
	for f := range reach {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ia, ok := in.(*ssa.IndexAddr); ok && field(ia.X) == d.data {
					if n := field(ia.Index); n != "" {
						if d.curs != "" && d.curs != n {
							panic(undecided{"the position of the decoder cannot be told"})
						}
						d.curs = n
					}
				}
			}
		}
	}
	if d.curs == "" {
		panic(undecided{"the position of the decoder cannot be told"})
	}
	for i := 0; i < s.NumFields(); i++ {
		fd := s.Field(i)
		switch {
		case fd.Name() == d.curs:
			d.curT = fd.Type()
		case intType(fd.Type()):
			d.deep[fd.Name()] = fd.Type()
		}
	}
	return d
}

// decoding is the analysis of one function of the decoder.
type decoding struct {
	c     *Ctx
	p     *decoderParts
	e     *Exec
	st    *State
	dc    *Term // the decoder
	data  *Term // its data
	src   *Term // ... as a string
	n, c0 *Term // how much there is, where decoding starts
}

func (c *Ctx) decoding(p *decoderParts, root string) *decoding {
	d := &decoding{c: c, p: p}
	d.e = c.exec(root)
	d.e.paths, d.e.sc, d.e.ideal = true, 200, true
	d.e.hooks.call = map[string]func(k *Call) ([]Res, bool){}
	d.st = c.state()
	d.dc = Sym("own:dc", types.NewPointer(p.typ))
	d.st.learn(notNil(d.dc))
	base := Sym("own:data", nil)
	d.src = Sym("D", types.Typ[types.String])
	d.n, d.c0 = I(App("len", lenType, d.src)), I(Sym("start", lenType))
	d.st.learn(Ge0(d.n))
	d.st.mem[mk(KBArr, "", 0, nil, nil, base)] = asSeq(d.src)
	d.st.learn(Ge0(d.c0))
	d.st.learn(Lt(d.n, IntC(1<<62)))
	d.st.learn(Lt(d.c0, IntC(1<<62)))
	d.data = mkSlice(base, IntC(0), d.n, d.n)
	a, t := fieldCell(p.typ, d.dc, p.data)
	d.st.store(a, d.data, t)
	a, t = fieldCell(p.typ, d.dc, p.curs)
	d.st.store(a, d.c0, t)
	return d
}

func (d *decoding) cursor(st *State) *Term { return I(st.field(d.p.typ, d.dc, d.p.curs)) }

func (d *decoding) setCursor(st *State, v *Term) {
	a, t := fieldCell(d.p.typ, d.dc, d.p.curs)
	st.store(a, v, t)
}

// at is the byte at a position of the data.
func (d *decoding) at(st *State, i *Term) *Term {
	return I(App("byteat", byteType, d.src, I(i)))
}

// byteAt: a byte of the data is known to be the one at a position.
func (d *decoding) byteAt(st *State, b, i *Term) bool {
	b = I(b)
	if st.holds(EqI(b, d.at(st, i))) {
		return true
	}
	for _, a := range intAtoms(b) {
		if a.k == KApp && a.s == "byteat" && a.args[0] == d.src && st.holds(EqI(b, I(a))) && st.holds(EqI(I(a.args[1]), I(i))) {
			return true
		}
	}
	return false
}

// is: what is known of the byte at a position, however the position is written.
func (d *decoding) is(st *State, i *Term, good func(b *Term) bool) bool {
	if good(d.at(st, i)) {
		return true
	}
	for _, l := range st.f.log {
		for _, a := range intAtoms(l) {
			if a.k == KApp && a.s == "byteat" && a.args[0] == d.src && st.holds(EqI(I(a.args[1]), I(i))) && good(I(a)) {
				return true
			}
		}
	}
	return false
}

func isDigit(st *State, b *Term) bool {
	return st.holds(Ge0(AddC(b, -'0'))) && st.holds(Le(b, IntC('9')))
}

// from: a string is the data from a position on.
func (d *decoding) from(st *State, x, pos *Term, pred string) bool {
	x = asSeq(x)
	for i, g := range x.args {
		switch g.k {
		case SSub:
			whole := i == 0 && pred != "" && g.args[1] == IntC(0) && st.holds(EqI(g.args[2], I(App("len", lenType, g.args[0])))) && st.f.truth[App(pred, nil, g.args[0])]
			if !whole && !(g.args[0] == d.src && st.holds(EqI(g.args[1], pos))) {
				return false
			}
			pos = Add(pos, g.args[2])
		case SByte:
			if !d.byteAt(st, g.args[0], pos) {
				return false
			}
			pos = AddC(pos, 1)
		case SLit:
			for _, ch := range []byte(g.s) {
				if !d.is(st, pos, func(b *Term) bool { return st.holds(EqI(b, IntC(int64(ch)))) }) {
					return false
				}
				pos = AddC(pos, 1)
			}
		default:
			return false
		}
	}
	return true
}

// digits: every byte from the beginning of the digits up to a position is one.
func (d *decoding) digits(st *State, pred string, from, x *Term) bool {
	if st.holds(EqI(x, from)) {
		return true
	}
	known := func(y *Term) bool {
		if st.holds(EqI(y, from)) {
			return true
		}
		for t, v := range st.f.truth {
			if v && t.k == KApp && t.s == pred && st.holds(EqI(I(t.args[0]), y)) {
				return true
			}
		}
		return false
	}
	for i := 0; i < 4; i++ {
		if known(x) {
			return true
		}
		x = AddC(x, -1)
		if !d.is(st, x, func(b *Term) bool { return isDigit(st, b) }) {
			return false
		}
	}
	return false
}

// stops: the digits are followed by a byte that must not be there.
func (d *decoding) stops(st *State, pred string, from *Term, bad func(b *Term) bool) bool {
	if d.is(st, from, bad) {
		return true
	}
	for t, v := range st.f.truth {
		if v && t.k == KApp && t.s == pred && (d.is(st, I(t.args[0]), bad) || d.is(st, AddC(I(t.args[0]), 1), bad) && d.digits(st, pred, from, AddC(I(t.args[0]), 1))) {
			return true
		}
	}
	return false
}

// rules installs what the loops of the decoder keep: copies of the data, and
// runs of digits.
func (d *decoding) rules() {
	d.e.strPreds = []string{"from0", "from1"}
	d.e.strPred = func(st *State, n string, x *Term) bool {
		return d.from(st, x, AddC(d.c0, int64(n[4]-'0')), n)
	}
	d.e.intPreds = []string{"digits0", "digits1", "digits2"}
	d.e.intPred = func(st *State, n string, x *Term) bool {
		return d.digits(st, n, AddC(d.c0, int64(n[6]-'0')), x)
	}
	num := func(name string, base, bits int) func(k *Call) ([]Res, bool) {
		return func(k *Call) ([]Res, bool) {
			if base > 0 && e2(k, base, 10) && e2(k, bits, 64) || base == 0 {
				s := k.st.strSeq(k.args[0])
				good, bad := k.st.clone(), k.st.clone()
				v := I(App("number", types.Typ[types.Int64], s))
				good.ghost["number"] = s
				for i := int64(0); i < 2; i++ {
					at := AddC(d.c0, i)
					if d.from(good, s, at, "from"+itoa(int(i))) && d.digits(good, "digits"+itoa(int(i)), at, Add(at, seqLen(s))) {
						good.learn(Ge0(v)) // there is no sign
					}
				}
				bad.ghost["notnumber"] = TTrue
				return []Res{{st: good, vals: []*Term{v, TNil}}, {st: bad, vals: []*Term{IntC(0), k.newErr(name)}}}, true
			}
			panic(undecided{"a number is not parsed as a decimal of 64 bits"})
		}
	}
	h := d.e.hooks.call
	h["strconv.Atoi"] = num("atoi", 0, 0)
	h["strconv.ParseInt"] = num("parseint", 1, 2)
	h["strconv.ParseUint"] = num("parseuint", 1, 2)
}

func e2(k *Call, arg int, want int64) bool {
	n, ok := I(k.args[arg]).constI64()
	return ok && (n == want || want == 64 && n == 0)
}

func runC25(c *Ctx) {
	c.guard("decoder", "the decoder", func() {
		p := c.decoderParts()
		c.decodeNumber(p)
		c.decodeText(p)
		for _, k := range []string{"list", "dict"} {
			c.decodeMany(p, k)
		}
		c.decodeTop(p)
	})
	c.lookup()
}

func (c *Ctx) decodeNumber(p *decoderParts) {
	c.guard("int", "the decoding of an integer", func() {
		f := p.fns["int"]
		where := c.pg.pos(f.Pos())
		d := c.decoding(p, f.RelString(nil))
		d.rules()
		c0 := d.c0
		good := 0
		for _, o := range d.e.Run(d.st, f, []*Term{d.dc}, nil) {
			if o.panic != nil {
				continue
			}
			st := o.st
			end := d.cursor(st)
			ch := func(i *Term, b byte) bool {
				return d.is(st, i, func(x *Term) bool { return st.holds(EqI(x, IntC(int64(b)))) })
			}
			not := func(i *Term, b byte) bool {
				return d.is(st, i, func(x *Term) bool { return st.never(EqI(x, IntC(int64(b)))) })
			}
			if !st.isNil(o.vals[1]) {
				// something is wrong at the start, or where decoding stopped
				zero := ch(AddC(c0, 1), '0') && not(AddC(c0, 2), 'e') || ch(AddC(c0, 1), '-') && ch(AddC(c0, 2), '0')
				wrong := func(x *Term) bool {
					return st.never(EqI(x, IntC('e'))) && (st.holds(Lt(x, IntC('0'))) || st.holds(Lt(IntC('9'), x)))
				}
				// what follows the digits, or the sign and digits
				stop := d.stops(st, "digits1", AddC(c0, 1), wrong) && not(AddC(c0, 1), '-') || ch(AddC(c0, 1), '-') && d.stops(st, "digits2", AddC(c0, 2), wrong)
				c.check(st.ghost["notnumber"] != nil || not(c0, 'i') || zero || stop, "int:accepts", where, "every integer of 64 bits in its only form is accepted", factsText(st))
				continue
			}
			good++
			s := st.ghost["number"]
			if s == nil {
				c.fail("int:value", where, "an integer has the value of its digits", "no digits are read")
				continue
			}
			v := I(App("number", types.Typ[types.Int64], s))
			c.check(st.holds(EqI(I(o.vals[0]), v)), "int:value", where, "an integer has the value of its digits", I(o.vals[0]).String(), v.String())
			n := seqLen(s)
			c.check(ch(c0, 'i') && d.from(st, s, AddC(c0, 1), ""+"from1"), "int:digits", where, "the digits are those between 'i' and 'e'", s.String(), factsText(st))
			last := AddC(Add(c0, n), 1)
			c.check(ch(last, 'e') && st.holds(EqI(end, AddC(last, 1))), "int:end", where, "an integer ends after its 'e'", end.String(), last.String(), factsText(st))
			all := d.digits(st, "digits1", AddC(c0, 1), last) || ch(AddC(c0, 1), '-') && d.digits(st, "digits2", AddC(c0, 2), last)
			c.check(all, "int:form", where, "an integer is made of digits, after one '-' at most", factsText(st))
			lead := not(AddC(c0, 1), '0') || st.holds(EqI(n, IntC(1)))
			neg := not(AddC(c0, 1), '-') || not(AddC(c0, 2), '0')
			c.check(lead && neg, "int:zero", where, "integers have no leading zeros, and zero is not negative", factsText(st))
		}
		c.check(good > 0, "int:value", where, "an integer has the value of its digits", "none is accepted")
		c.done(d.e, "int")
	})
}

func (c *Ctx) decodeText(p *decoderParts) {
	c.guard("string", "the decoding of a string", func() {
		f := p.fns["string"]
		where := c.pg.pos(f.Pos())
		d := c.decoding(p, f.RelString(nil))
		d.rules()
		c0 := d.c0
		good := 0
		for _, o := range d.e.Run(d.st, f, []*Term{d.dc}, nil) {
			if o.panic != nil {
				continue
			}
			st := o.st
			end := d.cursor(st)
			is := func(i *Term, good func(b *Term) bool) bool { return d.is(st, i, good) }
			if !st.isNil(o.vals[1]) {
				stop := d.stops(st, "digits0", c0, func(x *Term) bool {
					return st.never(EqI(x, IntC(':'))) && (st.holds(Lt(x, IntC('0'))) || st.holds(Lt(IntC('9'), x)))
				})
				c.check(st.ghost["notnumber"] != nil || stop, "string:accepts", where, "every string is accepted", factsText(st))
				continue
			}
			good++
			s := st.ghost["number"]
			if s == nil {
				c.fail("string:length", where, "a string has the length that is given before it", "no length is read")
				continue
			}
			v := I(App("number", types.Typ[types.Int64], s))
			col := Add(c0, seqLen(s))
			c.check(d.from(st, s, c0, "from0") && d.digits(st, "digits0", c0, col) && is(col, func(x *Term) bool { return st.holds(EqI(x, IntC(':'))) }), "string:length", where, "the length of a string is the digits before the ':'", s.String(), factsText(st))
			c.check(st.holds(EqI(st.lenOf(o.vals[0], types.Typ[types.String]), v)) && d.from(st, st.strSeq(o.vals[0]), AddC(col, 1), ""), "string:bytes", where, "a string is the bytes after the ':', as many as its length says", o.vals[0].String(), v.String(), factsText(st))
			c.check(st.holds(EqI(end, AddC(Add(col, v), 1))), "string:end", where, "a string ends after its last byte", end.String(), factsText(st))
		}
		c.check(good > 0, "string:bytes", where, "a string is the bytes after the ':', as many as its length says", "none is accepted")
		c.done(d.e, "string")
	})
}

// nested installs what a call of a function of the decoder does: it gives a value
// and moves the position.
func (d *decoding) nested(before func(k *Call, kind string, dc, pos *Term), after func(k *Call, st *State, kind string, dc, v *Term)) {
	for kind, f := range d.p.fns {
		kind := kind
		d.e.hooks.call[fnName(f)] = func(k *Call) ([]Res, bool) {
			dc := k.args[0]
			pos := I(k.st.field(d.p.typ, dc, d.p.curs))
			before(k, kind, dc, pos)
			good, bad := k.st.clone(), k.st.clone()
			bad.ghost["nested"] = TTrue
			t := k.sig.Results().At(0).Type()
			v := k.fresh("val", t)
			if intType(t) {
				v = I(v)
			}
			end := I(k.fresh("end", lenType))
			good.learn(Lt(pos, end))
			good.learn(Le(end, d.n))
			a, ct := fieldCell(d.p.typ, dc, d.p.curs)
			good.store(a, end, ct)
			after(k, good, kind, dc, v)
			return []Res{{st: good, vals: []*Term{v, TNil}}, {st: bad, vals: []*Term{zeroValue(t), k.newErr("nested")}}}, true
		}
	}
}

// kindAt: values of a kind are what the byte at a position announces.
func (d *decoding) kindAt(st *State, kind string, pos *Term) bool {
	first := map[string]byte{"int": 'i', "list": 'l', "dict": 'd'}
	if b, ok := first[kind]; ok {
		return d.is(st, pos, func(x *Term) bool { return st.holds(EqI(x, IntC(int64(b)))) })
	}
	for _, b := range first {
		b := b
		if !d.is(st, pos, func(x *Term) bool { return st.never(EqI(x, IntC(int64(b)))) }) {
			return false
		}
	}
	return true
}

func sameValue(st *State, x, v *Term) bool {
	x = st.f.find(x)
	if x.k == KIface {
		x = st.f.find(x.args[0])
	}
	if x.k == KInt || v.k == KInt {
		return x.k != KNil && st.holds(EqI(I(x), I(v)))
	}
	if v.k == KSeq || x.k == KSeq {
		return eqSeqs(st, st.strSeq(x), st.strSeq(v))
	}
	return x == st.f.find(v)
}

func (c *Ctx) decodeMany(p *decoderParts, kind string) {
	c.guard(kind, "the decoding of a "+kind, func() {
		f := p.fns[kind]
		where := c.pg.pos(f.Pos())
		d := c.decoding(p, f.RelString(nil))
		c0, e := d.c0, d.e
		list := kind == "list"
		next, cnt := pg("next", lenType), pg("cnt", lenType)
		d.st.mem[next], d.st.mem[cnt] = AddC(c0, 1), IntC(0)
		deep0 := map[string]*Term{}
		for n := range p.deep {
			deep0[n] = I(d.st.field(p.typ, d.dc, n))
		}
		d.nested(func(k *Call, knd string, dc, pos *Term) {
			if e.dry != 0 {
				return
			}
			st := k.st
			c.check(st.f.find(dc) == st.f.find(d.dc) && st.holds(EqI(pos, I(st.load(next, lenType)))), kind+":next", k.pos(), "each value starts where the one before it ended", pos.String(), factsText(st))
			c.check(st.ghost["val"] == nil, kind+":kept", k.pos(), "no value is dropped")
			if list || st.ghost["key"] != nil {
				c.check(d.kindAt(st, knd, pos), kind+":kind", k.pos(), "the first byte of a value tells its kind", knd, factsText(st))
			} else {
				c.check(knd == "string", kind+":key", k.pos(), "the keys of a dictionary are strings", knd)
			}
		}, func(k *Call, st *State, knd string, dc, v *Term) {
			st.store(next, I(st.field(p.typ, d.dc, p.curs)), lenType)
			if list || st.ghost["key"] != nil {
				st.ghost["val"] = v
			} else {
				st.ghost["key"] = v
			}
		})
		isList := func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return list && ok && isEmptyIface(s.Elem())
		}
		e.hooks.markAppend = func(fr *Frame, st *State, in ssa.Instruction, s *Term, elems []*Term) {
			if v, ok := in.(ssa.Value); !ok || !isList(v.Type()) {
				return
			}
			_, _, l, _ := parts(st.f.find(s))
			cur := I(st.load(cnt, lenType))
			if e.dry == 0 {
				c.check(len(elems) == 1 && st.ghost["val"] != nil && sameValue(st, elems[0], st.ghost["val"]) && st.holds(EqI(l, cur)), kind+":item", c.pg.pos(in.Pos()), "the elements of a list are the values, in order")
			}
			delete(st.ghost, "val")
			st.store(cnt, AddC(cur, 1), lenType)
		}
		e.hooks.markMap = func(fr *Frame, st *State, in ssa.Instruction, m, k, v *Term) {
			if list {
				return
			}
			if e.dry == 0 {
				key, val := st.ghost["key"], st.ghost["val"]
				c.check(v != nil && key != nil && val != nil && sameValue(st, k, key) && sameValue(st, v, val), kind+":item", c.pg.pos(in.Pos()), "the values of a dictionary are under their keys")
			}
			delete(st.ghost, "key")
			delete(st.ghost, "val")
			st.ghost["map"] = st.f.find(m)
		}
		good := 0
		for _, o := range e.Run(d.st, f, []*Term{d.dc}, nil) {
			if o.panic != nil {
				continue
			}
			st := o.st
			for n := range p.deep {
				if st.isNil(o.vals[1]) {
					c.check(st.holds(EqI(I(st.field(p.typ, d.dc, n)), deep0[n])), kind+":depth", where, "a value that ended does not count as nesting", n)
				}
			}
			first := byte('d')
			if list {
				first = 'l'
			}
			if !st.isNil(o.vals[1]) {
				fine := st.ghost["nested"] != nil || d.is(st, c0, func(x *Term) bool { return st.never(EqI(x, IntC(int64(first)))) })
				for _, v := range deep0 {
					fine = fine || st.holds(Le(IntC(99), v))
				}
				c.check(fine, kind+":accepts", where, "every list and dictionary of values that are accepted, nested less than a hundred times, is accepted", factsText(st))
				continue
			}
			good++
			at := I(st.load(next, lenType))
			c.check(st.ghost["nested"] == nil, kind+":error", where, "when something inside cannot be decoded there is an error")
			c.check(d.is(st, c0, func(x *Term) bool { return st.holds(EqI(x, IntC(int64(first)))) }), kind+":first", where, "the first byte of a value tells its kind")
			c.check(d.is(st, at, func(x *Term) bool { return st.holds(EqI(x, IntC('e'))) }) && st.holds(EqI(d.cursor(st), AddC(at, 1))), kind+":end", where, "a list or dictionary ends with the 'e' after its last value", d.cursor(st).String(), at.String(), factsText(st))
			c.check(st.ghost["val"] == nil && st.ghost["key"] == nil, kind+":kept", where, "no value is dropped")
			if list {
				_, _, l, _ := parts(st.f.find(o.vals[0]))
				c.check(st.holds(EqI(l, I(st.load(cnt, lenType)))), kind+":all", where, "a list holds all its values and no others", l.String(), factsText(st))
			} else {
				m := st.ghost["map"]
				c.check(m != nil && st.f.find(o.vals[0]) == m || m == nil && st.holds(EqI(at, AddC(c0, 1))), kind+":all", where, "a dictionary holds all its values and no others", o.vals[0].String(), factsText(st))
			}
		}
		c.check(good > 0, kind+":all", where, "a "+kind+" holds all its values and no others", "none is accepted")
		c.done(e, kind)
	})
}

func (c *Ctx) decodeTop(p *decoderParts) {
	c.guard("decode", "decoding", func() {
		f := c.anchor(fnDecode)
		where := c.pg.pos(f.Pos())
		d := c.decoding(p, f.RelString(nil))
		e := d.e
		d.nested(func(k *Call, knd string, dc, pos *Term) {
			if e.dry != 0 {
				return
			}
			st := k.st
			c.check(st.f.find(st.field(p.typ, dc, p.data)) == st.f.find(d.data) && st.holds(EqI(pos, IntC(0))), "decode:start", k.pos(), "decoding starts at the first byte of the data", pos.String())
			c.check(d.kindAt(st, knd, pos), "decode:kind", k.pos(), "the first byte of a value tells its kind", knd, factsText(st))
			c.check(st.ghost["val"] == nil, "decode:start", k.pos(), "decoding starts at the first byte of the data", "more than one value is decoded")
		}, func(k *Call, st *State, knd string, dc, v *Term) {
			st.ghost["val"] = v
			st.ghost["kind:"+knd] = TTrue
		})
		kinds := map[string]bool{}
		for _, o := range e.Run(d.st, f, []*Term{d.data}, nil) {
			if o.panic != nil {
				continue
			}
			st := o.st
			if !st.isNil(o.vals[1]) {
				c.check(st.ghost["nested"] != nil, "decode:accepts", where, "a value that can be decoded is decoded", factsText(st))
				continue
			}
			c.check(st.ghost["nested"] == nil, "decode:error", where, "what cannot be decoded gives an error")
			r := st.f.find(o.vals[0])
			want := map[string]string{"int": "int64", "string": "string", "list": "gotor/bencode.List", "dict": tDict}
			ok := st.ghost["val"] != nil && r.k == KIface && sameValue(st, r, st.ghost["val"])
			for kd, t := range want {
				if st.ghost["kind:"+kd] != nil {
					kinds[kd] = true
					ok = ok && r.typ.String() == t
				}
			}
			c.check(ok, "decode:value", where, "decoding gives the value, with the type of its kind", r.String())
		}
		c.check(len(kinds) == 4, "decode:value", where, "decoding gives the value, with the type of its kind", "not every kind is decoded")
		c.done(e, "decode")
	})
}

// lookup: what the accessors of a dictionary give.
func (c *Ctx) lookup() {
	c.guard("lookup", "looking up a key", func() {
		dict := c.typ(tDict)
		n := 0
		for _, w := range [][2]string{{"GetString", "string"}, {"GetInt", "int64"}, {"GetUint", "int64"}, {"GetList", "gotor/bencode.List"}, {"GetDict", tDict}} {
			f := c.pg.fn("(" + tDict + ")." + w[0])
			if f == nil {
				continue
			}
			n++
			where := c.pg.pos(f.Pos())
			e := c.exec(f.RelString(nil))
			e.paths, e.sc = true, 64
			st := c.state()
			str := types.Typ[types.String]
			D, key := Sym("own:dict", dict), asSeq(Sym("key", str))
			any := types.NewInterfaceType(nil, nil)
			var t types.Type
			switch w[1] {
			case "string":
				t = str
			case "int64":
				t = types.Typ[types.Int64]
			default:
				t = c.typ(w[1])
			}
			for _, o := range e.Run(st, f, []*Term{D, key}, nil) {
				if o.panic != nil {
					continue
				}
				s := o.st
				has, val := s.mapGet(D, key, any)
				is := e.isType(s, val, t)
				name := "lookup:" + w[0]
				if s.isNil(o.vals[1]) {
					x := e.payload(s, val, t)
					good := s.holds(has) && s.holds(is) && sameValue(s, o.vals[0], x)
					if w[0] == "GetUint" {
						good = good && s.holds(Ge0(I(x)))
					}
					c.check(good, name, where, "a key that is there, with a value of the type asked for, gives that value", o.vals[0].String(), factsText(s))
					continue
				}
				good := s.never(has) || s.never(is)
				if w[0] == "GetUint" && !good {
					good = s.holds(Lt(I(e.payload(s, val, t)), IntC(0)))
				}
				c.check(good, name+":error", where, "only a key that is missing, or has a value of another type, gives an error", factsText(s))
			}
			c.done(e, "lookup")
		}
		c.check(n >= 4, "lookup:all", "", "the accessors of a dictionary are known")
	})
}

func init() {
	register(&Prop{
		id: "C24", title: "Encoding is exact and canonical",
		rule:   "The encoder is interpreted for a value of every type, nested values standing for themselves: what is written is the one bencoding of the value; the keys of a dictionary are those the loop over it gives, sorted, and the values are theirs.",
		assume: []string{"a range over a map gives every key once", "sort.Strings sorts by bytes"},
		min:    map[string]int{"encode": 1, "value": 20},
		run:    runC24,
	})
	register(&Prop{
		id: "C25", title: "Decoding is exact",
		rule:   "Each function of the decoder is interpreted for arbitrary data and position: what it accepts is the grammar, the value is the one that the bytes stand for, and the next value starts where this one ended.",
		assume: []string{"strconv parses decimal numbers"},
		min:    map[string]int{"int": 5, "string": 4, "list": 8, "dict": 8, "decode": 4, "lookup": 8},
		run:    runC25,
	})
}

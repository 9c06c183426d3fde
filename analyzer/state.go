package main

// Abstract states: memory cells addressed by terms, heap epochs for the
// contents nobody has looked at yet, facts, and ghost variables for the
// typestate that the properties track.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

type State struct {
	mem   map[*Term]*Term
	ep    map[string]string
	f     *Facts
	ghost map[string]*Term
	cnt   map[string]int
	mat   map[*Term]int
	epver int
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, ep: map[string]string{}, f: newFacts(), ghost: map[string]*Term{}, cnt: map[string]int{}, mat: map[*Term]int{}}
}

func (s *State) clone() *State {
	n := &State{f: s.f, epver: s.epver}
	n.mem = make(map[*Term]*Term, len(s.mem)+4)
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.ep = make(map[string]string, len(s.ep))
	for k, v := range s.ep {
		n.ep[k] = v
	}
	n.ghost = make(map[string]*Term, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.cnt = make(map[string]int, len(s.cnt))
	for k, v := range s.cnt {
		n.cnt[k] = v
	}
	n.mat = make(map[*Term]int, len(s.mat))
	for k, v := range s.mat {
		n.mat[k] = v
	}
	return n
}

// with returns a copy in which b holds, or nil when that is impossible.
func (s *State) with(b *Term) *State {
	f := s.f.assume(b)
	if f == nil {
		return nil
	}
	if f == s.f {
		return s
	}
	n := s.clone()
	n.f = f
	return n
}

// learn adds a fact in place; false when contradictory.
func (s *State) learn(b *Term) bool {
	f := s.f.assume(b)
	if f == nil {
		s.f = s.f.fork()
		s.f.bot = true
		return false
	}
	s.f = f
	return true
}

func (s *State) holds(b *Term) bool { return s.f.decide(b) == 1 }
func (s *State) never(b *Term) bool { return s.f.decide(b) == -1 }

func (s *State) isNil(t *Term) bool {
	return t.k == KNil || s.f.find(t).k == KNil
}
func (s *State) nonNil(t *Term) bool {
	return nonNilTerm(t) || s.f.decide(EqT(t, TNil)) == -1
}

// ---------------------------------------------------------------- objects

type objInfo struct {
	typ  types.Type // element type (pointee) or slice element type for arrays
	capT *Term      // number of elements of an array object
	kind string     // "var", "array", "map", "chan"
	site string
	pos  string
	// a variable of a function that nothing else points to
	block interface{}
	frame string
}

var objs []*objInfo
var objByKey = map[string]*Term{}

func newObj(key string, oi *objInfo) *Term {
	if t, ok := objByKey[key]; ok {
		// the array size may differ between visits
		objs[t.n].capT = oi.capT
		return t
	}
	objs = append(objs, oi)
	t := mk(KPtr, "", int64(len(objs)-1), nil, nil)
	objByKey[key] = t
	return t
}

func rootOf(a *Term) *Term {
	for a.k == KFld || a.k == KElem || a.k == KBArr {
		a = a.args[0]
	}
	return a
}

func isFresh(root *Term) bool { return root.k == KPtr }

var addrTyp = map[*Term]types.Type{}

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// openStruct: struct types whose fields the analysis tracks one by one.
func openStruct(t types.Type) *types.Struct {
	s := structOf(t)
	if s == nil {
		return nil
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if p := n.Obj().Pkg(); p != nil && !isRepoPkg(p.Path()) {
			return nil
		}
	}
	return s
}

func isRepoPkg(path string) bool { return path == "gotor" || strings.HasPrefix(path, "gotor/") }

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func FldAddr(p *Term, st types.Type, i int) *Term {
	name := strconv.Itoa(i)
	if s := structOf(st); s != nil && i < s.NumFields() {
		name = s.Field(i).Name()
	}
	a := mk(KFld, name, int64(i), nil, nil, p)
	if _, ok := fldOwner[a]; !ok {
		fldOwner[a] = shortType(st)
	}
	return a
}

var fldOwner = map[*Term]string{}

func sigOf(a *Term, typ types.Type) string {
	switch a.k {
	case KFld:
		return "F:" + fldOwner[a] + "." + strconv.FormatInt(a.n, 10)
	case KElem:
		if typ != nil {
			return "E:" + shortType(typ)
		}
		return "E:?"
	case KBArr:
		return "B:" + strconv.Itoa(a.args[0].id)
	case KGlob:
		return "G:" + a.s
	}
	if typ != nil {
		return "D:" + shortType(typ)
	}
	return "D:?"
}

func zeroValue(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return IntC(0)
		case u.Info()&types.IsString != 0:
			return Seq()
		case u.Info()&types.IsBoolean != 0:
			return TFalse
		case u.Info()&types.IsFloat != 0:
			return FloatOfInt(IntC(0))
		}
	case *types.Struct:
		if openStruct(t) == nil {
			return App("zero:"+shortType(t), t)
		}
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroValue(u.Field(i).Type()))
		}
		return mk(KStruct, "", 0, t, nil, fs...)
	case *types.Array:
		if isByte(u.Elem()) {
			return arrVal(Seq(mkZero(IntC(u.Len()))), t)
		}
		if et, _ := smallArray(t); et != nil {
			return arrTuple(t, func(_ int64, et types.Type) *Term { return zeroValue(et) })
		}
		return App("zero:"+shortType(t), t)
	}
	return TNil
}

// smallArray: arrays that are followed element by element when they are copied.
func smallArray(t types.Type) (types.Type, int64) {
	if t == nil {
		return nil, 0
	}
	a, ok := t.Underlying().(*types.Array)
	if !ok || isByte(a.Elem()) || a.Len() > 8 {
		return nil, 0
	}
	return a.Elem(), a.Len()
}

func arrTuple(t types.Type, elem func(i int64, et types.Type) *Term) *Term {
	et, n := smallArray(t)
	var fs []*Term
	for i := int64(0); i < n; i++ {
		fs = append(fs, elem(i, et))
	}
	return mk(KTuple, "arr", 0, t, nil, fs...)
}

func arrElem(v *Term, i int64, et types.Type) *Term {
	if v.k == KTuple && v.s == "arr" && i < int64(len(v.args)) {
		return v.args[i]
	}
	return opaqueValue(mk(KApp, "fld", i, et, nil, v), et)
}

// arrVal is the value of a byte array.
func arrVal(s *Term, t types.Type) *Term { return App("arrval", t, s) }

func byteArray(t types.Type) (int64, bool) {
	if t == nil {
		return 0, false
	}
	a, ok := t.Underlying().(*types.Array)
	if !ok || !isByte(a.Elem()) {
		return 0, false
	}
	return a.Len(), true
}

var arrLen = map[*Term]int64{}

func FloatOfInt(x *Term) *Term { return mk(KFloat, "i2f", 0, nil, nil, I(x)) }

// opaqueValue turns an opaque atom of a type into a value term.
func opaqueValue(a *Term, t types.Type) *Term {
	if intType(t) {
		return I(a)
	}
	if s := openStruct(t); s != nil {
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			fs = append(fs, opaqueValue(mk(KApp, "fld", int64(i), ft, nil, a), ft))
		}
		return mk(KStruct, "", 0, t, nil, fs...)
	}
	if et, _ := smallArray(t); et != nil {
		return arrTuple(t, func(i int64, et types.Type) *Term { return arrElem(a, i, et) })
	}
	if tp, ok := t.(*types.Tuple); ok {
		var fs []*Term
		for i := 0; i < tp.Len(); i++ {
			ft := tp.At(i).Type()
			fs = append(fs, opaqueValue(mk(KApp, "fld", int64(i), ft, nil, a), ft))
		}
		return mk(KTuple, "", 0, nil, nil, fs...)
	}
	return a
}

// ---------------------------------------------------------------- memory

// immutableSig: fields that are never written after their object was built.
var immutableSig = map[string]bool{}

func (s *State) epoch(sig string) string {
	if immutableSig[sig] {
		return s.ep[sig]
	}
	return s.ep[sig] + s.ep["*"]
}

func (s *State) bump(sig, tag string) {
	s.ep[sig] = s.ep[sig] + tag
	if len(s.ep[sig]) > 40 {
		s.ep[sig] = "#" + strconv.Itoa(mkLit(s.ep[sig]).id)
	}
	s.epver++
}

// initial is the content of a cell nobody has written.
func (s *State) initial(a *Term, typ types.Type) *Term {
	root := rootOf(a)
	sig := sigOf(a, typ)
	if isFresh(root) {
		oi := objs[root.n]
		e := s.ep["O:"+strconv.FormatInt(root.n, 10)]
		if e == "" && oi.kind != "opaque" {
			return zeroValue(typ)
		}
		return opaqueValue(mk(KLoad, e, 0, typ, nil, a), typ)
	}
	if ownedRoot(root) {
		return opaqueValue(mk(KLoad, s.ep[sig]+s.ep["O:"+strconv.Itoa(root.id)], 0, typ, nil, a), typ)
	}
	if e, ok := s.ep["O:"+strconv.Itoa(root.id)]; ok {
		return opaqueValue(mk(KLoad, s.epoch(sig)+"/"+e, 0, typ, nil, a), typ)
	}
	return opaqueValue(mk(KLoad, s.epoch(sig), 0, typ, nil, a), typ)
}

func (s *State) load(a *Term, typ types.Type) *Term {
	if st := openStruct(typ); st != nil {
		var fs []*Term
		for i := 0; i < st.NumFields(); i++ {
			fs = append(fs, s.load(FldAddr(a, typ, i), st.Field(i).Type()))
		}
		return mk(KStruct, "", 0, typ, nil, fs...)
	}
	if et, _ := smallArray(typ); et != nil {
		return arrTuple(typ, func(i int64, et types.Type) *Term { return s.load(mk(KElem, "", 0, nil, nil, a, IntC(i)), et) })
	}
	if v, ok := s.mem[a]; ok {
		return v
	}
	addrTyp[a] = typ
	if n, ok := byteArray(typ); ok {
		arrLen[a] = n
		return arrVal(s.bytes(a), typ)
	}
	if a.k == KElem {
		base, idx := a.args[0], a.args[1]
		if isByte(typ) {
			if c := s.bytes(base); c != nil {
				if b := seqByte(s.f, c, idx); b != nil {
					return b
				}
				return I(App("byteat", byteType, c, I(idx)))
			}
		}
		unknown := false
		for k, v := range s.mem {
			if k.k != KElem || k.args[0] != base || k == a {
				continue
			}
			switch s.f.decide(keyEq(k.args[1], idx)) {
			case 1:
				return v
			case 0:
				unknown = true
			}
		}
		if unknown {
			return opaqueValue(mk(KLoad, "?"+strconv.Itoa(s.epver), 0, typ, nil, a), typ)
		}
		if p, ok := s.mem[App("prev", nil, base)]; ok && idx.k == KInt {
			// a copy made by append: older elements come from the old array
			if s.holds(Lt(idx, p.args[2])) {
				return s.load(mk(KElem, "", 0, nil, nil, p.args[0], Add(p.args[1], idx)), typ)
			}
			return opaqueValue(mk(KLoad, "app"+strconv.Itoa(s.epver), 0, typ, nil, a), typ)
		}
	} else {
		// a field of an element with an index that is only semantically equal
		if e, path := elemAncestor(a); e != nil && e.args[1].k == KInt {
			for k := range s.mem {
				e2, path2 := elemAncestor(k)
				if e2 == nil || e2 == e || e2.args[0] != e.args[0] || path != path2 {
					continue
				}
				switch s.f.decide(keyEq(e2.args[1], e.args[1])) {
				case 1:
					return s.mem[k]
				case 0:
					return opaqueValue(mk(KLoad, "?"+strconv.Itoa(s.epver), 0, typ, nil, a), typ)
				}
			}
			if p, ok := s.mem[App("prev", nil, e.args[0])]; ok && s.holds(Lt(e.args[1], p.args[2])) {
				ne := mk(KElem, "", 0, nil, nil, p.args[0], Add(p.args[1], e.args[1]))
				return s.load(replaceElem(a, ne), typ)
			}
		}
	}
	return s.initial(a, typ)
}

func replaceElem(a, ne *Term) *Term {
	if a.k == KElem {
		return ne
	}
	r := mk(KFld, a.s, a.n, nil, nil, replaceElem(a.args[0], ne))
	fldOwner[r] = fldOwner[a]
	return r
}

func elemAncestor(a *Term) (*Term, string) {
	path := ""
	for a.k == KFld {
		path = "." + strconv.FormatInt(a.n, 10) + path
		a = a.args[0]
	}
	if a.k == KElem {
		return a, path
	}
	return nil, ""
}

func keyEq(a, b *Term) *Term { return EqT(a, b) }

func (s *State) store(a *Term, v *Term, typ types.Type) {
	if st := openStruct(typ); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			s.store(FldAddr(a, typ, i), structField(v, i, ft), ft)
		}
		return
	}
	if et, n := smallArray(typ); et != nil {
		for i := int64(0); i < n; i++ {
			s.store(mk(KElem, "", 0, nil, nil, a, IntC(i)), arrElem(v, i, et), et)
		}
		return
	}
	addrTyp[a] = typ
	root := rootOf(a)
	if n, ok := byteArray(typ); ok {
		arrLen[a] = n
		c := Seq(mkSub(v, IntC(0), IntC(n)))
		if v.k == KApp && v.s == "arrval" {
			c = v.args[0]
		}
		s.mem[mk(KBArr, "", 0, nil, nil, a)] = c
		return
	}
	if a.k == KElem && isByte(typ) {
		s.writeBytes(a.args[0], a.args[1], Seq(mkByte(I(v))))
		return
	}
	if a.k == KElem || func() bool { e, _ := elemAncestor(a); return e != nil }() {
		e, path := elemAncestor(a)
		for k := range s.mem {
			if k == a {
				continue
			}
			e2, path2 := elemAncestor(k)
			if e2 == nil || e2.args[0] != e.args[0] || path != path2 {
				continue
			}
			if s.f.decide(keyEq(e2.args[1], e.args[1])) != -1 {
				delete(s.mem, k)
				s.bump("O:"+strconv.FormatInt(rootOf(k).n, 10), "w")
				if !isFresh(root) {
					s.bump("O:"+strconv.Itoa(root.id), "w")
				}
			}
		}
	}
	if !isFresh(root) && root.k != KGlob {
		sig := sigOf(a, typ)
		for k := range s.mem {
			if k == a || k.k == KBArr {
				continue
			}
			r := rootOf(k)
			if isPG(r) || isFresh(r) || r.k == KGlob || r.k == KApp && (r.s == "prev" || strings.HasPrefix(r.s, "gh:")) {
				continue
			}
			if sigOf(k, addrTyp[k]) != sig {
				continue
			}
			if k.k == KFld && a.k == KFld && s.f.decide(EqT(k.args[0], a.args[0])) == -1 {
				continue
			}
			if k.k == KElem && a.k == KElem && k.args[0] == a.args[0] {
				continue
			}
			delete(s.mem, k)
		}
		s.bump(sig, "w")
	}
	s.mem[a] = v
}

// pg makes a ghost cell that a property keeps in the memory of the state.
func pg(name string, t types.Type) *Term {
	a := App("pg:"+name, nil)
	addrTyp[a] = t
	return a
}

func isPG(k *Term) bool { return k.k == KApp && strings.HasPrefix(k.s, "pg:") }

func structField(v *Term, i int, ft types.Type) *Term {
	if v.k == KStruct || v.k == KTuple {
		return v.args[i]
	}
	return opaqueValue(mk(KApp, "fld", int64(i), ft, nil, v), ft)
}

// arrayCap is the number of elements of an array object.
func (s *State) arrayCap(base *Term) *Term {
	if base.k == KPtr && objs[base.n].capT != nil {
		return objs[base.n].capT
	}
	if base.k == KArr {
		return I(App("cap", lenType, base.args[0]))
	}
	if n, ok := arrLen[base]; ok {
		return IntC(n)
	}
	return I(App("cap", lenType, base))
}

// bytes is the content of a byte array object.
func (s *State) bytes(base *Term) *Term {
	if base.k == KNil {
		return Seq()
	}
	a := mk(KBArr, "", 0, nil, nil, base)
	if v, ok := s.mem[a]; ok {
		return v
	}
	n := s.arrayCap(base)
	if r := rootOf(base); r.k == KPtr && objs[r.n].kind != "opaque" && s.ep["B:"+strconv.Itoa(base.id)] == "" && s.ep["O:"+strconv.FormatInt(r.n, 10)] == "" {
		return Seq(mkZero(n))
	}
	src := mk(KLoad, s.ep["B:"+strconv.Itoa(base.id)], 0, nil, nil, a)
	return Seq(mkSub(src, IntC(0), n))
}

var freshSeq int

func freshName(p string) string {
	freshSeq++
	return fmt.Sprintf("%s#%d", p, freshSeq)
}

// writeBytes overwrites [off, off+len(v)) of a byte array.
func (s *State) writeBytes(base, off, v *Term) {
	a := mk(KBArr, "", 0, nil, nil, base)
	addrTyp[a] = nil
	c := s.bytes(base)
	n := s.arrayCap(base)
	vl := seqLen(v)
	if lc, ok := vl.constInt(); ok && lc.Sign() == 0 {
		return
	}
	end := Add(I(off), vl)
	front := seqSlice(s.f, c, IntC(0), off)
	back := seqSlice(s.f, c, end, Sub(n, end))
	if front == nil || back == nil {
		if s.holds(EqI(off, IntC(0))) {
			front = Seq()
		}
		if s.holds(EqI(end, n)) {
			back = Seq()
		}
	}
	unk := func(l *Term) *Term {
		return Seq(mkSub(Sym(freshName("bytes"), nil), IntC(0), l))
	}
	if front == nil {
		front = unk(I(off))
	}
	if back == nil {
		back = unk(Sub(n, end))
	}
	s.mem[a] = Seq(front, v, back)
}

// havocBytes makes [off, off+n) of a byte array unknown; src names the content.
func (s *State) havocBytes(base, off, n, src *Term) {
	s.writeBytes(base, off, Seq(mkSub(src, IntC(0), n)))
}

// slice parts
func parts(t *Term) (base, off, ln, cp *Term) {
	switch t.k {
	case KSlice:
		return t.args[0], t.args[1], t.args[2], t.args[3]
	case KNil:
		return TNil, IntC(0), IntC(0), IntC(0)
	}
	return mk(KArr, "", 0, nil, nil, t), IntC(0), I(App("len", lenType, t)), I(App("cap", lenType, t))
}

func mkSlice(base, off, ln, cp *Term) *Term {
	if base.k == KArr && off == IntC(0) && ln == I(App("len", lenType, base.args[0])) && cp == I(App("cap", lenType, base.args[0])) {
		return base.args[0]
	}
	return mk(KSlice, "", 0, nil, nil, base, I(off), I(ln), I(cp))
}

// sliceContent: the bytes of a byte slice as a sequence (always succeeds).
func (s *State) sliceContent(t *Term) *Term {
	base, off, ln, _ := parts(s.f.find(t))
	if base.k == KNil {
		return Seq()
	}
	c := s.bytes(base)
	if r := seqSlice(s.f, c, off, ln); r != nil {
		return r
	}
	return Seq(mkSub(App("cut", nil, c, off, ln), IntC(0), ln))
}

// strSeq is a string as a sequence.
func (s *State) strSeq(t *Term) *Term {
	t = s.f.find(t)
	return asSeq(t)
}

func (s *State) lenOf(t *Term, typ types.Type) *Term {
	if isString(typ) {
		return seqLen(asSeq(t))
	}
	switch typ.Underlying().(type) {
	case *types.Slice:
		_, _, l, _ := parts(s.f.find(t))
		return l
	case *types.Map:
		return s.mapLen(t)
	case *types.Array:
		return IntC(typ.Underlying().(*types.Array).Len())
	case *types.Pointer:
		if a, ok := typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			return IntC(a.Len())
		}
	}
	return I(App("len", lenType, t))
}

// ---------------------------------------------------------------- maps

func (s *State) mapLen(m *Term) *Term {
	if s.isNil(m) {
		return IntC(0)
	}
	a := App("gh:maplen", nil, m)
	if v, ok := s.mem[a]; ok {
		return v
	}
	if isFresh(m) && s.ep["M:"+strconv.Itoa(m.id)] == "" {
		return IntC(0)
	}
	return I(mk(KApp, "len", 0, lenType, nil, m, mkLit(s.ep["M:"+strconv.Itoa(m.id)]+s.ep["*"])))
}

// mapHas returns the predicate that m has key k, and the value it then has.
func (s *State) mapGet(m, k *Term, vt types.Type) (has *Term, val *Term) {
	if s.isNil(m) {
		return TFalse, zeroValue(vt)
	}
	ha := App("gh:has", nil, m, k)
	va := mk(KElem, "", 0, nil, nil, m, k)
	unknown := false
	if h, ok := s.mem[ha]; ok {
		return h, s.load(va, vt)
	}
	for c, h := range s.mem {
		if c.k == KApp && c.s == "gh:has" && c.args[0] == m {
			switch s.f.decide(keyEq(c.args[1], k)) {
			case 1:
				return h, s.load(mk(KElem, "", 0, nil, nil, m, c.args[1]), vt)
			case 0:
				unknown = true
			}
		}
	}
	e := s.ep["M:"+strconv.Itoa(m.id)]
	if !isFresh(m) {
		e += s.ep["*"]
	}
	if unknown {
		e += "?" + strconv.Itoa(s.epver)
	} else if isFresh(m) && e == "" {
		return TFalse, zeroValue(vt)
	}
	return mk(KApp, "has", 0, types.Typ[types.Bool], nil, m, k, mkLit(e)),
		opaqueValue(mk(KApp, "mapval", 0, vt, nil, m, k, mkLit(e)), vt)
}

func (s *State) mapSet(m, k, v *Term, vt types.Type) {
	has, _ := s.mapGet(m, k, vt)
	l := s.mapLen(m)
	s.mapForget(m, k)
	s.mem[App("gh:has", nil, m, k)] = TTrue
	s.store(mk(KElem, "", 0, nil, nil, m, k), v, vt)
	switch s.f.decide(has) {
	case 1:
		s.mem[App("gh:maplen", nil, m)] = l
	case -1:
		s.mem[App("gh:maplen", nil, m)] = AddC(l, 1)
	default:
		s.mem[App("gh:maplen", nil, m)] = I(Sym("nat:"+freshName("maplen"), lenType))
	}
}

func (s *State) mapDelete(m, k *Term, vt types.Type) {
	has, _ := s.mapGet(m, k, vt)
	l := s.mapLen(m)
	s.mapForget(m, k)
	s.mem[App("gh:has", nil, m, k)] = TFalse
	switch s.f.decide(has) {
	case 1:
		s.mem[App("gh:maplen", nil, m)] = AddC(l, -1)
	case -1:
		s.mem[App("gh:maplen", nil, m)] = l
	default:
		s.mem[App("gh:maplen", nil, m)] = I(Sym("nat:"+freshName("maplen"), lenType))
	}
}

// mapForget drops what is known about keys that may be k.
func (s *State) mapForget(m, k *Term) {
	del := false
	for c := range s.mem {
		if c.k == KApp && c.s == "gh:has" && c.args[0] == m && c.args[1] != k {
			if s.f.decide(keyEq(c.args[1], k)) != -1 {
				delete(s.mem, c)
				del = true
			}
		}
	}
	if del {
		s.ep["M:"+strconv.Itoa(m.id)] += "w"
	}
	s.epver++
}

// havocHeap forgets everything that other goroutines may have changed.
func (s *State) havocHeap(tag string, keep func(a *Term) bool) {
	for k := range s.mem {
		r := rootOf(k)
		if isFresh(r) || k.k == KBArr || ownedRoot(r) {
			continue
		}
		if k.k == KApp {
			continue
		}
		if keep != nil && keep(k) {
			continue
		}
		if (k.k == KFld || k.k == KGlob) && immutableSig[sigOf(k, nil)] {
			continue
		}
		delete(s.mem, k)
	}
	s.ep["*"] = s.ep["*"] + tag
	s.epver++
}

var ownedMemo = map[*Term]bool{}

// ownedRoot: objects only reached through a value that a single goroutine
// holds; what others do does not change them.
func ownedRoot(r *Term) bool {
	if v, ok := ownedMemo[r]; ok {
		return v
	}
	set := map[*Term]bool{}
	leaves(r, set, map[*Term]bool{})
	v := false
	for l := range set {
		if l.k == KSym && strings.HasPrefix(l.s, "own:") {
			v = true
		}
	}
	ownedMemo[r] = v
	return v
}

package main

// Terms: the hash-consed value domain of the abstract interpreter. Integers are
// polynomials with big coefficients over opaque atoms; everything else is a
// constructor or an opaque symbol.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Kind uint8

const (
	KInt  Kind = iota // polynomial
	KMono             // product of atoms (only inside polynomials)
	KSym              // opaque symbol
	KApp              // uninterpreted operator
	KTrue             // booleans
	KFalse
	KGe0  // args[0] >= 0
	KEq0  // args[0] == 0
	KEqT  // args[0] == args[1]
	KNot  // negation
	KNil  // nil of any type
	KPtr  // pointer to an allocation: n = object number
	KGlob // address of a global
	KFld  // address of field n of *args[0]
	KElem // address of element args[1] of the array object args[0]
	KArr  // backing array of an opaque slice
	KBArr // bytes cell address of an array object
	KLoad // initial content of the cell args[0]; s = epoch
	KSlice
	KStruct
	KTuple
	KIface // obj = dynamic type; args[0] = value
	KFn    // obj = *ssa.Function; args = bindings
	KSeq   // byte sequence: args = segments
	SLit   // segment: literal bytes s
	SByte  // segment: one byte, args[0] is an integer
	SSub   // segment: args[0] source, args[1] offset, args[2] length
	SZero  // segment: args[0] zero bytes
	SDec   // segment: decimal form of args[0]
	SRaw   // segment: opaque text with tag s, args
	KFloat // opaque or structured float: s = op
	KDef   // deferred closure marker
)

type PTerm struct {
	m *Term // atom or KMono
	c *big.Int
}

type Term struct {
	id   int
	k    Kind
	args []*Term
	s    string
	n    int64
	typ  types.Type
	obj  interface{}

	// KInt
	c0 *big.Int
	ps []PTerm

	key string
}

var (
	termTab = map[string]*Term{}
	termSeq int
)

func intern(key string, mk func() *Term) *Term {
	if t, ok := termTab[key]; ok {
		return t
	}
	t := mk()
	termSeq++
	t.id = termSeq
	t.key = key
	termTab[key] = t
	return t
}

var typeIDs = map[string]int{}
var typeIDcache = map[types.Type]int{}

func typeID(t types.Type) int {
	if t == nil {
		return 0
	}
	if i, ok := typeIDcache[t]; ok {
		return i
	}
	s := types.TypeString(t, nil)
	i, ok := typeIDs[s]
	if !ok {
		i = len(typeIDs) + 1
		typeIDs[s] = i
	}
	typeIDcache[t] = i
	return i
}

func mk(k Kind, s string, n int64, typ types.Type, obj interface{}, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(k)))
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(n, 10))
	b.WriteByte('|')
	switch k {
	case KSym, KApp, KLoad, KIface, KStruct:
		b.WriteString(strconv.Itoa(typeID(typ)))
	}
	if obj != nil {
		fmt.Fprintf(&b, "|%p", obj)
	}
	b.WriteByte('|')
	b.WriteString(s)
	return intern(b.String(), func() *Term {
		return &Term{k: k, args: args, s: s, n: n, typ: typ, obj: obj}
	})
}

var (
	TTrue  = mk(KTrue, "", 0, nil, nil)
	TFalse = mk(KFalse, "", 0, nil, nil)
	TNil   = mk(KNil, "", 0, nil, nil)
)

func Sym(name string, typ types.Type) *Term { return mk(KSym, name, 0, typ, nil) }
func App(op string, typ types.Type, args ...*Term) *Term {
	return mk(KApp, op, 0, typ, nil, args...)
}

// ---------------------------------------------------------------- integers

var bigZero = big.NewInt(0)
var bigOne = big.NewInt(1)

func polyTerm(c0 *big.Int, ps []PTerm) *Term {
	out := ps[:0:0]
	for _, p := range ps {
		if p.c.Sign() != 0 {
			out = append(out, p)
		}
	}
	if !sort.SliceIsSorted(out, func(i, j int) bool { return out[i].m.id < out[j].m.id }) {
		sort.Slice(out, func(i, j int) bool { return out[i].m.id < out[j].m.id })
	}
	num := func(b []byte, c *big.Int) []byte {
		if c.IsInt64() {
			return strconv.AppendInt(b, c.Int64(), 10)
		}
		return c.Append(b, 10)
	}
	b := make([]byte, 0, 64)
	b = num(append(b, 'P'), c0)
	for _, p := range out {
		b = num(append(b, ';'), p.c)
		b = strconv.AppendInt(append(b, '*'), int64(p.m.id), 10)
	}
	return intern(string(b), func() *Term {
		return &Term{k: KInt, c0: new(big.Int).Set(c0), ps: out}
	})
}

func IntBig(v *big.Int) *Term { return polyTerm(v, nil) }
func IntC(v int64) *Term      { return polyTerm(big.NewInt(v), nil) }

// I makes an integer term out of an atom.
func I(a *Term) *Term {
	if a.k == KInt {
		return a
	}
	return polyTerm(bigZero, []PTerm{{a, bigOne}})
}

func (t *Term) isInt() bool { return t.k == KInt }

func (t *Term) constInt() (*big.Int, bool) {
	if t.k == KInt && len(t.ps) == 0 {
		return t.c0, true
	}
	return nil, false
}

func (t *Term) constI64() (int64, bool) {
	c, ok := t.constInt()
	if !ok || !c.IsInt64() {
		return 0, false
	}
	return c.Int64(), true
}

// atom returns the atom when the integer is exactly one atom.
func (t *Term) atom() *Term {
	if t.k == KInt && len(t.ps) == 1 && t.c0.Sign() == 0 && t.ps[0].c.Cmp(bigOne) == 0 {
		return t.ps[0].m
	}
	return nil
}

func Add(a, b *Term) *Term { return lincomb(a, bigOne, b, bigOne) }
func Sub(a, b *Term) *Term { return lincomb(a, bigOne, b, big.NewInt(-1)) }
func AddC(a *Term, c int64) *Term {
	return Add(a, IntC(c))
}
func MulC(a *Term, c int64) *Term { return MulB(a, big.NewInt(c)) }
func MulB(a *Term, c *big.Int) *Term {
	ps := make([]PTerm, 0, len(a.ps))
	for _, p := range a.ps {
		ps = append(ps, PTerm{p.m, new(big.Int).Mul(p.c, c)})
	}
	return polyTerm(new(big.Int).Mul(a.c0, c), ps)
}
func Neg(a *Term) *Term { return MulC(a, -1) }

func lincomb(a *Term, ca *big.Int, b *Term, cb *big.Int) *Term {
	if a.k != KInt {
		a = I(a)
	}
	if b.k != KInt {
		b = I(b)
	}
	mul := func(c, k *big.Int) *big.Int {
		if k == bigOne {
			return c
		}
		return new(big.Int).Mul(c, k)
	}
	c0 := new(big.Int).Add(mul(a.c0, ca), mul(b.c0, cb))
	ps := make([]PTerm, 0, len(a.ps)+len(b.ps))
	x, y := a.ps, b.ps
	for len(x) > 0 || len(y) > 0 {
		switch {
		case len(y) == 0 || len(x) > 0 && x[0].m.id < y[0].m.id:
			ps = append(ps, PTerm{x[0].m, mul(x[0].c, ca)})
			x = x[1:]
		case len(x) == 0 || y[0].m.id < x[0].m.id:
			ps = append(ps, PTerm{y[0].m, mul(y[0].c, cb)})
			y = y[1:]
		default:
			c := new(big.Int).Mul(y[0].c, cb)
			ps = append(ps, PTerm{x[0].m, c.Add(c, mul(x[0].c, ca))})
			x, y = x[1:], y[1:]
		}
	}
	return foldBytes(polyTerm(c0, ps))
}

func monoAtoms(m *Term) []*Term {
	if m.k == KMono {
		return m.args
	}
	return []*Term{m}
}

func mkMono(atoms []*Term) *Term {
	if len(atoms) == 1 {
		return atoms[0]
	}
	as := append([]*Term(nil), atoms...)
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	return mk(KMono, "", 0, nil, nil, as...)
}

func Mul(a, b *Term) *Term {
	a, b = I(a), I(b)
	if c, ok := a.constInt(); ok {
		return MulB(b, c)
	}
	if c, ok := b.constInt(); ok {
		return MulB(a, c)
	}
	res := MulB(b, a.c0)
	for _, pa := range a.ps {
		t := MulB(polyTerm(bigZero, []PTerm{{pa.m, bigOne}}), new(big.Int).Mul(pa.c, b.c0))
		res = Add(res, t)
		for _, pb := range b.ps {
			m := mkMono(append(append([]*Term(nil), monoAtoms(pa.m)...), monoAtoms(pb.m)...))
			res = Add(res, polyTerm(bigZero, []PTerm{{m, new(big.Int).Mul(pa.c, pb.c)}}))
		}
	}
	return res
}

// foldBytes folds a complete group c*(byte(v,0) + 256*byte(v,1) + ...) back to c*v.
func foldBytes(t *Term) *Term {
	has := false
	for _, p := range t.ps {
		if p.m.k == KApp && p.m.s == "byteof" {
			has = true
			break
		}
	}
	if !has {
		return t
	}
	type grp struct {
		n  int
		by map[int64]*big.Int
	}
	gs := map[*Term]*grp{}
	var order []*Term
	for _, p := range t.ps {
		if p.m.k == KApp && p.m.s == "byteof" {
			v := p.m.args[0]
			g := gs[v]
			if g == nil {
				g = &grp{n: int(p.m.args[1].c0.Int64()), by: map[int64]*big.Int{}}
				gs[v] = g
				order = append(order, v)
			}
			k, _ := p.m.args[2].constI64()
			g.by[k] = p.c
		}
	}
	for _, v := range order {
		g := gs[v]
		if len(g.by) != g.n {
			continue
		}
		c := g.by[0]
		ok := c != nil
		for k := int64(1); ok && k < int64(g.n); k++ {
			e := new(big.Int).Lsh(c, uint(8*k))
			if g.by[k] == nil || g.by[k].Cmp(e) != 0 {
				ok = false
			}
		}
		if !ok {
			continue
		}
		ps := []PTerm{}
		for _, p := range t.ps {
			if p.m.k == KApp && p.m.s == "byteof" && p.m.args[0] == v {
				continue
			}
			ps = append(ps, p)
		}
		return foldBytes(Add(polyTerm(t.c0, ps), MulB(v, c)))
	}
	return t
}

// ByteOf is byte k (0 = least significant) of v, known to fit n bytes.
func ByteOf(v *Term, n int, k int) *Term {
	v = I(v)
	if c, ok := v.constInt(); ok && c.Sign() >= 0 {
		x := new(big.Int).Rsh(c, uint(8*k))
		x.And(x, big.NewInt(255))
		return IntBig(x)
	}
	// digits: polynomial of byte atoms with distinct powers of 256
	if v.c0.Sign() == 0 {
		digits := map[int]*Term{}
		ok := true
		for _, p := range v.ps {
			lo, hi := atomRange(p.m)
			if lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(big.NewInt(255)) > 0 {
				ok = false
				break
			}
			found := false
			for d := 0; d < n; d++ {
				if p.c.Cmp(new(big.Int).Lsh(bigOne, uint(8*d))) == 0 {
					if digits[d] != nil {
						ok = false
					}
					digits[d] = p.m
					found = true
				}
			}
			if !found {
				ok = false
				break
			}
		}
		if ok {
			if digits[k] != nil {
				return I(digits[k])
			}
			return IntC(0)
		}
	}
	return I(App("byteof", types.Typ[types.Uint8], v, IntC(int64(n)), IntC(int64(k))))
}

var two64 = new(big.Int).Lsh(bigOne, 64)

// typeRange gives the value range of an integer type.
func typeRange(t types.Type) (lo, hi *big.Int) {
	if t == nil {
		return nil, nil
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil
	}
	pw := func(n uint) *big.Int { return new(big.Int).Lsh(bigOne, n) }
	sg := func(n uint) (*big.Int, *big.Int) {
		return new(big.Int).Neg(pw(n - 1)), new(big.Int).Sub(pw(n-1), bigOne)
	}
	us := func(n uint) (*big.Int, *big.Int) { return big.NewInt(0), new(big.Int).Sub(pw(n), bigOne) }
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return sg(64)
	case types.Int8:
		return sg(8)
	case types.Int16:
		return sg(16)
	case types.Int32, types.UntypedRune:
		return sg(32)
	case types.Uint, types.Uint64, types.Uintptr:
		return us(64)
	case types.Uint8:
		return us(8)
	case types.Uint16:
		return us(16)
	case types.Uint32:
		return us(32)
	}
	return nil, nil
}

// MaxObj is the assumed maximal size of any object in memory (64 GiB).
var MaxObj = new(big.Int).Lsh(bigOne, 36)

func atomRange(a *Term) (lo, hi *big.Int) {
	switch a.k {
	case KMono:
		// product of non-negative atoms
		hi = big.NewInt(1)
		for _, x := range a.args {
			l, h := atomRange(x)
			if l == nil || l.Sign() < 0 {
				return nil, nil
			}
			if h == nil {
				hi = nil
			}
			if hi != nil {
				hi = new(big.Int).Mul(hi, h)
			}
		}
		return big.NewInt(0), hi
	case KApp:
		switch a.s {
		case "len", "cap":
			return bigZero, MaxObj
		case "bit":
			return bigZero, bigOne
		case "byteof", "byteat":
			return bigZero, big.NewInt(255)
		case "pow2":
			return bigOne, nil
		case "nat":
			return bigZero, nil
		}
	case KSym:
		if strings.HasPrefix(a.s, "nat:") {
			return bigZero, nil
		}
	}
	return typeRange(a.typ)
}

// ---------------------------------------------------------------- booleans

func Bool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

// simplifyCmp divides common positive factors out of a polynomial.
func stripPow2(p *Term) *Term {
	// remove a pow2 atom common to all monomials when there is no constant
	if len(p.ps) == 0 || p.c0.Sign() != 0 {
		return p
	}
	for _, a := range monoAtoms(p.ps[0].m) {
		if !(a.k == KApp && a.s == "pow2") {
			continue
		}
		all := true
		for _, q := range p.ps {
			f := false
			for _, b := range monoAtoms(q.m) {
				if a == b {
					f = true
				}
			}
			if !f {
				all = false
			}
		}
		if !all {
			continue
		}
		r := IntC(0)
		for _, q := range p.ps {
			rest := []*Term{}
			done := false
			for _, b := range monoAtoms(q.m) {
				if a == b && !done {
					done = true
					continue
				}
				rest = append(rest, b)
			}
			t := IntC(1)
			if len(rest) > 0 {
				t = I(mkMono(rest))
			}
			r = Add(r, MulB(t, q.c))
		}
		return stripPow2(r)
	}
	return p
}

func Ge0(p *Term) *Term {
	p = I(p)
	if c, ok := p.constInt(); ok {
		return Bool(c.Sign() >= 0)
	}
	// gcd tightening
	g := new(big.Int)
	for _, q := range p.ps {
		g.GCD(nil, nil, g, new(big.Int).Abs(q.c))
	}
	if g.Cmp(bigOne) > 0 {
		ps := make([]PTerm, len(p.ps))
		for i, q := range p.ps {
			ps[i] = PTerm{q.m, new(big.Int).Quo(q.c, g)}
		}
		c := new(big.Int)
		m := new(big.Int)
		c.DivMod(p.c0, g, m) // floor
		p = polyTerm(c, ps)
	}
	// pow2*bit - 1 >= 0  <=>  bit - 1 >= 0
	if len(p.ps) == 1 && p.c0.Cmp(big.NewInt(-1)) == 0 && p.ps[0].c.Cmp(bigOne) == 0 && p.ps[0].m.k == KMono {
		var rest []*Term
		for _, a := range p.ps[0].m.args {
			if a.k == KApp && a.s == "pow2" {
				continue
			}
			rest = append(rest, a)
		}
		if len(rest) > 0 && len(rest) < len(p.ps[0].m.args) {
			return Ge0(AddC(I(mkMono(rest)), -1))
		}
	}
	p = stripPow2(p)
	if c, ok := p.constInt(); ok {
		return Bool(c.Sign() >= 0)
	}
	// interval
	lo, hi := polyRange(p)
	if lo != nil && lo.Sign() >= 0 {
		return TTrue
	}
	if hi != nil && hi.Sign() < 0 {
		return TFalse
	}
	return mk(KGe0, "", 0, nil, nil, p)
}

func polyRange(p *Term) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(p.c0), new(big.Int).Set(p.c0)
	for _, q := range p.ps {
		l, h := atomRange(q.m)
		if q.c.Sign() < 0 {
			l, h = h, l
		}
		if lo != nil && l != nil {
			lo.Add(lo, new(big.Int).Mul(l, q.c))
		} else {
			lo = nil
		}
		if hi != nil && h != nil {
			hi.Add(hi, new(big.Int).Mul(h, q.c))
		} else {
			hi = nil
		}
	}
	return
}

func Eq0(p *Term) *Term {
	p = I(p)
	if c, ok := p.constInt(); ok {
		return Bool(c.Sign() == 0)
	}
	g := new(big.Int)
	for _, q := range p.ps {
		g.GCD(nil, nil, g, new(big.Int).Abs(q.c))
	}
	if new(big.Int).Mod(p.c0, g).Sign() != 0 {
		return TFalse
	}
	if p.ps[0].c.Sign() < 0 {
		g.Neg(g)
	}
	if g.Cmp(bigOne) != 0 {
		ps := make([]PTerm, len(p.ps))
		for i, q := range p.ps {
			ps[i] = PTerm{q.m, new(big.Int).Quo(q.c, g)}
		}
		p = polyTerm(new(big.Int).Quo(p.c0, g), ps)
	}
	p = stripPow2(p)
	if c, ok := p.constInt(); ok {
		return Bool(c.Sign() == 0)
	}
	lo, hi := polyRange(p)
	if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return TFalse
	}
	return mk(KEq0, "", 0, nil, nil, p)
}

func Not(b *Term) *Term {
	switch b.k {
	case KTrue:
		return TFalse
	case KFalse:
		return TTrue
	case KNot:
		return b.args[0]
	case KGe0: // p < 0  <=> -p-1 >= 0
		return Ge0(AddC(Neg(b.args[0]), -1))
	}
	return mk(KNot, "", 0, nil, nil, b)
}

func Le(a, b *Term) *Term { return Ge0(Sub(b, a)) }
func Lt(a, b *Term) *Term { return Ge0(AddC(Sub(b, a), -1)) }
func EqI(a, b *Term) *Term {
	return Eq0(Sub(a, b))
}

func EqT(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.k == KInt || b.k == KInt {
		return EqI(a, b)
	}
	// distinct allocations and nil
	if a.k == KNil && nonNilTerm(b) || b.k == KNil && nonNilTerm(a) {
		return TFalse
	}
	if a.k == KPtr && b.k == KPtr {
		return TFalse
	}
	if (a.k == KTrue || a.k == KFalse) && (b.k == KTrue || b.k == KFalse) {
		return TFalse
	}
	if a.k == KTrue {
		return b
	}
	if b.k == KTrue {
		return a
	}
	if a.k == KFalse {
		return Not(b)
	}
	if b.k == KFalse {
		return Not(a)
	}
	if a.k == KStruct && b.k == KStruct && len(a.args) == len(b.args) {
		// conjunction is not a term: only decided cases
		eq := true
		for i := range a.args {
			e := EqT(a.args[i], b.args[i])
			if e == TFalse {
				return TFalse
			}
			if e != TTrue {
				eq = false
			}
		}
		if eq {
			return TTrue
		}
	}
	if a.k == KIface && b.k == KIface {
		if !types.Identical(a.typ, b.typ) {
			return TFalse
		}
		return EqT(a.args[0], b.args[0])
	}
	if a.k == KSeq && b.k == KSeq {
		if d := seqDecide(a, b); d != nil {
			return d
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(KEqT, "", 0, nil, nil, a, b)
}

func nonNilTerm(t *Term) bool {
	switch t.k {
	case KPtr, KGlob, KFld, KElem, KIface, KFn:
		return true
	case KSlice:
		return t.args[0].k != KNil
	case KApp:
		return t.s == "newmap" || t.s == "newchan" || t.s == "newerr"
	}
	return false
}

func intType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}
func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// ---------------------------------------------------------------- sequences

// segLen is the length of a segment as an integer term.
func segLen(s *Term) *Term {
	switch s.k {
	case SLit:
		return IntC(int64(len(s.s)))
	case SByte:
		return IntC(1)
	case SSub:
		return s.args[2]
	case SZero:
		return s.args[0]
	}
	return I(App("len", types.Typ[types.Int], s))
}

func seqLen(s *Term) *Term {
	r := IntC(0)
	for _, g := range s.args {
		r = Add(r, segLen(g))
	}
	return r
}

func mkLit(s string) *Term { return mk(SLit, s, 0, nil, nil) }
func mkSub(src, off, n *Term) *Term {
	return mk(SSub, "", 0, nil, nil, src, I(off), I(n))
}
func mkByte(v *Term) *Term {
	v = I(v)
	if c, ok := v.constI64(); ok && c >= 0 && c < 256 {
		return mkLit(string([]byte{byte(c)}))
	}
	if a := v.atom(); a != nil && a.k == KApp && a.s == "byteat" {
		return mkSub(a.args[0], a.args[1], IntC(1))
	}
	return mk(SByte, "", 0, nil, nil, v)
}
func mkZero(n *Term) *Term {
	if c, ok := I(n).constI64(); ok && c >= 0 && c <= 512 {
		return mkLit(string(make([]byte, c)))
	}
	return mk(SZero, "", 0, nil, nil, I(n))
}

func Seq(segs ...*Term) *Term {
	var out []*Term
	for _, s := range segs {
		if s.k == KSeq {
			out = append(out, s.args...)
			continue
		}
		out = append(out, s)
	}
	// merge neighbours
	var res []*Term
	for _, s := range out {
		if c, ok := segLen(s).constInt(); ok && c.Sign() == 0 {
			continue
		}
		if len(res) > 0 {
			l := res[len(res)-1]
			if l.k == SLit && s.k == SLit {
				res[len(res)-1] = mkLit(l.s + s.s)
				continue
			}
			if l.k == SSub && s.k == SSub && l.args[0] == s.args[0] && Add(l.args[1], l.args[2]) == s.args[1] {
				res[len(res)-1] = mkSub(l.args[0], l.args[1], Add(l.args[2], s.args[2]))
				continue
			}
			if l.k == SZero && s.k == SZero {
				res[len(res)-1] = mkZero(Add(l.args[0], s.args[0]))
				continue
			}
		}
		res = append(res, s)
	}
	return mk(KSeq, "", 0, nil, nil, res...)
}

func StrLit(s string) *Term {
	if s == "" {
		return Seq()
	}
	return Seq(mkLit(s))
}

// asSeq views any string or byte content term as a sequence.
func asSeq(t *Term) *Term {
	if t.k == KSeq {
		return t
	}
	return Seq(mkSub(t, IntC(0), I(App("len", types.Typ[types.Int], t))))
}

func seqLit(t *Term) (string, bool) {
	if t.k != KSeq {
		return "", false
	}
	if len(t.args) == 0 {
		return "", true
	}
	if len(t.args) == 1 && t.args[0].k == SLit {
		return t.args[0].s, true
	}
	return "", false
}

// seqDecide decides equality of two sequences when their shape does.
func seqDecide(a, b *Term) *Term {
	la, oka := seqLit(a)
	lb, okb := seqLit(b)
	if oka && okb {
		return Bool(la == lb)
	}
	d := Sub(seqLen(a), seqLen(b))
	if Eq0(d) == TFalse {
		return TFalse
	}
	// empty versus unknown: length comparison
	if oka && la == "" {
		return Eq0(seqLen(b))
	}
	if okb && lb == "" {
		return Eq0(seqLen(a))
	}
	return nil
}

// subst replaces atoms by integer terms / terms in a term.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return substM(t, m, memo)
}

func substM(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	switch t.k {
	case KInt:
		r = t
		ch := false
		for _, p := range t.ps {
			for _, a := range monoAtoms(p.m) {
				if substM(a, m, memo) != a {
					ch = true
				}
			}
		}
		if ch {
			r = IntBig(t.c0)
			for _, p := range t.ps {
				x := IntBig(p.c)
				for _, a := range monoAtoms(p.m) {
					x = Mul(x, I(substM(a, m, memo)))
				}
				r = Add(r, x)
			}
		}
	default:
		if len(t.args) == 0 {
			r = t
			break
		}
		ch := false
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = substM(a, m, memo)
			if as[i] != a {
				ch = true
			}
		}
		r = t
		if ch {
			switch t.k {
			case KGe0:
				r = Ge0(as[0])
			case KEq0:
				r = Eq0(as[0])
			case KEqT:
				r = EqT(as[0], as[1])
			case KNot:
				r = Not(as[0])
			case KSeq:
				r = Seq(as...)
			case SSub:
				if as[0].k == KSeq {
					if x := seqSlice(nil, as[0], as[1], as[2]); x != nil {
						r = x
						break
					}
				}
				r = mkSub(as[0], as[1], as[2])
			case SByte:
				r = mkByte(as[0])
			case SZero:
				r = mkZero(as[0])
			case KApp:
				r = mk(t.k, t.s, t.n, t.typ, t.obj, as...)
				if t.s == "byteof" {
					n, _ := as[1].constI64()
					k, _ := as[2].constI64()
					r = ByteOf(as[0], int(n), int(k))
				}
			default:
				r = mk(t.k, t.s, t.n, t.typ, t.obj, as...)
			}
		}
	}
	memo[t] = r
	return r
}

// atoms lists the atoms of an integer or boolean term (not descending into them).
func intAtoms(t *Term) []*Term {
	switch t.k {
	case KInt:
		var r []*Term
		for _, p := range t.ps {
			r = append(r, monoAtoms(p.m)...)
		}
		return r
	case KGe0, KEq0, KNot:
		return intAtoms(t.args[0])
	case KEqT:
		return t.args
	}
	return []*Term{t}
}

// mentions tells whether sub occurs anywhere in t.
func mentions(t, sub *Term) bool {
	if t == sub {
		return true
	}
	if t.k == KInt {
		for _, p := range t.ps {
			if mentions(p.m, sub) {
				return true
			}
		}
		return false
	}
	for _, a := range t.args {
		if mentions(a, sub) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- printing

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 8 {
		return "…"
	}
	as := func() string {
		var ss []string
		for _, a := range t.args {
			ss = append(ss, a.str(d+1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.k {
	case KInt:
		var ss []string
		for _, p := range t.ps {
			var f []string
			for _, a := range monoAtoms(p.m) {
				f = append(f, a.str(d+1))
			}
			x := strings.Join(f, "*")
			switch {
			case p.c.Cmp(bigOne) == 0:
				ss = append(ss, x)
			default:
				ss = append(ss, p.c.String()+"*"+x)
			}
		}
		if t.c0.Sign() != 0 || len(ss) == 0 {
			ss = append(ss, t.c0.String())
		}
		if len(ss) == 1 {
			return ss[0]
		}
		return "(" + strings.Join(ss, " + ") + ")"
	case KMono:
		return "mono(" + as() + ")"
	case KSym:
		return t.s
	case KApp:
		return t.s + "(" + as() + ")"
	case KTrue:
		return "true"
	case KFalse:
		return "false"
	case KGe0:
		return t.args[0].str(d+1) + ">=0"
	case KEq0:
		return t.args[0].str(d+1) + "==0"
	case KEqT:
		return t.args[0].str(d+1) + "==" + t.args[1].str(d+1)
	case KNot:
		return "!(" + as() + ")"
	case KNil:
		return "nil"
	case KPtr:
		return fmt.Sprintf("new%d", t.n)
	case KGlob:
		return t.s
	case KFld:
		return fmt.Sprintf("%s.%s", t.args[0].str(d+1), t.s)
	case KElem:
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case KArr:
		return "arr(" + as() + ")"
	case KBArr:
		return "bytes(" + as() + ")"
	case KLoad:
		if t.s == "" {
			return "*" + as()
		}
		return "*" + as() + "@" + t.s
	case KSlice:
		return fmt.Sprintf("slice(%s)", as())
	case KStruct:
		return "{" + as() + "}"
	case KTuple:
		return "(" + as() + ")"
	case KIface:
		return fmt.Sprintf("iface<%s>(%s)", types.TypeString(t.typ, func(*types.Package) string { return "" }), as())
	case KFn:
		return fmt.Sprintf("fn(%v%s)", t.obj, as())
	case KSeq:
		return "“" + as() + "”"
	case SLit:
		return strconv.Quote(t.s)
	case SByte:
		return "byte:" + as()
	case SSub:
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + ":+" + t.args[2].str(d+1) + "]"
	case SZero:
		return "zeros(" + as() + ")"
	case SDec:
		return "dec(" + as() + ")"
	case SRaw:
		return t.s + "(" + as() + ")"
	case KFloat:
		return "f:" + t.s + "(" + as() + ")"
	}
	return "?"
}

var lenType = types.Typ[types.Int]
var byteType = types.Typ[types.Uint8]

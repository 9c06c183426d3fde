package main

// Arithmetic, bit operations and conversions.

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fit gives the machine value of a mathematical integer in a type.
func (e *Exec) fit(st *State, p *Term, t types.Type) *Term {
	lo, hi := typeRange(t)
	if lo == nil {
		return p
	}
	if c, ok := p.constInt(); ok {
		if c.Cmp(lo) >= 0 && c.Cmp(hi) <= 0 {
			return p
		}
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, bigOne)
		r := new(big.Int).Sub(c, lo)
		r.Mod(r, m)
		return IntBig(r.Add(r, lo))
	}
	if e.ideal {
		if b, ok := t.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Int, types.Int64:
				return p
			case types.Uint, types.Uint64:
				if st.holds(Ge0(p)) {
					return p
				}
			}
		}
	}
	if st.holds(Ge0(Sub(p, IntBig(lo)))) && st.holds(Ge0(Sub(IntBig(hi), p))) {
		return p
	}
	// byte-wise truncation
	if lo.Sign() == 0 {
		n := 0
		switch hi.BitLen() {
		case 8:
			n = 1
		case 16:
			n = 2
		case 32:
			n = 4
		}
		if n > 0 && st.holds(Ge0(p)) {
			src, shift := p, 0
			if a := p.atom(); a != nil && a.k == KApp && a.s == "div" {
				if c, ok := a.args[1].constInt(); ok {
					for k := 1; k < 8; k++ {
						if c.Cmp(new(big.Int).Lsh(bigOne, uint(8*k))) == 0 {
							src, shift = a.args[0], k
						}
					}
				}
			}
			w := byteWidth(st, src)
			if w > 0 {
				r := IntC(0)
				for k := 0; k < n && shift+k < w; k++ {
					r = Add(r, MulB(ByteOf(src, w, shift+k), new(big.Int).Lsh(bigOne, uint(8*k))))
				}
				return r
			}
		}
	}
	return I(App("wrap:"+shortType(t), t, p))
}

func byteWidth(st *State, p *Term) int {
	for _, w := range []int{1, 2, 4, 8} {
		hi := new(big.Int).Lsh(bigOne, uint(8*w))
		if st.holds(Ge0(p)) && st.holds(Lt(p, IntBig(hi))) {
			return w
		}
	}
	return 0
}

// Div is the quotient of a by b (b > 0), truncated.
func (e *Exec) div(st *State, a, b *Term, t types.Type) *Term {
	if c, ok := b.constInt(); ok {
		if c.Cmp(bigOne) == 0 {
			return a
		}
		if x, ok := a.constInt(); ok && c.Sign() != 0 {
			return IntBig(new(big.Int).Quo(x, c))
		}
		if c.Sign() > 0 && st.holds(Ge0(a)) {
			// split off multiples of c
			q, r := IntC(0), IntBig(new(big.Int).Mod(a.c0, c))
			q = IntBig(new(big.Int).Div(a.c0, c))
			for _, p := range a.ps {
				if new(big.Int).Mod(p.c, c).Sign() == 0 {
					q = Add(q, MulB(I(p.m), new(big.Int).Quo(p.c, c)))
				} else {
					r = Add(r, MulB(I(p.m), p.c))
				}
			}
			if st.holds(Ge0(r)) {
				if st.holds(Lt(r, b)) {
					return q
				}
				if x := stripDigits(r, c); x != nil {
					return Add(q, x)
				}
				// div(div(x,m),c) = div(x,m*c)
				if at := r.atom(); at != nil && at.k == KApp && at.s == "div" {
					if m, ok := at.args[1].constInt(); ok && m.Sign() > 0 {
						return Add(q, I(App("div", t, at.args[0], IntBig(new(big.Int).Mul(m, c)))))
					}
				}
				return Add(q, I(App("div", t, r, b)))
			}
		}
	}
	if st.holds(Ge0(a)) && st.holds(Lt(a, b)) {
		return IntC(0)
	}
	return I(App("div", t, a, b))
}

// stripDigits divides a sum of byte digits by a power of 256.
func stripDigits(r *Term, c *big.Int) *Term {
	k := -1
	for i := 1; i < 8; i++ {
		if c.Cmp(new(big.Int).Lsh(bigOne, uint(8*i))) == 0 {
			k = i
		}
	}
	if k < 0 || r.c0.Sign() != 0 {
		return nil
	}
	q := IntC(0)
	low := new(big.Int)
	for _, p := range r.ps {
		lo, hi := atomRange(p.m)
		if lo == nil || lo.Sign() < 0 || hi == nil || p.c.Sign() < 0 {
			return nil
		}
		if new(big.Int).Mod(p.c, c).Sign() == 0 {
			q = Add(q, MulB(I(p.m), new(big.Int).Quo(p.c, c)))
		} else {
			low.Add(low, new(big.Int).Mul(p.c, hi))
		}
	}
	if low.Cmp(c) < 0 {
		return q
	}
	return nil
}

func (e *Exec) mod(st *State, a, b *Term, t types.Type) *Term {
	return Sub(a, Mul(b, e.div(st, a, b, t)))
}

func (e *Exec) bitNot(st *State, a *Term, t types.Type) *Term {
	lo, hi := typeRange(t)
	if lo != nil && lo.Sign() == 0 {
		return Sub(IntBig(hi), a) // all ones minus a
	}
	return AddC(Neg(a), -1)
}

// pow2 recognises a single-bit value: it returns the exponent.
func pow2Of(a *Term) *Term {
	if c, ok := a.constInt(); ok && c.Sign() > 0 {
		if new(big.Int).And(c, new(big.Int).Sub(c, bigOne)).Sign() == 0 {
			return IntC(int64(c.BitLen() - 1))
		}
	}
	if at := a.atom(); at != nil && at.k == KApp && at.s == "pow2" {
		return at.args[0]
	}
	return nil
}

// mkPow2 is 2^k for 0 <= k < width.
func mkPow2(k *Term) *Term {
	if c, ok := k.constI64(); ok && c >= 0 && c < 64 {
		return IntBig(new(big.Int).Lsh(bigOne, uint(c)))
	}
	return I(App("pow2", types.Typ[types.Uint64], k))
}

func bitOf(st *State, x, k *Term) *Term {
	if c, ok := x.constInt(); ok {
		if n, ok := k.constI64(); ok && n >= 0 && c.Sign() >= 0 {
			return IntC(int64(c.Bit(int(n))))
		}
		if c.Sign() == 0 {
			return IntC(0)
		}
	}
	if at := x.atom(); at != nil && at.k == KApp {
		switch at.s {
		case "setbit", "clrbit":
			switch st.f.decide(EqI(at.args[1], k)) {
			case 1:
				if at.s == "setbit" {
					return IntC(1)
				}
				return IntC(0)
			case -1:
				return bitOf(st, at.args[0], k)
			}
		case "div":
			if s := pow2Of(at.args[1]); s != nil {
				return bitOf(st, at.args[0], Add(k, s))
			}
		}
	}
	// a sum of bits in different places
	if n, ok := k.constI64(); ok && n >= 0 && n < 64 && x.c0.Sign() == 0 && len(x.ps) > 0 {
		seen := map[int]bool{}
		var r *Term
		all := true
		for _, p := range x.ps {
			e := p.c.BitLen() - 1
			if p.m.k != KApp || p.m.s != "bit" || p.c.Sign() <= 0 || int(p.c.TrailingZeroBits()) != e || seen[e] {
				all = false
				break
			}
			seen[e] = true
			if int64(e) == n {
				r = I(p.m)
			}
		}
		if all {
			if r == nil {
				return IntC(0)
			}
			return r
		}
	}
	return I(App("bit", byteType, x, k))
}

func (e *Exec) and(st *State, a, b *Term, t types.Type) *Term {
	ca, oka := a.constInt()
	cb, okb := b.constInt()
	if oka && okb && ca.Sign() >= 0 && cb.Sign() >= 0 {
		return IntBig(new(big.Int).And(ca, cb))
	}
	if oka {
		a, b, ca, cb, oka, okb = b, a, cb, ca, okb, oka
	}
	if okb && cb.Sign() == 0 {
		return IntC(0)
	}
	_, wide := typeRange(t)
	if e.bitJoin && wide != nil && wide.BitLen() <= 8 && okb && cb.Sign() > 0 && cb.BitLen() <= 8 && st.holds(Ge0(a)) {
		r := IntC(0)
		for k := 0; k < 8; k++ {
			if cb.Bit(k) == 1 {
				r = Add(r, MulC(bitOf(st, a, IntC(int64(k))), 1<<uint(k)))
			}
		}
		return r
	}
	// low mask
	if okb && cb.Sign() > 0 && st.holds(Ge0(a)) {
		m := new(big.Int).Add(cb, bigOne)
		if new(big.Int).And(m, cb).Sign() == 0 {
			// one bit of a shifted value
			if cb.Cmp(bigOne) == 0 {
				if at := a.atom(); at != nil && at.k == KApp && at.s == "div" {
					if k := pow2Of(at.args[1]); k != nil {
						return bitOf(st, at.args[0], k)
					}
				}
				return bitOf(st, a, IntC(0))
			}
			return e.mod(st, a, IntBig(m), t)
		}
	}
	if k := pow2Of(b); k != nil && st.holds(Ge0(a)) {
		return Mul(mkPow2(k), bitOf(st, a, k))
	}
	if k := pow2Of(a); k != nil && st.holds(Ge0(b)) {
		return Mul(mkPow2(k), bitOf(st, b, k))
	}
	// clearing one bit: and(x, allones - 2^k)
	for i := 0; i < 2; i++ {
		if _, hi := typeRange(t); hi != nil {
			if k := pow2Of(Sub(IntBig(hi), b)); k != nil && st.holds(Ge0(a)) {
				return I(App("clrbit", t, a, k))
			}
		}
		a, b = b, a
	}
	if a.id > b.id {
		a, b = b, a
	}
	if a == b {
		return a
	}
	return I(App("and", t, a, b))
}

func (e *Exec) or(st *State, a, b *Term, t types.Type) *Term {
	ca, oka := a.constInt()
	cb, okb := b.constInt()
	if oka && okb && ca.Sign() >= 0 && cb.Sign() >= 0 {
		return IntBig(new(big.Int).Or(ca, cb))
	}
	if oka && ca.Sign() == 0 {
		return b
	}
	if okb && cb.Sign() == 0 {
		return a
	}
	if a == b {
		return a
	}
	if e.bitJoin && (okb && cb.BitLen() <= 8 || oka && ca.BitLen() <= 8) {
		for i := 0; i < 2; i++ {
			if k := pow2Of(b); k != nil && st.holds(Ge0(a)) {
				return I(App("setbit", t, a, k))
			}
			a, b = b, a
		}
	}
	// disjoint: one is a multiple of 2^k, the other below 2^k
	for i := 0; i < 2; i++ {
		g := new(big.Int).Abs(a.c0)
		for _, p := range a.ps {
			g.GCD(nil, nil, g, new(big.Int).Abs(p.c))
		}
		if g.Sign() > 0 {
			tz := g.TrailingZeroBits()
			if tz > 0 && st.holds(Ge0(a)) && st.holds(Ge0(b)) && st.holds(Lt(b, IntBig(new(big.Int).Lsh(bigOne, tz)))) {
				return Add(a, b)
			}
		}
		a, b = b, a
	}
	// digit-wise disjoint sums (bytes in different positions, any order)
	if digitMask(a) != 0 && digitMask(b) != 0 && digitMask(a)&digitMask(b) == 0 {
		return Add(a, b)
	}
	for i := 0; i < 2; i++ {
		if k := pow2Of(b); k != nil && st.holds(Ge0(a)) {
			return I(App("setbit", t, a, k))
		}
		a, b = b, a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return I(App("or", t, a, b))
}

// digitMask: which byte positions a sum of byte digits occupies (0: not such a sum).
func digitMask(a *Term) int {
	if a.c0.Sign() != 0 {
		return 0
	}
	m := 0
	for _, p := range a.ps {
		lo, hi := atomRange(p.m)
		if lo == nil || lo.Sign() < 0 || hi == nil || hi.Cmp(big.NewInt(255)) > 0 {
			return 0
		}
		found := false
		for d := 0; d < 8; d++ {
			if p.c.Cmp(new(big.Int).Lsh(bigOne, uint(8*d))) == 0 {
				if m&(1<<d) != 0 {
					return 0
				}
				m |= 1 << d
				found = true
			}
		}
		if !found {
			return 0
		}
	}
	return m
}

func (e *Exec) shl(st *State, a, k *Term, t types.Type) *Term {
	if c, ok := k.constI64(); ok && c >= 0 && c < 128 {
		return e.fit(st, MulB(a, new(big.Int).Lsh(bigOne, uint(c))), t)
	}
	if c, ok := a.constInt(); ok && c.Cmp(bigOne) == 0 {
		lo, hi := typeRange(t)
		w := int64(hi.BitLen())
		if lo.Sign() != 0 {
			w = int64(hi.BitLen())
		}
		if st.holds(Ge0(k)) && st.holds(Lt(k, IntC(w))) {
			return mkPow2(k)
		}
	}
	return I(App("shl", t, a, k))
}

func (e *Exec) shr(st *State, a, k *Term, t types.Type) *Term {
	if c, ok := k.constI64(); ok && c >= 0 && c < 128 {
		if st.holds(Ge0(a)) {
			return e.div(st, a, IntBig(new(big.Int).Lsh(bigOne, uint(c))), t)
		}
		return I(App("sar", t, a, k))
	}
	if x := pow2Of(a); x != nil && st.holds(Ge0(k)) {
		if st.holds(Le(k, x)) {
			return mkPow2(Sub(x, k))
		}
		if st.holds(Lt(x, k)) {
			return IntC(0)
		}
	}
	if st.holds(Ge0(a)) && st.holds(Ge0(k)) {
		return I(App("div", t, a, I(App("pow2", types.Typ[types.Uint64], k))))
	}
	return I(App("shr", t, a, k))
}

// forkWrap separates x+c that overflows from x+c that does not, for the small
// constants of rounding expressions such as (n+7)/8: either the sum is the
// mathematical one, or it is that minus the size of the type.
func (e *Exec) forkWrap(d *D, x *ssa.BinOp, sum, r, a, b *Term) []*D {
	at := r.atom()
	if at == nil || at.k != KApp || !strings.HasPrefix(at.s, "wrap:") {
		return nil
	}
	c, ok := b.constInt()
	if !ok {
		c, ok = a.constInt()
	}
	lo, hi := typeRange(x.Type())
	if !ok || lo == nil || lo.Sign() >= 0 || c.Cmp(bigOne) <= 0 || c.BitLen() > 7 {
		return nil
	}
	if !d.st.holds(Ge0(Sub(sum, IntBig(lo)))) {
		return nil
	}
	size := new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne)
	var out []*D
	if n := d.clone(); n.st.learn(Ge0(Sub(IntBig(hi), sum))) {
		n.env[x] = sum
		out = append(out, n)
	}
	if n := d.clone(); n.st.learn(Lt(IntBig(hi), sum)) {
		n.env[x] = Sub(sum, IntBig(size))
		out = append(out, n)
	}
	return out
}

func (e *Exec) binop(fr *Frame, d *D, x *ssa.BinOp, p *pending) []*D {
	st := d.st
	a, b := evalIn(d, x.X), evalIn(d, x.Y)
	one := func(t *Term) []*D {
		d.env[x] = t
		return []*D{d}
	}
	xt := x.X.Type()
	switch x.Op {
	case token.EQL:
		return one(e.equal(st, a, b))
	case token.NEQ:
		return one(Not(e.equal(st, a, b)))
	}
	switch {
	case intType(xt):
		a, b = I(a), I(b)
		switch x.Op {
		case token.ADD:
			r := e.fit(st, Add(a, b), x.Type())
			if ds := e.forkWrap(d, x, Add(a, b), r, a, b); ds != nil {
				return ds
			}
			return one(r)
		case token.SUB:
			return one(e.fit(st, Sub(a, b), x.Type()))
		case token.MUL:
			return one(e.fit(st, Mul(a, b), x.Type()))
		case token.QUO, token.REM:
			d = e.guard(fr, d, x, "integer division by zero", Not(Eq0(b)), p)
			if d == nil {
				return nil
			}
			st = d.st
			var r *Term
			if x.Op == token.QUO {
				r = e.div(st, a, b, x.Type())
			} else {
				r = e.mod(st, a, b, x.Type())
			}
			d.env[x] = r
			return []*D{d}
		case token.LSS:
			return one(Lt(a, b))
		case token.LEQ:
			return one(Le(a, b))
		case token.GTR:
			return one(Lt(b, a))
		case token.GEQ:
			return one(Le(b, a))
		case token.AND:
			return one(e.and(st, a, b, x.Type()))
		case token.OR:
			return one(e.or(st, a, b, x.Type()))
		case token.XOR:
			if c, ok := b.constInt(); ok {
				if _, hi := typeRange(x.Type()); hi != nil && c.Cmp(hi) == 0 {
					return one(e.bitNot(st, a, x.Type()))
				}
			}
			if a == b {
				return one(IntC(0))
			}
			if a.id > b.id {
				a, b = b, a
			}
			return one(I(App("xor", x.Type(), a, b)))
		case token.AND_NOT:
			return one(e.and(st, a, e.bitNot(st, b, x.Type()), x.Type()))
		case token.SHL, token.SHR:
			if lo, _ := typeRange(x.Y.Type()); lo != nil && lo.Sign() < 0 {
				d = e.guard(fr, d, x, "negative shift amount", Ge0(b), p)
				if d == nil {
					return nil
				}
				st = d.st
			}
			var r *Term
			if x.Op == token.SHL {
				r = e.shl(st, a, b, x.Type())
			} else {
				r = e.shr(st, a, b, x.Type())
			}
			d.env[x] = r
			return []*D{d}
		}
	case isString(xt):
		switch x.Op {
		case token.ADD:
			return one(Seq(append(append([]*Term{}, st.strSeq(a).args...), st.strSeq(b).args...)...))
		default:
			la, oka := seqLit(asSeq(a))
			lb, okb := seqLit(asSeq(b))
			if oka && okb {
				switch x.Op {
				case token.LSS:
					return one(Bool(la < lb))
				case token.LEQ:
					return one(Bool(la <= lb))
				case token.GTR:
					return one(Bool(la > lb))
				case token.GEQ:
					return one(Bool(la >= lb))
				}
			}
			switch x.Op {
			case token.LSS:
				return one(App("strlt", types.Typ[types.Bool], a, b))
			case token.GTR:
				return one(App("strlt", types.Typ[types.Bool], b, a))
			case token.LEQ:
				return one(Not(App("strlt", types.Typ[types.Bool], b, a)))
			case token.GEQ:
				return one(Not(App("strlt", types.Typ[types.Bool], a, b)))
			}
		}
	case isBool(xt):
		switch x.Op {
		case token.AND, token.OR:
			return one(App("bool"+x.Op.String(), types.Typ[types.Bool], a, b))
		}
	case isFloat(xt):
		switch x.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if a.k == KFloat && a.s == "i2f" && b.k == KFloat && b.s == "i2f" {
				u, v := a.args[0], b.args[0]
				switch x.Op {
				case token.LSS:
					return one(Lt(u, v))
				case token.GTR:
					return one(Lt(v, u))
				case token.LEQ:
					return one(Le(u, v))
				case token.GEQ:
					return one(Le(v, u))
				}
			}
			return one(App("f"+x.Op.String(), types.Typ[types.Bool], a, b))
		case token.ADD, token.SUB, token.MUL:
			if a.k == KFloat && a.s == "i2f" && b.k == KFloat && b.s == "i2f" {
				switch x.Op {
				case token.ADD:
					return one(FloatOfInt(Add(a.args[0], b.args[0])))
				case token.SUB:
					return one(FloatOfInt(Sub(a.args[0], b.args[0])))
				}
			}
		}
		return one(mk(KFloat, x.Op.String(), 0, nil, nil, a, b))
	}
	return one(App("op"+x.Op.String(), x.Type(), a, b))
}

// equal is the boolean a == b.
func (e *Exec) equal(st *State, a, b *Term) *Term {
	a, b = st.f.find(a), st.f.find(b)
	if a.k == KSeq || b.k == KSeq {
		if a.k == KNil || b.k == KNil {
			return EqT(a, b)
		}
		sa, sb := asSeq(a), asSeq(b)
		if r := EqT(sa, sb); r.k == KTrue || r.k == KFalse {
			return r
		}
		return EqT(sa, sb)
	}
	if a.k == KIface || b.k == KIface {
		// comparing an interface with a concrete value
		if a.k == KIface && b.k == KIface {
			return EqT(a, b)
		}
	}
	return EqT(a, b)
}

func (e *Exec) convert(fr *Frame, d *D, x *ssa.Convert) []*D {
	st := d.st
	v := evalIn(d, x.X)
	from, to := x.X.Type(), x.Type()
	one := func(t *Term) []*D {
		d.env[x] = t
		return []*D{d}
	}
	switch {
	case intType(from) && intType(to):
		return one(e.fit(st, I(v), to))
	case intType(from) && isFloat(to):
		return one(FloatOfInt(v))
	case isFloat(from) && isFloat(to):
		return one(v)
	case isFloat(from) && intType(to):
		if v.k == KFloat && v.s == "i2f" {
			return one(e.fit(st, v.args[0], to))
		}
		return one(I(App("f2i", to, v)))
	case isString(from) && isByteSlice(to):
		d = d.clone()
		s := d.st.strSeq(v)
		n := seqLen(s)
		t := e.newObj(fr, d.st, x, "", &objInfo{typ: byteType, kind: "array", capT: n})
		e.clearObj(d.st, t)
		d.st.mem[mk(KBArr, "", 0, nil, nil, t)] = s
		d.env[x] = mkSlice(t, IntC(0), n, n)
		return []*D{d}
	case isByteSlice(from) && isString(to):
		return one(st.sliceContent(v))
	case isString(from) && isString(to):
		return one(v)
	case intType(from) && isString(to):
		// a code point below 128 is one byte
		if st.holds(Lt(I(v), IntC(128))) && st.holds(Ge0(I(v))) {
			return one(Seq(mkByte(I(v))))
		}
		return one(Seq(mkSub(App("rune", nil, v), IntC(0), I(App("len", lenType, App("rune", nil, v))))))
	}
	return one(opaqueValue(App("conv:"+shortType(to), to, v), to))
}

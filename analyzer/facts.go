package main

// Facts: the relational numeric domain (conjunctions of linear inequalities
// over term atoms, decided by Fourier-Motzkin elimination with integer
// tightening) plus truth values of opaque predicates and equality classes.

import (
	"math/big"
	"sort"
)

type Facts struct {
	ge    []*Term // polynomials >= 0
	eq    []*Term // polynomials == 0
	ne    []*Term // polynomials != 0
	truth map[*Term]bool
	rep   map[*Term]*Term
	memo  map[*Term]int8 // of KGe0 / KEq0 terms
	par   *Facts
	bot   bool
	light bool    // signs of factors are only looked up
	log   []*Term // literals in the order learned
	ors   []*clause
}

// clause: one of the alternatives (conjunctions) holds; this is what remains
// of two paths that met with different knowledge.
type clause struct {
	alts [][]*Term
}

const maxClauses = 8

// propagate drops the alternatives that have become impossible.
func (n *Facts) propagate() {
	for again := true; again && !n.bot && len(n.ors) > 0; {
		again = false
		for i, c := range n.ors {
			var alive [][]*Term
			sat := false
			for _, a := range c.alts {
				dead, all := false, true
				for _, l := range a {
					switch n.decide(l) {
					case -1:
						dead = true
					case 0:
						all = false
					}
					if dead {
						break
					}
				}
				if !dead {
					alive = append(alive, a)
					if all {
						sat = true
					}
				}
			}
			if !sat && len(alive) == len(c.alts) {
				continue
			}
			ors := append([]*clause(nil), n.ors[:i]...)
			ors = append(ors, n.ors[i+1:]...)
			switch {
			case len(alive) == 0:
				n.bot = true
			case sat:
			case len(alive) == 1:
				for _, l := range alive[0] {
					if n.decide(l) != 1 {
						n.log = append(n.log, l)
						n.add(l)
						n.memo = map[*Term]int8{}
					}
				}
			default:
				ors = append(ors, &clause{alive})
			}
			n.ors = ors
			again = true
			break
		}
	}
}

func newFacts() *Facts {
	return &Facts{truth: map[*Term]bool{}, rep: map[*Term]*Term{}, memo: map[*Term]int8{}}
}

func (f *Facts) fork() *Facts {
	n := &Facts{ge: f.ge[:len(f.ge):len(f.ge)], eq: f.eq[:len(f.eq):len(f.eq)], ne: f.ne[:len(f.ne):len(f.ne)],
		memo: map[*Term]int8{}, par: f, bot: f.bot, light: f.light, log: f.log[:len(f.log):len(f.log)], ors: f.ors}
	n.truth = make(map[*Term]bool, len(f.truth)+1)
	for k, v := range f.truth {
		n.truth[k] = v
	}
	n.rep = make(map[*Term]*Term, len(f.rep)+1)
	for k, v := range f.rep {
		n.rep[k] = v
	}
	// a long chain of parents only serves the memo of positive answers
	d := 0
	for p := f; p != nil; p = p.par {
		d++
		if d > 40 {
			p.par = nil
		}
	}
	return n
}

func (f *Facts) find(t *Term) *Term {
	for {
		r, ok := f.rep[t]
		if !ok || r == t {
			return t
		}
		t = r
	}
}

// assume adds a boolean term; it returns nil when that is contradictory.
func (f *Facts) assume(b *Term) *Facts {
	if f.bot {
		return nil
	}
	switch f.decide(b) {
	case 1:
		return f
	case -1:
		return nil
	}
	n := f.fork()
	n.log = append(n.log, b)
	n.add(b)
	if !n.bot && len(n.ors) > 0 {
		n.propagate()
	}
	if n.bot {
		return nil
	}
	return n
}

func (n *Facts) add(b *Term) {
	switch b.k {
	case KTrue:
	case KFalse:
		n.bot = true
	case KGe0:
		n.ge = append(n.ge, b.args[0])
		n.recheckNe()
	case KEq0:
		n.eq = append(n.eq, b.args[0])
		n.recheckNe()
	case KEqT:
		n.truth[b] = true
		a, c := n.find(b.args[0]), n.find(b.args[1])
		if a != c {
			// prefer constants as representatives
			if repRank(a) > repRank(c) {
				a, c = c, a
			}
			n.rep[c] = a
		}
	case KNot:
		x := b.args[0]
		switch x.k {
		case KEq0:
			p := x.args[0]
			if n.decide(Ge0(p)) == 1 {
				n.ge = append(n.ge, AddC(p, -1))
			} else if n.decide(Ge0(Neg(p))) == 1 {
				n.ge = append(n.ge, AddC(Neg(p), -1))
			} else {
				n.ne = append(n.ne, p)
			}
			n.recheckNe()
		default:
			n.truth[x] = false
		}
	default:
		n.truth[b] = true
	}
}

func repRank(t *Term) int {
	switch t.k {
	case KNil, KSeq, KTrue, KFalse, KIface, KStruct:
		return 0
	case KPtr, KGlob:
		return 1
	case KSym:
		return 3
	case KLoad, KApp:
		return 4
	}
	return 2
}

func (n *Facts) recheckNe() {
	if len(n.ne) == 0 {
		return
	}
	var rest []*Term
	old := n.ne
	n.ne = nil
	for i, p := range old {
		n.memo = map[*Term]int8{}
		if n.entailsGe(p, 1) {
			n.ge = append(n.ge, AddC(p, -1))
		} else if n.entailsGe(Neg(p), 1) {
			n.ge = append(n.ge, AddC(Neg(p), -1))
		} else {
			rest = append(rest, old[i])
		}
	}
	n.ne = rest
	n.memo = map[*Term]int8{}
}

// decide: 1 true, -1 false, 0 unknown.
func (f *Facts) decide(b *Term) int {
	switch b.k {
	case KTrue:
		return 1
	case KFalse:
		return -1
	case KNot:
		return -f.decide(b.args[0])
	case KGe0, KEq0:
		for p := f; p != nil; p = p.par {
			if v, ok := p.memo[b]; ok && (v != 0 || p == f) {
				return int(v)
			}
		}
		var r int8
		p := b.args[0]
		if b.k == KGe0 {
			if f.entailsGe(p, 2) {
				r = 1
			} else if f.entailsGe(AddC(Neg(p), -1), 2) {
				r = -1
			}
		} else {
			lo, hi := f.entailsGe(p, 2), false
			if lo {
				hi = f.entailsGe(Neg(p), 2)
			}
			if lo && hi {
				r = 1
			} else if f.entailsNe(p) {
				r = -1
			}
		}
		f.memo[b] = r
		return int(r)
	case KEqT:
		if v, ok := f.truth[b]; ok {
			if v {
				return 1
			}
			return -1
		}
		a, c := f.find(b.args[0]), f.find(b.args[1])
		if a == c {
			return 1
		}
		if a != b.args[0] || c != b.args[1] {
			return f.decide(EqT(a, c))
		}
		if a.k == KSeq && c.k == KSeq {
			if f.seqEqual(a, c) {
				return 1
			}
			if f.entailsNe(Sub(seqLen(a), seqLen(c))) {
				return -1
			}
		}
		if a.k == KElem && c.k == KElem && a.args[0] == c.args[0] {
			return f.decide(EqI(a.args[1], c.args[1]))
		}
		// a slice is nil only when it has no elements
		if a.k == KNil || c.k == KNil {
			x := a
			if a.k == KNil {
				x = c
			}
			if x.typ != nil {
				l := I(App("len", lenType, x))
				if _, ok := mapAtom(x); !ok && f.entailsGe(AddC(l, -1), 1) {
					return -1
				}
			}
		}
		for k, v := range f.truth {
			if v || k.k != KEqT {
				continue
			}
			x, y := f.find(k.args[0]), f.find(k.args[1])
			if x == a && y == c || x == c && y == a {
				return -1
			}
		}
		return 0
	default:
		if v, ok := f.truth[b]; ok {
			if v {
				return 1
			}
			return -1
		}
		if r := f.find(b); r != b {
			return f.decide(r)
		}
		return 0
	}
}

func mapAtom(t *Term) (*Term, bool) { return t, false }

func (f *Facts) entailsNe(p *Term) bool {
	for _, q := range f.ne {
		if q == p || q == Neg(p) {
			return true
		}
	}
	if f.entailsGe(AddC(p, -1), 2) || f.entailsGe(AddC(Neg(p), -1), 2) {
		return true
	}
	// p is, by the equations, something known not to be zero
	for _, q := range f.ne {
		for _, d := range []*Term{Sub(p, q), Add(p, q)} {
			if f.equated(d) && f.entailsGe(d, 0) && f.entailsGe(Neg(d), 0) {
				return true
			}
		}
	}
	return false
}

// equated: every variable of p occurs in some equation.
func (f *Facts) equated(p *Term) bool {
	p = I(p)
	if len(f.eq) == 0 || len(p.ps) == 0 {
		return false
	}
next:
	for _, x := range p.ps {
		for _, q := range f.eq {
			for _, y := range q.ps {
				if y.m == x.m {
					continue next
				}
			}
		}
		return false
	}
	return true
}

// ------------------------------------------------------------ linear engine

type lcon struct {
	m  map[*Term]*big.Int
	c  *big.Int
	eq bool
}

func toLcon(p *Term, eq bool) *lcon {
	l := &lcon{m: make(map[*Term]*big.Int, len(p.ps)), c: new(big.Int).Set(p.c0), eq: eq}
	for _, q := range p.ps {
		l.m[q.m] = new(big.Int).Set(q.c)
	}
	return l
}

func (l *lcon) norm() (triv bool, contra bool) {
	if len(l.m) == 0 {
		if l.eq {
			return l.c.Sign() == 0, l.c.Sign() != 0
		}
		return l.c.Sign() >= 0, l.c.Sign() < 0
	}
	g := new(big.Int)
	for _, c := range l.m {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
		if g.Cmp(bigOne) == 0 {
			return false, false
		}
	}
	if l.eq {
		if new(big.Int).Mod(l.c, g).Sign() != 0 {
			return false, true
		}
		l.c.Quo(l.c, g)
	} else {
		m := new(big.Int)
		l.c.DivMod(l.c, g, m)
	}
	for _, c := range l.m {
		c.Quo(c, g)
	}
	return false, false
}

// EntailQueries counts the queries answered by elimination (evidence).
var EntailQueries, FMRuns int

// entailsGe: do the facts imply p >= 0?
// sameVars: p and sign*q differ in their constants at most.
func sameVars(p, q *Term, sign int) bool {
	if len(p.ps) != len(q.ps) {
		return false
	}
	for i := range p.ps {
		if p.ps[i].m != q.ps[i].m {
			return false
		}
	}
	for i := range p.ps {
		a, b := p.ps[i].c, q.ps[i].c
		if sign > 0 && a.Cmp(b) != 0 || sign < 0 && (a.CmpAbs(b) != 0 || a.Sign() == b.Sign()) {
			return false
		}
	}
	return true
}

func (f *Facts) entailsGe(p *Term, depth int) bool {
	p = I(p)
	EntailQueries++
	if lo, _ := polyRange(p); lo != nil && lo.Sign() >= 0 {
		return true
	}
	if len(p.ps) == 0 {
		return false || p.c0.Sign() >= 0
	}
	// syntactic: some fact q with p - q constant >= 0
	for _, q := range f.ge {
		if sameVars(p, q, 1) && p.c0.Cmp(q.c0) >= 0 {
			return true
		}
	}
	for _, q := range f.eq {
		if sameVars(p, q, 1) && p.c0.Cmp(q.c0) >= 0 {
			return true
		}
		if sameVars(p, q, -1) && new(big.Int).Add(p.c0, q.c0).Sign() >= 0 {
			return true
		}
	}
	if depth < 0 {
		return false
	}
	// cone of influence
	vars := map[*Term]bool{}
	var order []*Term
	addVars := func(q *Term) {
		for _, x := range q.ps {
			if !vars[x.m] {
				vars[x.m] = true
				order = append(order, x.m)
			}
		}
	}
	addVars(p)
	usedG := make([]bool, len(f.ge))
	usedE := make([]bool, len(f.eq))
	var cons []*lcon
	neg := toLcon(AddC(Neg(p), -1), false)
	cons = append(cons, neg)
	done := 0
	for {
		// axioms of new variables may bring further variables
		for done < len(order) {
			v := order[done]
			done++
			for _, ax := range f.axioms(v, depth, vars) {
				cons = append(cons, toLcon(ax, false))
				addVars(ax)
			}
		}
		ch := false
		for i, q := range f.eq {
			if !usedE[i] && touches(q, vars) {
				usedE[i] = true
				ch = true
				cons = append(cons, toLcon(q, true))
				addVars(q)
			}
		}
		for i, q := range f.ge {
			if !usedG[i] && touches(q, vars) {
				usedG[i] = true
				ch = true
				cons = append(cons, toLcon(q, false))
				addVars(q)
			}
		}
		if !ch && done == len(order) {
			break
		}
		if len(order) > 60 {
			break
		}
	}
	// range axioms
	for _, v := range order {
		lo, hi := atomRange(v)
		if lo != nil {
			cons = append(cons, &lcon{m: map[*Term]*big.Int{v: big.NewInt(1)}, c: new(big.Int).Neg(lo)})
		}
		if hi != nil {
			cons = append(cons, &lcon{m: map[*Term]*big.Int{v: big.NewInt(-1)}, c: new(big.Int).Set(hi)})
		}
	}
	FMRuns++
	return fmUnsat(cons)
}

func touches(q *Term, vars map[*Term]bool) bool {
	for _, x := range q.ps {
		if vars[x.m] {
			return true
		}
	}
	return false
}

// axioms of an atom, as polynomials >= 0.
func (f *Facts) axioms(v *Term, depth int, vars map[*Term]bool) []*Term {
	var r []*Term
	sub := depth - 1
	if f.light {
		sub = -1
	}
	switch v.k {
	case KMono:
		all := true
		for _, a := range v.args {
			if a.k == KApp && a.s == "div" && !vars[a] {
				r = append(r, f.axioms(a, depth, vars)...)
			}
		}
		// a product of something that is known to equal something else
		if len(v.args) == 2 && depth > 0 {
			for i, a := range v.args {
				for _, q := range f.eq {
					if len(q.ps) > 2 {
						continue
					}
					for _, x := range q.ps {
						if x.m == a && x.c.IsInt64() && (x.c.Int64() == 1 || x.c.Int64() == -1) {
							z := Mul(q, I(v.args[1-i]))
							r = append(r, z, Neg(z))
						}
					}
				}
			}
		}
		for _, a := range v.args {
			if lo, _ := atomRange(a); lo != nil && lo.Sign() >= 0 {
				continue
			}
			if depth > 0 && f.entailsGe(I(a), sub) {
				continue
			}
			all = false
		}
		if all {
			r = append(r, I(v))
			// a*b >= a when b >= 1
			if len(v.args) == 2 && depth > 0 {
				a, b := I(v.args[0]), I(v.args[1])
				if f.entailsGe(AddC(b, -1), sub) {
					r = append(r, Sub(I(v), a))
				}
				if f.entailsGe(AddC(a, -1), sub) {
					r = append(r, Sub(I(v), b))
				}
			}
		}
	case KApp:
		switch v.s {
		case "div":
			p, d := v.args[0], v.args[1]
			rem := Sub(p, Mul(d, I(v)))
			if depth >= 0 && f.entailsGe(p, sub) {
				r = append(r, rem, I(v), Sub(p, I(v)))
				if depth > 0 && f.entailsGe(AddC(d, -1), sub) {
					r = append(r, AddC(Sub(d, rem), -1))
				}
			} else if depth > 0 && f.entailsGe(AddC(d, -1), sub) {
				r = append(r, AddC(Sub(d, rem), -1), AddC(Add(d, rem), -1))
				if f.entailsGe(Neg(p), sub) {
					r = append(r, Neg(I(v)), Neg(rem))
				}
				// rounding goes towards zero
				if f.entailsGe(AddC(p, 1), sub) {
					r = append(r, AddC(I(v), 1), AddC(rem, 1))
				}
			}
		case "and":
			for _, a := range v.args {
				if lo, _ := polyRange(I(a)); lo != nil && lo.Sign() >= 0 {
					r = append(r, I(v), Sub(I(a), I(v)))
				}
			}
		case "or":
			if lo, _ := polyRange(I(v.args[0])); lo != nil && lo.Sign() >= 0 {
				if lo, _ := polyRange(I(v.args[1])); lo != nil && lo.Sign() >= 0 {
					r = append(r, Sub(I(v), I(v.args[0])), Sub(I(v), I(v.args[1])), Sub(Add(I(v.args[0]), I(v.args[1])), I(v)))
				}
			}
		case "len":
			c := App("cap", v.typ, v.args...)
			if vars[c] {
				r = append(r, Sub(I(c), I(v)))
			}
		case "cap":
			l := App("len", v.typ, v.args...)
			r = append(r, Sub(I(v), I(l)))
		}
	}
	return r
}

func fmUnsat(cons []*lcon) bool {
	// Gaussian elimination on equalities with a unit coefficient
	norm := func(cs []*lcon) ([]*lcon, bool) {
		var out []*lcon
		for _, l := range cs {
			for k, c := range l.m {
				if c.Sign() == 0 {
					delete(l.m, k)
				}
			}
			triv, contra := l.norm()
			if contra {
				return nil, true
			}
			if !triv {
				out = append(out, l)
			}
		}
		return out, false
	}
	var contra bool
	cons, contra = norm(cons)
	if contra {
		return true
	}
	for {
		var e *lcon
		var pv *Term
		for _, l := range cons {
			if !l.eq {
				continue
			}
			var best *Term
			for k, c := range l.m {
				if new(big.Int).Abs(c).Cmp(bigOne) == 0 && (best == nil || k.id < best.id) {
					best = k
				}
			}
			if best != nil {
				e, pv = l, best
				break
			}
		}
		if e == nil {
			break
		}
		ce := e.m[pv]
		var out []*lcon
		for _, l := range cons {
			if l == e {
				continue
			}
			if cl, ok := l.m[pv]; ok {
				// l - (cl/ce) e, ce = ±1
				k := new(big.Int).Mul(cl, ce)
				n := &lcon{m: map[*Term]*big.Int{}, c: new(big.Int).Sub(l.c, new(big.Int).Mul(k, e.c)), eq: l.eq}
				for v, c := range l.m {
					n.m[v] = new(big.Int).Set(c)
				}
				for v, c := range e.m {
					x := n.m[v]
					if x == nil {
						x = new(big.Int)
						n.m[v] = x
					}
					x.Sub(x, new(big.Int).Mul(k, c))
				}
				l = n
			}
			out = append(out, l)
		}
		cons, contra = norm(out)
		if contra {
			return true
		}
	}
	// remaining equalities become two inequalities
	var ins []*lcon
	for _, l := range cons {
		if l.eq {
			a := &lcon{m: map[*Term]*big.Int{}, c: new(big.Int).Set(l.c)}
			b := &lcon{m: map[*Term]*big.Int{}, c: new(big.Int).Neg(l.c)}
			for v, c := range l.m {
				a.m[v] = new(big.Int).Set(c)
				b.m[v] = new(big.Int).Neg(c)
			}
			ins = append(ins, a, b)
		} else {
			ins = append(ins, l)
		}
	}
	for rounds := 0; rounds < 60; rounds++ {
		ins, contra = norm(ins)
		if contra {
			return true
		}
		ins = dedupe(ins)
		if len(ins) == 0 {
			return false
		}
		if len(ins) > 220 {
			return false
		}
		pos, neg := map[*Term]int{}, map[*Term]int{}
		for _, l := range ins {
			for v, c := range l.m {
				if c.Sign() > 0 {
					pos[v]++
				} else {
					neg[v]++
				}
			}
		}
		// pick the cheapest variable
		var vs []*Term
		seen := map[*Term]bool{}
		for v := range pos {
			if !seen[v] {
				seen[v] = true
				vs = append(vs, v)
			}
		}
		for v := range neg {
			if !seen[v] {
				seen[v] = true
				vs = append(vs, v)
			}
		}
		sort.Slice(vs, func(i, j int) bool {
			a, b := pos[vs[i]]*neg[vs[i]]-pos[vs[i]]-neg[vs[i]], pos[vs[j]]*neg[vs[j]]-pos[vs[j]]-neg[vs[j]]
			if a != b {
				return a < b
			}
			return vs[i].id < vs[j].id
		})
		v := vs[0]
		var ps, ns, out []*lcon
		for _, l := range ins {
			c, ok := l.m[v]
			switch {
			case !ok:
				out = append(out, l)
			case c.Sign() > 0:
				ps = append(ps, l)
			default:
				ns = append(ns, l)
			}
		}
		for _, a := range ps {
			for _, b := range ns {
				ca, cb := a.m[v], new(big.Int).Neg(b.m[v])
				n := &lcon{m: map[*Term]*big.Int{}, c: new(big.Int).Add(new(big.Int).Mul(a.c, cb), new(big.Int).Mul(b.c, ca))}
				for x, c := range a.m {
					if x != v {
						n.m[x] = new(big.Int).Mul(c, cb)
					}
				}
				for x, c := range b.m {
					if x == v {
						continue
					}
					y := n.m[x]
					if y == nil {
						y = new(big.Int)
						n.m[x] = y
					}
					y.Add(y, new(big.Int).Mul(c, ca))
				}
				out = append(out, n)
			}
		}
		ins = out
	}
	return false
}

func dedupe(ins []*lcon) []*lcon {
	best := map[string]*lcon{}
	var order []string
	for _, l := range ins {
		ids := make([]*Term, 0, len(l.m))
		for v := range l.m {
			ids = append(ids, v)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i].id < ids[j].id })
		b := make([]byte, 0, 32)
		for _, v := range ids {
			b = appendInt(b, v.id)
			b = append(b, ':')
			b = l.m[v].Append(b, 16)
			b = append(b, ';')
		}
		k := string(b)
		o, ok := best[k]
		if !ok {
			best[k] = l
			order = append(order, k)
		} else if l.c.Cmp(o.c) < 0 {
			best[k] = l
		}
	}
	out := make([]*lcon, 0, len(order))
	for _, k := range order {
		out = append(out, best[k])
	}
	return out
}

func appendInt(b []byte, n int) []byte {
	return big.NewInt(int64(n)).Append(b, 36)
}

// ------------------------------------------------------------ sequences

// eqInt: are two integer terms known to be equal?
func (f *Facts) eqInt(a, b *Term) bool {
	if a == b {
		return true
	}
	return f.decide(EqI(a, b)) == 1
}
func (f *Facts) leInt(a, b *Term) bool { return f.decide(Le(a, b)) == 1 }

// seqSlice cuts [off, off+n) out of a sequence; nil when undecided.
// f may be nil: then only syntactic facts are used.
func seqSlice(f *Facts, s, off, n *Term) *Term {
	off, n = I(off), I(n)
	le := func(a, b *Term) bool {
		if f != nil {
			return f.leInt(a, b)
		}
		return Le(a, b) == TTrue
	}
	if c, ok := n.constInt(); ok && c.Sign() == 0 {
		return Seq()
	}
	pos := IntC(0)
	var out []*Term
	started := false
	end := Add(off, n)
	for i, g := range s.args {
		l := segLen(g)
		nxt := Add(pos, l)
		if !started {
			if le(nxt, off) && !(i == len(s.args)-1) {
				pos = nxt
				continue
			}
			if !(le(pos, off) && le(off, nxt)) {
				return nil
			}
			started = true
			// cut front
			d := Sub(off, pos)
			rest := segCut(g, d, Sub(l, d))
			if rest == nil {
				return nil
			}
			if le(end, nxt) {
				x := segCut(g, d, n)
				if x == nil {
					return nil
				}
				return Seq(x)
			}
			if !le(nxt, end) {
				return nil
			}
			out = append(out, rest)
		} else {
			if le(end, nxt) {
				x := segCut(g, IntC(0), Sub(end, pos))
				if x == nil {
					return nil
				}
				out = append(out, x)
				return Seq(out...)
			}
			if !le(nxt, end) {
				return nil
			}
			out = append(out, g)
		}
		pos = nxt
	}
	if f != nil && started && f.eqInt(pos, end) {
		return Seq(out...)
	}
	if len(s.args) == 0 && (f != nil && f.eqInt(n, IntC(0))) {
		return Seq()
	}
	return nil
}

func segCut(g, off, n *Term) *Term {
	off, n = I(off), I(n)
	if c, ok := off.constInt(); ok && c.Sign() == 0 && segLen(g) == n {
		return g
	}
	if c, ok := n.constInt(); ok && c.Sign() == 0 {
		return mkLit("")
	}
	switch g.k {
	case SLit:
		o, ok1 := off.constI64()
		m, ok2 := n.constI64()
		if ok1 && ok2 && o >= 0 && m >= 0 && o+m <= int64(len(g.s)) {
			return mkLit(g.s[o : o+m])
		}
		// a run of equal bytes can be cut anywhere
		if len(g.s) > 0 {
			for i := range g.s {
				if g.s[i] != 0 {
					return nil
				}
			}
			return mk(SZero, "", 0, nil, nil, n)
		}
	case SSub:
		return mkSub(g.args[0], Add(g.args[1], off), n)
	case SZero:
		return mkZero(n)
	case SByte:
		o, ok1 := off.constI64()
		m, ok2 := n.constI64()
		if ok1 && ok2 && o == 0 && m == 1 {
			return g
		}
	}
	return nil
}

// seqByte is the byte at an offset as an integer term; nil when undecided.
func seqByte(f *Facts, s, off *Term) *Term {
	x := seqSlice(f, s, off, IntC(1))
	if x == nil || len(x.args) != 1 {
		return nil
	}
	return segByte(x.args[0])
}

func segByte(g *Term) *Term {
	switch g.k {
	case SLit:
		if len(g.s) == 1 {
			return IntC(int64(g.s[0]))
		}
	case SByte:
		return g.args[0]
	case SSub:
		return I(App("byteat", byteType, g.args[0], g.args[1]))
	case SZero:
		return IntC(0)
	}
	return nil
}

// seqEqual: known to be equal, walking both segment lists.
func (f *Facts) seqEqual(a, b *Term) bool {
	a, b = asSeq(f.find(a)), asSeq(f.find(b))
	if a == b {
		return true
	}
	if t, ok := f.truth[EqT(a, b)]; ok && t {
		return true
	}
	as := append([]*Term(nil), a.args...)
	bs := append([]*Term(nil), b.args...)
	drop := func(xs []*Term) []*Term {
		for len(xs) > 0 && f.eqInt(segLen(xs[0]), IntC(0)) {
			xs = xs[1:]
		}
		return xs
	}
	for steps := 0; steps < 200; steps++ {
		as, bs = drop(as), drop(bs)
		if len(as) == 0 || len(bs) == 0 {
			return len(as) == 0 && len(bs) == 0
		}
		x, y := as[0], bs[0]
		lx, ly := segLen(x), segLen(y)
		switch {
		case f.eqInt(lx, ly):
			if !f.segEqual(x, y) {
				return false
			}
			as, bs = as[1:], bs[1:]
		case f.leInt(lx, ly):
			h, t := segCut(y, IntC(0), lx), segCut(y, lx, Sub(ly, lx))
			if h == nil || t == nil || !f.segEqual(x, h) {
				return false
			}
			as = as[1:]
			bs = append([]*Term{t}, bs[1:]...)
		case f.leInt(ly, lx):
			h, t := segCut(x, IntC(0), ly), segCut(x, ly, Sub(lx, ly))
			if h == nil || t == nil || !f.segEqual(h, y) {
				return false
			}
			bs = bs[1:]
			as = append([]*Term{t}, as[1:]...)
		default:
			return false
		}
	}
	return false
}

func (f *Facts) segEqual(x, y *Term) bool {
	if x == y {
		return true
	}
	if x.k == SSub && y.k == SSub {
		if f.find(x.args[0]) == f.find(y.args[0]) && f.eqInt(x.args[1], y.args[1]) && f.eqInt(x.args[2], y.args[2]) {
			return true
		}
	}
	if x.k == SByte && y.k == SByte {
		// the width is what the value is known to fit, the byte is the same
		p, q := x.args[0].atom(), y.args[0].atom()
		if p != nil && q != nil && p.k == KApp && q.k == KApp && p.s == "byteof" && q.s == "byteof" && p.args[2] == q.args[2] && f.eqInt(p.args[0], q.args[0]) {
			return true
		}
	}
	if x.k == y.k && (x.k == SDec || x.k == SByte) {
		return f.eqInt(x.args[0], y.args[0])
	}
	if x.k == SZero || y.k == SZero {
		if y.k == SZero {
			x, y = y, x
		}
		if y.k == SZero {
			return f.eqInt(x.args[0], y.args[0])
		}
		if y.k == SLit {
			for i := range y.s {
				if y.s[i] != 0 {
					return false
				}
			}
			return f.eqInt(x.args[0], IntC(int64(len(y.s))))
		}
	}
	// one byte on both sides
	bx, by := segByte(x), segByte(y)
	if bx != nil && by != nil {
		cx, okx := segLen(x).constI64()
		cy, oky := segLen(y).constI64()
		if okx && oky && cx == 1 && cy == 1 && f.eqInt(bx, by) {
			return true
		}
	}
	// a few bytes on both sides: their base 256 numbers are equal exactly when
	// the bytes are
	if n, ok := segLen(x).constI64(); ok && n > 1 && n <= 8 {
		sx, sy := Seq(x), Seq(y)
		d := IntC(0)
		for i := int64(0); i < n && d != nil; i++ {
			bx, by := seqByte(f, sx, IntC(i)), seqByte(f, sy, IntC(i))
			if bx == nil || by == nil {
				d = nil
				break
			}
			d = Add(MulC(d, 256), Sub(bx, by))
		}
		if d != nil && f.eqInt(d, IntC(0)) {
			return true
		}
	}
	// a known equality between the two as sequences
	if t, ok := f.truth[EqT(Seq(x), Seq(y))]; ok && t {
		return true
	}
	ex, ey := f.find(Seq(x)), f.find(Seq(y))
	return ex == ey
}

package main

// Loops. A loop whose guard is decided in every iteration is followed
// concretely; every other loop is replaced by its invariant: the locations the
// body changes become fresh symbols, related by the linear candidates that
// survive a Houdini-style fixpoint. Ranking functions are looked for among the
// loop guards.

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	maxUnroll  = 70
	maxRounds  = 40
	maxHeads   = 10
	maxEntries = 6
)

type cand struct {
	key string
	mk  func(st *State, b map[*Term]*Term) *Term // under a binding of the holes
}

type loopHead struct {
	key    string
	base   *D
	phis   []*ssa.Phi
	tv     map[string]*Term // holed locations
	cellOf map[string]*Term
	before *State // at the entry of the loop
	holes  []*Term
	htyp   map[*Term]types.Type
	drop   map[*Term]bool
	ephole map[string]bool
	cands  []*cand
	gen    bool
	H      *D
	id     string
	entry  bool
}

// LoopInfo is what a rank hook sees.
func (e *Exec) execLoop(fr *Frame, el *wtoElem, p *pending) {
	head := el.block
	edges := p.in[head]
	delete(p.in, head)
	ds := e.enter(fr, head, edges)
	if lim := maxEntries; len(ds) > lim && (!e.wide || len(ds) > 4*lim) {
		ds = e.widen(fr, head, ds, e.pg.info(fr.fn).live[head])
	}
	for _, d := range ds {
		if e.unroll(fr, el, d, p) {
			continue
		}
		e.fixLoop(fr, el, d, p)
	}
}

// body runs one iteration from the given head states.
func (e *Exec) body(fr *Frame, el *wtoElem, ds []*D) (latches []*D, sub *pending) {
	sub = newPending()
	head := el.block
	cl := make([]*D, len(ds))
	for i, d := range ds {
		cl[i] = d.clone()
	}
	e.execBlockOn(fr, head, cl, sub)
	back := sub.in[head]
	delete(sub.in, head)
	e.execElems(fr, el.loop[1:], sub)
	back = append(back, sub.in[head]...)
	delete(sub.in, head)
	for _, ed := range back {
		e.forget(fr, el, ed.d.st)
		latches = append(latches, applyPhis(head, ed))
	}
	latches = e.merge(fr, head, latches)
	if e.peel {
		// the first iteration is a partition of its own
		key := "it:" + fr.path + "/L" + strconv.Itoa(head.Index)
		for _, L := range latches {
			L.st.ghost[key] = TTrue
		}
		for _, es := range sub.in {
			for _, ed := range es {
				delete(ed.d.st.ghost, key)
			}
		}
		for _, o := range sub.outs {
			delete(o.st.ghost, key)
		}
	}
	return
}

// forget drops the variables that the next iteration makes anew, and those of
// functions that are through.
func (e *Exec) forget(fr *Frame, el *wtoElem, st *State) {
	for a := range st.mem {
		r := rootOf(a)
		if r == nil || r.k != KPtr {
			continue
		}
		oi := objs[r.n]
		if oi.block != nil && (oi.frame == fr.path && inBlocks(el, oi.block) || strings.HasPrefix(oi.frame, fr.path+">")) {
			delete(st.mem, a)
		}
	}
}

func (p *pending) absorb(sub *pending) {
	for b, es := range sub.in {
		p.in[b] = append(p.in[b], es...)
	}
	p.outs = append(p.outs, sub.outs...)
}

// guardDecided: does the test that ends the head block come out the same way
// in every state?
func (e *Exec) unrollable(el *wtoElem) bool {
	n := len(el.block.Instrs)
	iff, ok := el.block.Instrs[n-1].(*ssa.If)
	if !ok {
		return false
	}
	// the guard must leave the loop on one side
	out := 0
	for _, s := range el.block.Succs {
		if !el.blocks[s] {
			out++
		}
	}
	if out == 0 {
		return false
	}
	for _, in := range el.block.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return false
		}
	}
	_ = iff
	return true
}

// headSplits runs the head block only: does it both stay and leave?
func (e *Exec) headSplits(fr *Frame, el *wtoElem, d *D) (stay, leave bool) {
	sub := newPending()
	e.dry++
	e.execBlockOn(fr, el.block, []*D{d.clone()}, sub)
	e.dry--
	for b, es := range sub.in {
		if len(es) == 0 {
			continue
		}
		if el.blocks[b] {
			stay = true
		} else {
			leave = true
		}
	}
	return
}

func (e *Exec) unroll(fr *Frame, el *wtoElem, d *D, p *pending) bool {
	if !e.unrollable(el) {
		return false
	}
	run := func() (bool, *pending) {
		acc := newPending()
		cur := []*D{d}
		for i := 0; i < maxUnroll; i++ {
			for _, c := range cur {
				s, l := e.headSplits(fr, el, c)
				if s && l {
					return false, nil
				}
			}
			ls, sub := e.body(fr, el, cur)
			acc.absorb(sub)
			if len(ls) == 0 {
				return true, acc
			}
			if len(ls) > 6 && len(ls) > e.unrollMax {
				return false, nil
			}
			cur = ls
		}
		return false, nil
	}
	// a first look without recording
	if s, l := e.headSplits(fr, el, d); s && l {
		return false
	}
	e.dry++
	ok, acc := run()
	e.dry--
	if !ok {
		return false
	}
	if e.dry == 0 {
		_, acc = run()
		if e.hooks.onLoop != nil {
			e.hooks.onLoop(fr, el.block, "followed concretely", true, "")
		}
	}
	p.absorb(acc)
	return true
}

func (e *Exec) partKey(fr *Frame, head *ssa.BasicBlock, d *D, fine bool) string {
	var ss []string
	for k, v := range d.st.ghost {
		ss = append(ss, k+"="+strconv.Itoa(v.id))
	}
	sort.Strings(ss)
	ss = append(ss, strconv.Itoa(len(d.defers)))
	if fine {
		for _, in := range head.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			t := d.env[ph]
			switch t.k {
			case KTrue, KFalse:
				ss = append(ss, ph.Name()+"="+strconv.Itoa(t.id))
			case KNil:
				if _, sl := ph.Type().Underlying().(*types.Slice); !sl {
					ss = append(ss, ph.Name()+"=nil")
				}
			}
		}
	}
	return strings.Join(ss, ";")
}

func leaves(t *Term, set map[*Term]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.k {
	case KSym, KPtr, KGlob:
		set[t] = true
	}
	if t.k == KInt {
		for _, p := range t.ps {
			leaves(p.m, set, seen)
		}
		return
	}
	for _, a := range t.args {
		leaves(a, set, seen)
	}
}

// knownLeaves: the symbols that exist in a state.
func knownLeaves(d *D) map[*Term]bool {
	set := map[*Term]bool{}
	seen := map[*Term]bool{}
	for _, v := range d.env {
		leaves(v, set, seen)
	}
	for k, v := range d.st.mem {
		leaves(k, set, seen)
		leaves(v, set, seen)
	}
	for _, v := range d.st.ghost {
		leaves(v, set, seen)
	}
	for _, l := range d.st.f.log {
		leaves(l, set, seen)
	}
	for _, df := range d.defers {
		for _, a := range df.args {
			leaves(a, set, seen)
		}
	}
	return set
}

func onlyLeaves(t *Term, ok map[*Term]bool) bool {
	set := map[*Term]bool{}
	leaves(t, set, map[*Term]bool{})
	for l := range set {
		if !ok[l] {
			return false
		}
	}
	return true
}

func (h *loopHead) hole(loc string, t types.Type) *Term {
	name := h.id + "!" + loc
	a := Sym(name, t)
	found := false
	for _, x := range h.holes {
		if x == a {
			found = true
		}
	}
	if !found {
		h.holes = append(h.holes, a)
		h.htyp[a] = t
	}
	return a
}

func (h *loopHead) isHole(t *Term) bool {
	if t.k == KInt {
		t = t.atom()
	}
	if t != nil && t.k == KSeq && len(t.args) == 1 && t.args[0].k == SSub {
		t = t.args[0].args[0]
	}
	if t == nil || t.k != KSym {
		return false
	}
	for _, x := range h.holes {
		if x == t {
			return true
		}
	}
	return false
}

// au generalises a template value so that it covers v.
func (h *loopHead) au(t, v *Term, loc string, typ types.Type) *Term {
	if t == v || h.isHole(t) {
		return t
	}
	switch {
	case t.k == KInt && v.k == KInt:
		if typ == nil {
			typ = types.Typ[types.Int]
		}
		return I(h.hole(loc, typ))
	case t.k == KSlice && v.k == KSlice && t.args[0] == v.args[0]:
		return mkSlice(t.args[0], h.au(t.args[1], v.args[1], loc+".off", lenType), h.au(t.args[2], v.args[2], loc+".len", lenType), h.au(t.args[3], v.args[3], loc+".cap", lenType))
	case (t.k == KSlice || v.k == KSlice) && t.k != KNil && v.k != KNil && isSliceType(typ) && sameBase(t, v):
		// a slice and a part of it
		b, o1, l1, c1 := parts(t)
		_, o2, l2, c2 := parts(v)
		return mkSlice(b, h.au(I(o1), I(o2), loc+".off", lenType), h.au(I(l1), I(l2), loc+".len", lenType), h.au(I(c1), I(c2), loc+".cap", lenType))
	case t.k == KStruct && v.k == KStruct && len(t.args) == len(v.args):
		st := structOf(t.typ)
		fs := make([]*Term, len(t.args))
		for i := range t.args {
			fs[i] = h.au(t.args[i], v.args[i], loc+"."+strconv.Itoa(i), st.Field(i).Type())
		}
		return mk(KStruct, "", 0, t.typ, nil, fs...)
	case (t.k == KSeq || v.k == KSeq) && (typ == nil || isString(typ)):
		return asSeq(h.hole(loc, types.Typ[types.String]))
	case t.k == KIface && v.k == KIface && types.Identical(t.typ, v.typ):
		return mk(KIface, "", 0, t.typ, nil, h.au(t.args[0], v.args[0], loc+".i", t.typ))
	}
	if typ == nil {
		return h.hole(loc, nil)
	}
	return opaqueHole(h, loc, typ)
}

func isSliceType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func sameBase(t, v *Term) bool {
	b1, _, _, _ := parts(t)
	b2, _, _, _ := parts(v)
	return b1 == b2
}

func opaqueHole(h *loopHead, loc string, typ types.Type) *Term {
	if st := openStruct(typ); st != nil {
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			fs[i] = opaqueHole(h, loc+"."+strconv.Itoa(i), st.Field(i).Type())
		}
		return mk(KStruct, "", 0, typ, nil, fs...)
	}
	a := h.hole(loc, typ)
	if intType(typ) {
		return I(a)
	}
	if isString(typ) {
		return asSeq(a)
	}
	return a
}

// bind matches a template value against an actual value.
func (h *loopHead) bind(t, v *Term, b map[*Term]*Term) {
	if t == v && !h.isHole(t) {
		return
	}
	if h.isHole(t) {
		a := t
		if a.k == KInt {
			a = a.atom()
		}
		if a.k == KSeq {
			a = a.args[0].args[0]
			b[App("len", lenType, a)] = seqLen(asSeq(v))
		}
		b[a] = v
		if a.typ != nil {
			if _, ok := a.typ.Underlying().(*types.Slice); ok {
				_, _, l, c := parts(v)
				b[App("len", lenType, a)] = l
				b[App("cap", lenType, a)] = c
			}
		}
		return
	}
	if t.k == KSlice && v.k != KSlice && sameBase(t, v) {
		_, o, l, c := parts(v)
		h.bind(t.args[1], I(o), b)
		h.bind(t.args[2], I(l), b)
		h.bind(t.args[3], I(c), b)
		return
	}
	if t.k == v.k && len(t.args) == len(v.args) {
		switch t.k {
		case KSlice, KStruct, KIface, KTuple:
			for i := range t.args {
				h.bind(t.args[i], v.args[i], b)
			}
		}
	}
}

// build makes the head state from the base and the holes.
func (e *Exec) buildHead(h *loopHead, withCands bool) {
	n := h.base.clone()
	for _, ph := range h.phis {
		if t, ok := h.tv["p:"+ph.Name()]; ok {
			n.env[ph] = t
		}
	}
	for k := range h.drop {
		delete(n.st.mem, k)
	}
	for loc, t := range h.tv {
		if k := h.cellOf[loc]; k != nil && !h.drop[k] {
			n.st.mem[k] = t
		}
	}
	for k := range h.ephole {
		n.st.ep[k] = n.st.ep[k] + "@" + h.id
	}
	if len(h.ephole) > 0 {
		n.st.epver = h.base.st.epver + 1
	}
	if !h.entry {
		sweep(n, h.before, h.phis)
	}
	h.H = n
	if withCands {
		ident := map[*Term]*Term{}
		for _, c := range h.cands {
			if t := c.mk(n.st, ident); t != nil {
				if strings.HasPrefix(c.key, "elems:") {
					n.st.f = n.st.f.fork()
					n.st.f.truth[t] = true
					continue
				}
				n.st.learn(t)
			}
		}
	}
}

// compare generalises the head so that it covers an incoming state; it
// reports whether anything changed.
func (e *Exec) cover(h *loopHead, L *D, known map[*Term]bool) bool {
	ch := false
	H := h.H
	for _, ph := range h.phis {
		t := H.env[ph]
		nt := h.au(t, L.env[ph], ph.Name(), ph.Type())
		if nt != t {
			h.tv["p:"+ph.Name()] = nt
			ch = true
		}
	}
	ephole := func(k string) {
		if !h.ephole[k] {
			h.ephole[k] = true
			ch = true
		}
	}
	dropCell := func(k *Term) {
		if !h.drop[k] {
			h.drop[k] = true
			ch = true
		}
	}
	forget := func(k *Term) {
		r := rootOf(k)
		if isFresh(r) {
			ephole("O:" + strconv.FormatInt(r.n, 10))
		} else {
			ephole(sigOf(k, addrTyp[k]))
			if k.k == KElem || func() bool { x, _ := elemAncestor(k); return x != nil }() {
				ephole("O:" + strconv.Itoa(r.id))
			}
		}
	}
	bst := h.H.st
	isKnown := func(a *Term) bool { return onlyLeaves(a, known) }
	mentionsHole := func(a *Term) bool {
		for _, x := range h.holes {
			if mentions(a, x) {
				return true
			}
		}
		return false
	}
	for k, v := range L.st.mem {
		if k.k == KBArr {
			if !existsIn(k.args[0], bst) || h.drop[k] {
				continue
			}
			if !isKnown(k) || mentionsHole(k) {
				continue
			}
			if H.st.bytes(k.args[0]) != v {
				dropCell(k)
				ephole("B:" + strconv.Itoa(k.args[0].id))
			}
			continue
		}
		if k.k == KApp && !isPG(k) {
			if !existsIn(k, bst) || h.drop[k] {
				continue
			}
			switch k.s {
			case "gh:sb":
				var t *Term
				if x, ok := H.st.mem[k]; ok {
					t = asSeq(x)
				} else {
					t = H.st.sbGet(k.args[0])
				}
				if t != asSeq(v) {
					loc := "m:" + strconv.Itoa(k.id)
					nt := h.au(t, asSeq(v), loc, types.Typ[types.String])
					if nt != t {
						h.tv[loc] = nt
						h.cellOf[loc] = k
						ch = true
					}
				}
			case "gh:maplen":
				t := H.st.mapLen(k.args[0])
				if t != v {
					loc := "m:" + strconv.Itoa(k.id)
					nt := h.au(t, v, loc, lenType)
					if nt != t {
						h.tv[loc] = nt
						h.cellOf[loc] = k
						ch = true
					}
				}
			case "gh:has":
				if H.st.mem[k] != v {
					if _, ok := H.st.mem[k]; ok {
						dropCell(k)
					}
					ephole("M:" + strconv.Itoa(k.args[0].id))
				}
			default:
				if H.st.mem[k] != v {
					if _, ok := H.st.mem[k]; ok {
						dropCell(k)
					}
					ephole("O:" + strconv.FormatInt(k.args[0].n, 10))
				}
			}
			continue
		}
		if !existsIn(k, bst) || h.drop[k] {
			continue
		}
		if t, ok := H.st.mem[k]; ok {
			loc := "m:" + strconv.Itoa(k.id)
			nt := h.au(t, v, loc, addrTyp[k])
			if nt != t {
				h.tv[loc] = nt
				h.cellOf[loc] = k
				ch = true
			}
			continue
		}
		if !isKnown(k) || mentionsHole(k) {
			forget(k)
			continue
		}
		t := H.st.initialOf(k)
		if t == v {
			continue
		}
		loc := "m:" + strconv.Itoa(k.id)
		nt := h.au(t, v, loc, addrTyp[k])
		h.tv[loc] = nt
		h.cellOf[loc] = k
		ch = true
	}
	for k := range H.st.mem {
		if _, ok := L.st.mem[k]; ok || h.drop[k] {
			continue
		}
		if k.k == KApp && k.s == "gh:sb" && existsIn(k, bst) {
			// nothing was written
			t := asSeq(H.st.mem[k])
			loc := "m:" + strconv.Itoa(k.id)
			if nt := h.au(t, L.st.sbGet(k.args[0]), loc, types.Typ[types.String]); nt != t {
				h.tv[loc] = nt
				h.cellOf[loc] = k
				ch = true
			}
			continue
		}
		dropCell(k)
		switch {
		case k.k == KBArr:
			ephole("B:" + strconv.Itoa(k.args[0].id))
		case k.k == KApp && (k.s == "gh:has" || k.s == "gh:maplen"):
			ephole("M:" + strconv.Itoa(k.args[0].id))
		case k.k == KApp:
		default:
			forget(k)
		}
	}
	for k, v := range L.st.ep {
		if H.st.ep[k] != v {
			if strings.HasPrefix(k, "O:") || strings.HasPrefix(k, "B:") || strings.HasPrefix(k, "M:") {
				// objects of the iteration
				if strings.HasPrefix(k, "O:") {
					if n, err := strconv.ParseInt(k[2:], 10, 64); err == nil && int(n) < len(objs) && bst.cnt["obj:"+k[2:]] == 0 {
						if _, ok := h.base.st.ep[k]; !ok && !h.oldRoot(k, n) {
							continue
						}
					}
				}
			}
			ephole(k)
		}
	}
	return ch
}

var freshIn = map[*Term][]*Term{}

// freshLeaves lists the objects of the program that a term mentions.
func freshLeaves(t *Term) []*Term {
	if r, ok := freshIn[t]; ok {
		return r
	}
	var r []*Term
	if t.k == KPtr {
		r = []*Term{t}
	}
	seen := map[*Term]bool{}
	for _, a := range t.args {
		for _, x := range freshLeaves(a) {
			if !seen[x] {
				seen[x] = true
				r = append(r, x)
			}
		}
	}
	freshIn[t] = r
	return r
}

// sweep forgets the objects of an iteration that nothing points to at its end.
func sweep(L *D, before *State, phis []*ssa.Phi) {
	late := func(r *Term) bool { return isFresh(r) && before.cnt["obj:"+strconv.FormatInt(r.n, 10)] == 0 }
	cells := map[*Term][]*Term{}
	for k := range L.st.mem {
		a := k
		if a.k == KApp && len(a.args) > 0 {
			a = a.args[0]
		}
		if r := rootOf(a); late(r) {
			cells[r] = append(cells[r], k)
		}
	}
	live := map[*Term]bool{}
	var work []*Term
	reach := func(t *Term) {
		if t == nil {
			return
		}
		for _, r := range freshLeaves(t) {
			if late(r) && !live[r] {
				live[r] = true
				work = append(work, r)
			}
		}
	}
	for _, ph := range phis {
		reach(L.env[ph])
		reach(L.st.f.find(L.env[ph]))
	}
	for _, v := range L.st.ghost {
		reach(v)
	}
	for _, x := range L.defers {
		reach(x.callee)
		for _, v := range x.args {
			reach(v)
		}
	}
	for k, v := range L.st.mem {
		a := k
		if a.k == KApp && len(a.args) > 0 {
			a = a.args[0]
		}
		if !late(rootOf(a)) {
			reach(k)
			reach(v)
			reach(L.st.f.find(v))
		}
	}
	for len(work) > 0 {
		r := work[0]
		work = work[1:]
		for _, k := range cells[r] {
			reach(k)
			reach(L.st.mem[k])
			reach(L.st.f.find(L.st.mem[k]))
		}
	}
	for r, ks := range cells {
		if !live[r] {
			for _, k := range ks {
				delete(L.st.mem, k)
			}
		}
	}
	for k := range L.st.cnt {
		if strings.HasPrefix(k, "obj:") && before.cnt[k] == 0 {
			n, _ := strconv.ParseInt(k[4:], 10, 64)
			if r := mk(KPtr, "", n, nil, nil); !live[r] {
				delete(L.st.cnt, k)
				delete(L.st.ep, "O:"+k[4:])
			}
		}
	}
}

// oldRoot: the key may also name a term (opaque array) rather than an object.
func (h *loopHead) oldRoot(k string, n int64) bool { return false }

func (e *Exec) bindings(h *loopHead, L *D) map[*Term]*Term {
	b := map[*Term]*Term{}
	for _, ph := range h.phis {
		if t, ok := h.tv["p:"+ph.Name()]; ok {
			h.bind(t, L.env[ph], b)
		}
	}
	for loc, t := range h.tv {
		k := h.cellOf[loc]
		if k == nil || h.drop[k] {
			continue
		}
		v, ok := L.st.mem[k]
		if !ok {
			switch {
			case k.k == KApp && k.s == "gh:sb":
				v = L.st.sbGet(k.args[0])
			case k.k == KApp && k.s == "gh:maplen":
				v = L.st.mapLen(k.args[0])
			default:
				v = L.st.initialOf(k)
			}
		}
		h.bind(t, v, b)
	}
	return b
}

func (e *Exec) fixLoop(fr *Frame, el *wtoElem, d *D, p *pending) {
	head := el.block
	var phis []*ssa.Phi
	for _, in := range head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	d = d.clone()
	lk := fr.path + "/L" + strconv.Itoa(head.Index)
	d.st.cnt[lk]++
	id := lk
	if n := d.st.cnt[lk]; n > 1 {
		id += "~" + strconv.Itoa(n)
	}
	fine := true
	known := knownLeaves(d)
	heads := map[string]*loopHead{}
	var order []string
	mkHead := func(key string, base *D) *loopHead {
		hid := id
		if len(order) > 0 {
			hid += "^" + strconv.Itoa(len(order))
		}
		h := &loopHead{key: key, base: base, before: d.st, phis: phis, tv: map[string]*Term{}, cellOf: map[string]*Term{}, htyp: map[*Term]types.Type{}, drop: map[*Term]bool{}, ephole: map[string]bool{}, id: hid}
		heads[key] = h
		order = append(order, key)
		return h
	}
	h0 := mkHead(e.partKey(fr, head, d, fine), d)
	h0.entry = true
	e.dry++
	type arrival struct {
		from *loopHead
		L    *D
	}
	stable := false
	var exits map[string][]*State
	cover := 0
	for round := 0; round < maxRounds; round++ {
		changed := false
		arr := map[string][]arrival{}
		exits = map[string][]*State{}
		for _, k := range order {
			h := heads[k]
			e.buildHead(h, true)
			ls, sub := e.body(fr, el, []*D{h.H})
			for _, L := range ls {
				sweep(L, d.st, phis)
				lkey := e.partKey(fr, head, L, fine)
				if heads[lkey] == nil {
					if len(order) >= maxHeads {
						if fine {
							fine = false
						}
						lkey = h0.key
					} else {
						nh := mkHead(lkey, L)
						_ = nh
						changed = true
					}
				}
				arr[lkey] = append(arr[lkey], arrival{h, L})
			}
			for b, es := range sub.in {
				if el.blocks[b] {
					continue
				}
				for _, ed := range es {
					exits[k] = append(exits[k], ed.d.st)
				}
			}
			for _, o := range sub.outs {
				exits[k] = append(exits[k], o.st)
			}
		}
		// bases of the derived heads
		for _, k := range order[1:] {
			h := heads[k]
			var base *D
			for _, a := range arr[k] {
				if a.from == h {
					continue
				}
				if base == nil {
					base = a.L
				} else {
					base = &D{st: joinFactsOnly(base.st, a.L.st), env: base.env, defers: base.defers}
				}
			}
			if base == nil {
				continue
			}
			if baseSig(h.base, phis) != baseSig(base, phis) {
				changed = true
			}
			h.base = base
		}
		// cover
		structural := false
		for _, k := range order {
			h := heads[k]
			if h.H == nil {
				structural = true
				continue
			}
			kn := known
			if k != order[0] {
				kn = knownLeaves(h.base)
			}
			for _, a := range arr[k] {
				if e.cover(h, a.L, kn) {
					structural = true
					if round > 3 {
						h.gen = false
						h.cands = nil
					}
				}
			}
			if structural {
				// a base recomputed this round must be covered too
			}
		}
		if structural {
			changed = true
			cover++
			continue
		}
		// candidates; none is dropped for what comes from a head that has none yet
		fresh := false
		for _, k := range order {
			fresh = fresh || !heads[k].gen
		}
		for _, k := range order {
			h := heads[k]
			if fresh && h.gen {
				continue
			}
			if !h.gen {
				h.gen = true
				var ls []*D
				for _, a := range arr[k] {
					ls = append(ls, a.L)
				}
				kn := known
				if k != order[0] {
					kn = knownLeaves(h.base)
				}
				h.cands = e.candidates(h, ls, exits[k], kn)
				// keep those that hold on entry
				var in []*cand
				if h.entry {
					eb := e.bindings(h, d)
					for _, c := range h.cands {
						if candHolds(c, d.st, eb) {
							in = append(in, c)
						}
					}
				} else {
					in = h.cands
				}
				h.cands = in
				changed = true
				continue
			}
			var keep []*cand
			for _, c := range h.cands {
				ok := true
				for _, a := range arr[k] {
					if !candHolds(c, a.L.st, e.bindings(h, a.L)) {
						ok = false
						break
					}
				}
				if ok {
					keep = append(keep, c)
				}
			}
			if len(keep) != len(h.cands) {
				h.cands = keep
				changed = true
			}
		}
		if !changed {
			stable = true
			// ranking function
			if e.dry == 1 && e.hooks.onLoop != nil {
				ok := true
				why := ""
				rank := ""
				next := map[*loopHead]map[*loopHead]bool{}
				for _, k := range order {
					for _, a := range arr[k] {
						if next[a.from] == nil {
							next[a.from] = map[*loopHead]bool{}
						}
						next[a.from][heads[k]] = true
					}
				}
				for _, k := range order {
					h := heads[k]
					// arrivals from the head itself are what must decrease
					var self []*D
					for _, kk := range order {
						for _, a := range arr[kk] {
							if a.from == h {
								self = append(self, a.L)
							}
						}
					}
					r, w := e.rank(fr, el, h, self, heads, e.partKeyFn(fr, head, fine), next)
					if r == "" {
						ok = false
						why = w
					} else {
						rank = r
					}
				}
				e.hooks.onLoop(fr, head, rank, ok, why)
			}
			break
		}
	}
	e.dry--
	if !stable {
		e.unres["no fixpoint for the loop at "+e.pg.pos(head.Instrs[0].Pos())+" in "+fr.fn.String()] = true
		e.loopFail++
	}
	for _, k := range order {
		h := heads[k]
		e.buildHead(h, stable)
		if h.H.st.f.bot {
			continue
		}
		_, sub := e.body(fr, el, []*D{h.H})
		p.absorb(sub)
	}
}

func (e *Exec) partKeyFn(fr *Frame, head *ssa.BasicBlock, fine bool) func(d *D) string {
	return func(d *D) string { return e.partKey(fr, head, d, fine) }
}

func candHolds(c *cand, st *State, b map[*Term]*Term) bool {
	t := c.mk(st, b)
	if t == nil {
		return false
	}
	if strings.HasPrefix(c.key, "elems:") {
		return t == TTrue || st.f.truth[t]
	}
	return st.holds(t)
}

func joinFactsOnly(a, b *State) *State {
	r := joinFacts(a, b)
	return r
}

var freshRe = regexp.MustCompile(`#[0-9]+`)

func baseSig(d *D, phis []*ssa.Phi) string {
	var ss []string
	for _, ph := range phis {
		ss = append(ss, strconv.Itoa(d.env[ph].id))
	}
	var bytes []*Term
	for k, v := range d.st.mem {
		if k.k == KBArr {
			bytes = append(bytes, k)
			continue
		}
		ss = append(ss, strconv.Itoa(k.id)+":"+strconv.Itoa(v.id))
	}
	for _, l := range d.st.f.log {
		ss = append(ss, "f"+strconv.Itoa(l.id))
	}
	// unknown bytes get another name each time
	sort.Slice(bytes, func(i, j int) bool { return bytes[i].id < bytes[j].id })
	name := map[string]string{}
	for _, k := range bytes {
		v := freshRe.ReplaceAllStringFunc(d.st.mem[k].String(), func(n string) string {
			if name[n] == "" {
				name[n] = "#" + strconv.Itoa(len(name))
			}
			return name[n]
		})
		ss = append(ss, strconv.Itoa(k.id)+":"+v)
	}
	sort.Strings(ss)
	return strings.Join(ss, ",")
}

// quantities: the integer atoms that a head varies.
func (h *loopHead) quantities() []*Term {
	var qs []*Term
	for _, a := range h.holes {
		t := h.htyp[a]
		if t == nil {
			continue
		}
		if intType(t) {
			qs = append(qs, a)
		} else if isString(t) {
			qs = append(qs, App("len", lenType, a))
		} else if _, ok := t.Underlying().(*types.Slice); ok {
			qs = append(qs, App("len", lenType, a))
		}
	}
	return qs
}

func bval(b map[*Term]*Term, q *Term) *Term {
	if v, ok := b[q]; ok {
		return I(v)
	}
	return I(q)
}

func polyCand(tag string, p *Term, eq bool) *cand {
	k := "ge:"
	if eq {
		k = "eq:"
	}
	return &cand{key: k + strconv.Itoa(p.id), mk: func(st *State, b map[*Term]*Term) *Term {
		q := p
		if len(b) > 0 {
			q = subst(p, b)
		}
		if eq {
			return Eq0(q)
		}
		return Ge0(q)
	}}
}

// rel: what the value of a variable is, given how many elements were passed.
type rel struct {
	name string
	str  bool
	self bool // about the first n elements alone: at(n) is 0
	at   func(n *Term) *Term
	ok   func(st *State, x, n *Term) bool
}

// candidates proposes invariants of a head.
func (e *Exec) candidates(h *loopHead, ls []*D, exits []*State, known map[*Term]bool) []*cand {
	var cs []*cand
	seen := map[string]bool{}
	add := func(c *cand) {
		if !seen[c.key] && (len(cs) < 320 || (e.scale != nil || e.wide) && len(cs) < 2000) {
			seen[c.key] = true
			cs = append(cs, c)
		}
	}
	ge := func(p *Term) { add(polyCand("", p, false)) }
	eq := func(p *Term) { add(polyCand("", p, true)) }
	qs := h.quantities()
	eb := e.bindings(h, h.base)
	inv := map[*Term]bool{}
	for k := range known {
		inv[k] = true
	}
	hs := map[*Term]bool{}
	for _, a := range h.holes {
		inv[a] = true
		hs[a] = true
	}
	holeFree := func(t *Term) bool {
		for _, a := range h.holes {
			if mentions(t, a) {
				return false
			}
		}
		return true
	}
	var lb []map[*Term]*Term
	for _, L := range ls {
		lb = append(lb, e.bindings(h, L))
	}
	delta := func(i int, q *Term) *Term { return Sub(bval(lb[i], q), I(q)) }
	// holes that only hold for typed objects
	for _, a := range h.holes {
		a := a
		t := h.htyp[a]
		if t == nil || intType(t) || isBool(t) || isString(t) {
			continue
		}
		add(&cand{key: "nn:" + strconv.Itoa(a.id), mk: func(st *State, b map[*Term]*Term) *Term {
			v := a
			if x, ok := b[a]; ok {
				v = st.f.find(x)
			}
			return Not(EqT(v, TNil))
		}})
		if _, ok := t.Underlying().(*types.Slice); ok {
			add(&cand{key: "elems:" + strconv.Itoa(a.id), mk: func(st *State, b map[*Term]*Term) *Term {
				v := a
				if x, ok := b[a]; ok {
					v = st.f.find(x)
				}
				base, _, l, _ := parts(v)
				if base.k == KNil {
					return TTrue
				}
				if len(b) > 0 && st.holds(EqI(l, IntC(0))) {
					return TTrue
				}
				return App("elems:nonnil", nil, base)
			}})
			for _, n := range e.elemPreds {
				n := n
				add(&cand{key: n + ":" + strconv.Itoa(a.id), mk: func(st *State, b map[*Term]*Term) *Term {
					v := a
					if x, ok := b[a]; ok {
						v = st.f.find(x)
					}
					base, _, l, _ := parts(v)
					if base.k == KNil || len(b) > 0 && st.holds(EqI(l, IntC(0))) {
						return TTrue
					}
					return okElems(n, base)
				}})
			}
		}
	}
	// strings that the analysis has predicates for
	for _, a := range h.holes {
		a := a
		if e.strPred == nil || h.htyp[a] == nil || !isString(h.htyp[a]) {
			continue
		}
		for _, n := range e.strPreds {
			n := n
			add(&cand{key: n + ":" + strconv.Itoa(a.id), mk: func(st *State, b map[*Term]*Term) *Term {
				x, ok := b[a]
				if !ok {
					return App(n, nil, a)
				}
				if e.strPred(st, n, st.strSeq(x)) {
					return TTrue
				}
				return TFalse
			}})
		}
	}
	// ... and numbers
	for _, a := range h.holes {
		a := a
		if e.intPred == nil || !intType(h.htyp[a]) {
			continue
		}
		for _, n := range e.intPreds {
			n := n
			add(&cand{key: n + ":" + strconv.Itoa(a.id), mk: func(st *State, b map[*Term]*Term) *Term {
				x, ok := b[a]
				if !ok {
					return App(n, nil, I(a))
				}
				if e.intPred(st, n, I(x)) {
					return TTrue
				}
				return TFalse
			}})
		}
	}
	// ... and what a count determines
	if e.rels != nil {
		for _, r := range e.rels(h.base.st) {
			r := r
			for _, a := range h.holes {
				if h.htyp[a] == nil || r.str != isString(h.htyp[a]) || !r.str && !intType(h.htyp[a]) {
					continue
				}
				for _, b := range h.holes {
					if (a == b) != r.self || h.htyp[b] == nil || !intType(h.htyp[b]) {
						continue
					}
					for off := int64(0); off < 2; off++ {
						a, i, off := a, b, off
						add(&cand{key: fmt.Sprintf("rel:%s:%d:%d:%d", r.name, a.id, i.id, off), mk: func(st *State, b map[*Term]*Term) *Term {
							x, ok := b[a]
							n, ok2 := b[i]
							if !ok2 {
								n = i
							}
							nt := AddC(I(n), off)
							if !ok && r.self {
								return EqI(IntC(0), I(r.at(nt)))
							}
							if !ok {
								if r.str {
									return EqT(a, r.at(nt))
								}
								return EqI(I(a), I(r.at(nt)))
							}
							if r.ok(st, x, nt) {
								return TTrue
							}
							return TFalse
						}})
					}
				}
			}
		}
	}
	// two pointers that are always the same one
	for i, a := range h.holes {
		for _, a2 := range h.holes[i+1:] {
			a, a2 := a, a2
			t, t2 := h.htyp[a], h.htyp[a2]
			if t == nil || t2 == nil || !types.Identical(t, t2) {
				continue
			}
			if _, ok := t.Underlying().(*types.Pointer); !ok {
				continue
			}
			add(&cand{key: "same:" + strconv.Itoa(a.id) + ":" + strconv.Itoa(a2.id), mk: func(st *State, b map[*Term]*Term) *Term {
				v, v2 := a, a2
				if x, ok := b[a]; ok {
					v = st.f.find(x)
				}
				if x, ok := b[a2]; ok {
					v2 = st.f.find(x)
				}
				return EqT(v, v2)
			}})
		}
	}
	for _, q := range qs {
		v0 := bval(eb, q)
		ge(I(q))
		ge(AddC(I(q), -1))
		if e.scale != nil {
			ge(AddC(I(q), 1))
		}
		if holeFree(v0) {
			ge(Sub(I(q), v0))
			ge(Sub(v0, I(q)))
		}
	}
	// guards
	hlog := map[*Term]bool{}
	for _, l := range h.H.st.f.log {
		hlog[l] = true
	}
	guard := func(l *Term, exit bool) {
		var ps []*Term
		switch l.k {
		case KGe0:
			ps = []*Term{l.args[0]}
		case KEq0:
			ps = []*Term{l.args[0], Neg(l.args[0])}
		case KNot:
			if l.args[0].k == KEq0 {
				ps = []*Term{l.args[0].args[0], Neg(l.args[0].args[0])}
			}
		}
		for _, p := range ps {
			// ... when it is a sum with something that is not known at the head
			for n := range ls {
				for _, q := range qs {
					nv := bval(lb[n], q)
					if !e.wide {
						break
					}
					for _, t := range nv.ps {
						if t.m.k == KMono || inv[t.m] || t.c.CmpAbs(bigOne) != 0 || !mentions(p, t.m) {
							continue
						}
						x := I(t.m)
						// q = c*x + rest
						p2 := subst(p, map[*Term]*Term{t.m: MulB(Sub(I(q), Sub(nv, MulB(x, t.c))), t.c)})
						if onlyLeaves(p2, inv) {
							ge(p2)
							if l.k == KNot {
								ge(AddC(p2, -1))
							}
						}
					}
				}
			}
			if holeFree(p) || !onlyLeaves(p, inv) {
				continue
			}
			if exit {
				ge(Neg(p))
				ge(AddC(Neg(p), -1))
			}
			ge(p)
			ge(AddC(p, 1))
			for n := range ls {
				m := map[*Term]*Term{}
				ok := true
				for _, q := range qs {
					d := delta(n, q)
					if d.k == KInt && onlyLeaves(d, known) && holeFree(d) {
						m[q] = Sub(I(q), d)
					} else if mentions(p, q) {
						ok = false
					}
				}
				if ok {
					ge(subst(p, m))
				}
				// the next value of a quantity as such, wrapped around or not
				m2 := map[*Term]*Term{}
				for _, q := range qs {
					if a := bval(lb[n], q).atom(); a != nil && a != q && !isHoleOf(h, a) {
						m2[a] = I(q)
					}
				}
				if len(m2) > 0 {
					if p2 := subst(p, m2); p2 != p {
						ge(p2)
					}
				}
			}
		}
	}
	for _, L := range ls {
		for _, l := range L.st.f.log {
			if !hlog[l] {
				guard(l, false)
			}
		}
	}
	for _, s := range exits {
		for _, l := range s.f.log {
			if !hlog[l] {
				guard(l, true)
			}
		}
	}
	// relations between quantities
	for i, q1 := range qs {
		v1 := bval(eb, q1)
		for j, q2 := range qs {
			if i == j {
				continue
			}
			v2 := bval(eb, q2)
			if i < j {
				eq(Sub(Sub(I(q1), v1), Sub(I(q2), v2)))
				eq(Add(Sub(I(q1), v1), Sub(I(q2), v2)))
				ge(Sub(I(q1), I(q2)))
				ge(Sub(I(q2), I(q1)))
			}
			for n := range ls {
				d1, d2 := delta(n, q1), delta(n, q2)
				if c, ok := d1.constInt(); ok && c.Sign() != 0 && new(big.Int).Abs(c).Cmp(bigOne) == 0 && onlyLeaves(d2, known) && holeFree(d2) {
					// q2 - v2 = d2/d1 * (q1 - v1)
					eq(Sub(Sub(I(q2), v2), Mul(MulB(d2, c), Sub(I(q1), v1))))
				} else if ok && c.Sign() != 0 {
					if c2, ok := d2.constInt(); ok && c2.Sign() != 0 {
						eq(Sub(MulB(Sub(I(q1), v1), c2), MulB(Sub(I(q2), v2), c)))
					}
				}
			}
		}
	}
	// relations with a factor: f*x + y - z and the like stay what they are
	if e.scale != nil {
		cells := map[*Term]bool{}
		for _, q := range qs {
			for _, g := range e.scaled {
				if strings.HasSuffix(q.s, "!m:"+strconv.Itoa(g.id)) {
					cells[q] = true
				}
			}
		}
		var vs []*Term
		for _, q := range qs {
			if cells[q] || q.k == KSym && !strings.Contains(q.s, "!m:") {
				vs = append(vs, q)
			}
		}
		n := 0
		for _, a := range vs {
			ge(AddC(Sub(e.scale, I(a)), -1))
			ge(Sub(e.scale, I(a)))
			va := Mul(e.scale, Sub(I(a), bval(eb, a)))
			if holesIn(e.scale, hs) {
				break
			}
			for i, b := range vs {
				if b == a {
					continue
				}
				vb := Sub(I(b), bval(eb, b))
				if len(cells) == 0 || cells[b] {
					eq(Sub(va, vb))
				}
				if cells[b] {
					for k := int64(-1); k <= 1; k++ {
						eq(Sub(Mul(e.scale, AddC(I(a), k)), I(b)))
					}
				}
				for j, d := range vs {
					if d == a || d == b || n > 400 || len(cells) > 0 && !cells[d] || len(cells) == 0 && j < i {
						continue
					}
					n++
					vd := Sub(I(d), bval(eb, d))
					eq(Sub(Add(va, vb), vd))
					eq(Sub(Sub(va, vb), vd))
					if cells[d] {
						for k := int64(0); k <= 1; k++ {
							eq(Sub(Mul(e.scale, AddC(I(a), k)), Add(I(b), I(d))))
						}
					}
					if len(cells) == 0 {
						eq(Add(Sub(va, vb), vd))
					}
				}
			}
		}
	}
	// strides
	for _, q := range qs {
		q := q
		v0 := bval(eb, q)
		for n := range ls {
			if c, ok := delta(n, q).constInt(); ok && new(big.Int).Abs(c).Cmp(bigOne) > 0 {
				c := new(big.Int).Abs(c)
				add(&cand{key: "stride:" + strconv.Itoa(q.id) + ":" + c.String(), mk: func(st *State, b map[*Term]*Term) *Term {
					x := Sub(bval(b, q), v0)
					if holesIn(v0, hs) {
						return nil
					}
					d := e.div(st, x, IntBig(c), lenType)
					return EqI(x, MulB(d, c))
				}})
			}
		}
	}
	return cs
}

func isHoleOf(h *loopHead, a *Term) bool {
	for _, x := range h.holes {
		if x == a {
			return true
		}
	}
	return false
}

func holesIn(t *Term, hs map[*Term]bool) bool {
	for a := range hs {
		if mentions(t, a) {
			return true
		}
	}
	return false
}

// rank finds a quantity that every way back to the head decreases and that is
// bounded below whenever the loop goes round.
func (e *Exec) rank(fr *Frame, el *wtoElem, h *loopHead, self []*D, heads map[string]*loopHead, key func(d *D) string, next map[*loopHead]map[*loopHead]bool) (string, string) {
	if len(self) == 0 {
		return "no way back", ""
	}
	for b := range el.blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Next); ok && b == el.block {
				return "range", ""
			}
		}
	}
	hlog := map[*Term]bool{}
	for _, l := range h.H.st.f.log {
		hlog[l] = true
	}
	var ps []*Term
	seen := map[*Term]bool{}
	for _, l := range self[0].st.f.log {
		if hlog[l] {
			continue
		}
		var q []*Term
		switch l.k {
		case KGe0:
			q = []*Term{l.args[0]}
		case KNot:
			if l.args[0].k == KEq0 {
				q = []*Term{l.args[0].args[0], Neg(l.args[0].args[0])}
			}
		}
		for _, p := range q {
			if !seen[p] {
				seen[p] = true
				ps = append(ps, p)
			}
		}
	}
	for _, q := range h.quantities() {
		ps = append(ps, I(q), Neg(I(q)))
	}
	kn := knownLeaves(h.H)
	for i, L := range self {
		self[i] = unwrapped(h, L, e.bindings(h, L))
	}
	for _, p := range ps {
		// what comes up during an iteration is something else in the next
		if !onlyLeaves(p, kn) {
			continue
		}
		ok := true
		for _, L := range self {
			// the same quantity in the next iteration
			t := heads[key(L)]
			if t != h {
				// moving to another partition: the quantity is read there
				ok = t != nil && e.crossDecrease(h, L, p, leadsTo(next, t, h))
				if !ok {
					break
				}
				continue
			}
			b := e.bindings(h, L)
			p2 := subst(p, b)
			if !(L.st.holds(Ge0(p)) && L.st.holds(Lt(p2, p))) {
				ok = false
				break
			}
		}
		if ok {
			return p.String(), ""
		}
	}
	return "", "no guard of the loop decreases on every path back"
}

// unwrapped adds, for the sums that the next iteration begins with, that they
// did not overflow if that is known from their signs.
func unwrapped(h *loopHead, L *D, b map[*Term]*Term) *D {
	out := L
	for _, v := range b {
		w := v.atom()
		if w == nil || w.k != KApp || len(w.args) != 1 || (w.s != "wrap:int" && w.s != "wrap:int64") {
			continue
		}
		sum := w.args[0]
		if sum.k != KInt {
			continue
		}
		lo, _ := typeRange(types.Typ[types.Int64])
		size := new(big.Int).Lsh(bigOne, 64)
		if L.st.holds(Ge0(I(w))) && L.st.holds(Ge0(Sub(sum, IntBig(lo)))) && L.st.holds(Lt(sum, IntBig(size))) {
			if out == L {
				out = L.clone()
			}
			out.st.learn(EqI(I(w), sum))
		}
	}
	return out
}

// leadsTo: a partition is entered from another, sooner or later.
func leadsTo(next map[*loopHead]map[*loopHead]bool, from, to *loopHead) bool {
	seen := map[*loopHead]bool{}
	var visit func(h *loopHead) bool
	visit = func(h *loopHead) bool {
		if h == to {
			return true
		}
		if seen[h] {
			return false
		}
		seen[h] = true
		for t := range next[h] {
			if visit(t) {
				return true
			}
		}
		return false
	}
	return visit(from)
}

// crossDecrease: a quantity when a loop goes on in another partition. It must
// decrease there too when the loop may come back.
func (e *Exec) crossDecrease(h *loopHead, L *D, p *Term, back bool) bool {
	b := map[*Term]*Term{}
	for _, ph := range h.phis {
		if tv, ok := h.tv["p:"+ph.Name()]; ok {
			h.bind(tv, L.env[ph], b)
		}
	}
	p2 := subst(p, b)
	if back {
		return L.st.holds(Ge0(p)) && L.st.holds(Lt(p2, p))
	}
	return L.st.holds(Ge0(p)) && L.st.holds(Le(p2, p))
}

func inBlocks(el *wtoElem, b interface{}) bool {
	x, ok := b.(*ssa.BasicBlock)
	return ok && el.blocks[x]
}

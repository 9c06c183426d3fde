package main

// Containers: the doubly linked list and the set.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tLL  = "gotor/utils/ds.LinkedList["
	tSet = "gotor/utils/ds.Set["
)

// methods of a generic type, one instance of each.
func (c *Ctx) instance(typ, name string) *ssa.Function {
	var out *ssa.Function
	for _, f := range c.pg.allFns {
		n := f.RelString(nil)
		if f.Parent() == nil && len(f.Blocks) > 0 && (strings.HasPrefix(n, "(*"+typ) || strings.HasPrefix(n, "("+typ)) && strings.HasSuffix(n, ")."+name) && f.Name() == name {
			if out == nil || n < out.RelString(nil) {
				out = f
			}
		}
	}
	if out == nil {
		// nobody uses it: the generic one
		for _, p := range c.pg.pkgs {
			for _, m := range p.Members {
				t, ok := m.(*ssa.Type)
				if !ok || !strings.HasPrefix(t.Object().Pkg().Path()+"."+t.Object().Name()+"[", typ) {
					continue
				}
				named, ok := t.Type().(*types.Named)
				for i := 0; ok && i < named.NumMethods(); i++ {
					if named.Method(i).Name() == name {
						out = c.pg.prog.FuncValue(named.Method(i))
					}
				}
			}
		}
	}
	if out == nil || len(out.Blocks) == 0 {
		panic(undecided{"no method " + name + " of " + typ + "]"})
	}
	return out
}

func recvElem(f *ssa.Function) types.Type {
	t := f.Params[0].Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// a list, and the nodes around the place where it is changed
type listCase struct {
	c      *Ctx
	e      *Exec
	st     *State
	lt, nt types.Type
	ll     *Term
	headA  *Term
	headT  types.Type
	sizeA  *Term
	nextA  func(n *Term) *Term
	prevA  func(n *Term) *Term
	linkT  types.Type
	nodes  map[int64]bool
	data   int
	dataT  types.Type
}

func (c *Ctx) listCase(f *ssa.Function, label string) *listCase {
	l := &listCase{c: c, nodes: map[int64]bool{}}
	l.e = c.exec(f.RelString(nil))
	c.noPanics(l.e, "panic:"+label)
	l.st = c.state()
	l.lt = recvElem(f)
	s := structOf(l.lt)
	if s == nil {
		panic(undecided{"the list is not a struct"})
	}
	for i := 0; i < s.NumFields(); i++ {
		if p, ok := s.Field(i).Type().Underlying().(*types.Pointer); ok {
			if l.nt == nil {
				l.nt = p.Elem()
			}
		}
	}
	if l.nt == nil || structOf(l.nt) == nil {
		panic(undecided{"the list has no nodes"})
	}
	l.ll = newObj("list:"+label, &objInfo{typ: l.lt, kind: "var"})
	isNode := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		return ok && types.Identical(p.Elem(), l.nt)
	}
	l.headA, l.headT = fieldBy(l.lt, l.ll, "head", isNode)
	l.sizeA, _ = fieldBy(l.lt, l.ll, "size", func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	})
	// which link is which is what Next and Prev say
	ns := structOf(l.nt)
	probe := newObj("probe:"+label, &objInfo{typ: l.nt, kind: "var"})
	find := func(name string) int {
		st := c.state()
		for i := 0; i < ns.NumFields(); i++ {
			if isNode(ns.Field(i).Type()) {
				st.store(FldAddr(probe, l.nt, i), Sym("link"+itoa(i), ns.Field(i).Type()), ns.Field(i).Type())
			}
		}
		g := c.instance("gotor/utils/ds.Node[", name)
		for _, o := range l.e.Run(st, g, []*Term{probe}, nil) {
			for i := 0; i < ns.NumFields(); i++ {
				if o.panic == nil && o.vals[0] == Sym("link"+itoa(i), ns.Field(i).Type()) {
					return i
				}
			}
		}
		panic(undecided{name + " gives no link of the node"})
	}
	ni := find("Next")
	pi := -1
	for i := 0; i < ns.NumFields(); i++ {
		if i != ni && isNode(ns.Field(i).Type()) {
			if pi >= 0 {
				panic(undecided{"a node has more than two links"})
			}
			pi = i
		}
	}
	if pi < 0 {
		panic(undecided{"a node has no link back"})
	}
	l.linkT = ns.Field(ni).Type()
	l.nextA = func(n *Term) *Term { return FldAddr(n, l.nt, ni) }
	l.prevA = func(n *Term) *Term { return FldAddr(n, l.nt, pi) }
	for i := 0; i < ns.NumFields(); i++ {
		if ns.Field(i).Name() == "Data" {
			l.data, l.dataT = i, ns.Field(i).Type()
		}
	}
	l.e.hooks.onStore = func(fr *Frame, st *State, in ssa.Instruction, a, v *Term) {
		root := rootOf(a)
		ok := root.k == KPtr && (root == l.ll || l.nodes[root.n] || !st0has(l, root))
		c.check(ok, "touches:"+label, l.e.pos(in), "only the list and the neighbours of the node are changed", a.String())
	}
	return l
}

// st0has: a node that is part of the case (objects made by the function are not)
func st0has(l *listCase, root *Term) bool { return l.nodes[root.n] }

func (l *listCase) node(name, label string) *Term {
	n := newObj("node:"+name+":"+label, &objInfo{typ: l.nt, kind: "var"})
	l.nodes[n.n] = true
	return n
}

func (l *listCase) link(n, prev, next *Term) {
	l.st.store(l.prevA(n), prev, l.linkT)
	l.st.store(l.nextA(n), next, l.linkT)
}

func (l *listCase) set(head *Term, size *Term) {
	l.st.store(l.headA, head, l.headT)
	l.st.store(l.sizeA, size, types.Typ[types.Int64])
}

type want struct {
	what string
	a    *Term
	v    *Term
	t    types.Type
}

func (l *listCase) run(f *ssa.Function, args []*Term, key, text string, ws []want, more func(o Outcome)) {
	n := 0
	for _, o := range l.e.Run(l.st, f, args, nil) {
		if o.panic != nil {
			continue
		}
		n++
		for _, w := range ws {
			got := o.st.load(w.a, w.t)
			good := o.st.f.find(got) == o.st.f.find(w.v)
			if isInteger(w.t) {
				good = o.st.holds(EqI(got, w.v))
			} else if w.v.k == KNil {
				good = o.st.isNil(got)
			}
			l.c.check(good, key, l.c.pg.pos(f.Pos()), text, w.what+" is "+got.String(), "and should be "+w.v.String(), factsText(o.st))
		}
		if more != nil {
			more(o)
		}
	}
	l.c.check(n > 0, key, l.c.pg.pos(f.Pos()), text, "it never returns")
	l.c.done(l.e, key)
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (c *Ctx) listChecks() {
	i64 := types.Typ[types.Int64]
	nilT := func(t types.Type) *Term { return zeroValue(t) }
	size := I(Sym("size", i64))
	sized := func(l *listCase, min int64) {
		l.st.learn(Ge0(AddC(size, -min)))
		l.st.learn(Le(size, IntC(1<<40)))
	}
	add := func(label string, empty, data bool) {
		c.guard("add:"+label, "adding to a list: "+label, func() {
			name := "AddNodeFront"
			if data {
				name = "AddDataFront"
			}
			f := c.instance(tLL, name)
			l := c.listCase(f, "add:"+label)
			var arg, n, h *Term
			var ws []want
			if data {
				arg = opaqueValue(Sym("data", f.Params[1].Type()), f.Params[1].Type())
			} else {
				// its links may still be those that it had in another list
				n = l.node("n", label)
				l.link(n, Sym("oldprev", l.linkT), Sym("oldnext", l.linkT))
				arg = n
			}
			if empty {
				l.set(nilT(l.headT), IntC(0))
			} else {
				sized(l, 1)
				h = l.node("h", label)
				l.link(h, nilT(l.linkT), Sym("second", l.linkT))
				l.set(h, size)
			}
			after := func(n *Term) []want {
				next := nilT(l.linkT)
				s := IntC(1)
				if !empty {
					next = h
					s = AddC(size, 1)
				}
				w := []want{{"the head", l.headA, n, l.headT}, {"the size", l.sizeA, s, i64}, {"the link from the new node", l.nextA(n), next, l.linkT}, {"the link back from the new node", l.prevA(n), nilT(l.linkT), l.linkT}}
				if !empty {
					w = append(w, want{"the link back from the old head", l.prevA(h), n, l.linkT}, want{"the link from the old head", l.nextA(h), Sym("second", l.linkT), l.linkT})
				}
				return w
			}
			text := "a node that is added is the first, linked both ways with the one that was"
			if !data {
				ws = after(n)
				l.run(f, []*Term{l.ll, arg}, "add:"+label, text, ws, nil)
				return
			}
			l.run(f, []*Term{l.ll, arg}, "add:"+label, text, nil, func(o Outcome) {
				n := o.st.f.find(o.vals[0])
				c.check(n.k == KPtr && n != h, "add:"+label, c.pg.pos(f.Pos()), "the node that is made is returned", n.String())
				if n.k != KPtr {
					return
				}
				for _, w := range after(n) {
					got := o.st.load(w.a, w.t)
					good := o.st.f.find(got) == o.st.f.find(w.v) || isInteger(w.t) && o.st.holds(EqI(got, w.v)) || w.v.k == KNil && o.st.isNil(got)
					c.check(good, "add:"+label, c.pg.pos(f.Pos()), text, w.what+" is "+got.String(), "and should be "+w.v.String())
				}
				got := o.st.load(FldAddr(n, l.nt, l.data), l.dataT)
				c.check(o.st.holds(EqT(got, arg)) || o.st.f.find(got) == o.st.f.find(arg), "data:"+label, c.pg.pos(f.Pos()), "a node holds the data that was added", got.String(), arg.String())
			})
		})
	}
	add("a node, empty list", true, false)
	add("a node", false, false)
	add("data, empty list", true, true)
	add("data", false, true)

	rem := func(label string, build func(l *listCase) (n *Term, ws []want)) {
		c.guard("remove:"+label, "removing from a list: "+label, func() {
			f := c.instance(tLL, "Remove")
			l := c.listCase(f, "remove:"+label)
			n, ws := build(l)
			l.run(f, []*Term{l.ll, n}, "remove:"+label, "a node that is removed leaves the others linked to each other as they were, and the first one is the head", ws, nil)
		})
	}
	rem("the only one", func(l *listCase) (*Term, []want) {
		n := l.node("n", "only")
		l.link(n, nilT(l.linkT), nilT(l.linkT))
		l.set(n, IntC(1))
		return n, []want{{"the head", l.headA, nilT(l.headT), l.headT}, {"the size", l.sizeA, IntC(0), i64}}
	})
	less := AddC(size, -1)
	rem("the first", func(l *listCase) (*Term, []want) {
		sized(l, 2)
		n, x := l.node("n", "first"), l.node("x", "first")
		l.link(n, nilT(l.linkT), x)
		l.link(x, n, Sym("rest", l.linkT))
		l.set(n, size)
		return n, []want{{"the head", l.headA, x, l.headT}, {"the size", l.sizeA, less, i64}, {"the link back from the second", l.prevA(x), nilT(l.linkT), l.linkT}, {"the link from the second", l.nextA(x), Sym("rest", l.linkT), l.linkT}}
	})
	rem("the last of two", func(l *listCase) (*Term, []want) {
		n, p := l.node("n", "last2"), l.node("p", "last2")
		l.link(n, p, nilT(l.linkT))
		l.link(p, nilT(l.linkT), n)
		l.set(p, IntC(2))
		return n, []want{{"the head", l.headA, p, l.headT}, {"the size", l.sizeA, IntC(1), i64}, {"the link from the first", l.nextA(p), nilT(l.linkT), l.linkT}, {"the link back from the first", l.prevA(p), nilT(l.linkT), l.linkT}}
	})
	rem("the last", func(l *listCase) (*Term, []want) {
		sized(l, 3)
		n, p, h := l.node("n", "last"), l.node("p", "last"), l.node("h", "last")
		l.link(n, p, nilT(l.linkT))
		l.link(p, Sym("before", l.linkT), n)
		l.link(h, nilT(l.linkT), Sym("second", l.linkT))
		l.set(h, size)
		return n, []want{{"the head", l.headA, h, l.headT}, {"the size", l.sizeA, less, i64}, {"the link from the one before", l.nextA(p), nilT(l.linkT), l.linkT}, {"the link back from the one before", l.prevA(p), Sym("before", l.linkT), l.linkT}, {"the link from the head", l.nextA(h), Sym("second", l.linkT), l.linkT}}
	})
	rem("the second", func(l *listCase) (*Term, []want) {
		sized(l, 3)
		n, p, x := l.node("n", "second"), l.node("p", "second"), l.node("x", "second")
		l.link(n, p, x)
		l.link(p, nilT(l.linkT), n)
		l.link(x, n, Sym("rest", l.linkT))
		l.set(p, size)
		return n, []want{{"the head", l.headA, p, l.headT}, {"the size", l.sizeA, less, i64}, {"the link from the first", l.nextA(p), x, l.linkT}, {"the link back from the next", l.prevA(x), p, l.linkT}, {"the link from the next", l.nextA(x), Sym("rest", l.linkT), l.linkT}}
	})
	rem("one inside", func(l *listCase) (*Term, []want) {
		sized(l, 4)
		n, p, x, h := l.node("n", "inside"), l.node("p", "inside"), l.node("x", "inside"), l.node("h", "inside")
		l.link(n, p, x)
		l.link(p, Sym("before", l.linkT), n)
		l.link(x, n, Sym("rest", l.linkT))
		l.link(h, nilT(l.linkT), Sym("second", l.linkT))
		l.set(h, size)
		return n, []want{{"the head", l.headA, h, l.headT}, {"the size", l.sizeA, less, i64}, {"the link from the one before", l.nextA(p), x, l.linkT}, {"the link back from the next", l.prevA(x), p, l.linkT}, {"the link back from the one before", l.prevA(p), Sym("before", l.linkT), l.linkT}, {"the link from the next", l.nextA(x), Sym("rest", l.linkT), l.linkT}}
	})
	c.guard("head", "the head of a list", func() {
		f := c.instance(tLL, "Head")
		l := c.listCase(f, "head")
		sized(l, 1)
		h := l.node("h", "head")
		l.set(h, size)
		l.run(f, []*Term{l.ll}, "head", "looking at a list does not change it", []want{{"the head", l.headA, h, l.headT}, {"the size", l.sizeA, size, i64}}, func(o Outcome) {
			c.check(o.st.f.find(o.vals[0]) == h, "head", c.pg.pos(f.Pos()), "the head is the first node", o.vals[0].String())
		})
	})
	c.guard("prev", "the node before", func() {
		f := c.instance("gotor/utils/ds.Node[", "Prev")
		l := c.listCase(c.instance(tLL, "Head"), "prev")
		n, p := l.node("n", "prev"), l.node("p", "prev")
		l.link(n, p, Sym("rest", l.linkT))
		for _, o := range l.e.Run(l.st, f, []*Term{n}, nil) {
			c.check(o.panic == nil && o.st.f.find(o.vals[0]) == p, "prev", c.pg.pos(f.Pos()), "Prev gives the node before")
		}
	})
	c.guard("clear", "clearing a list", func() {
		f := c.instance(tLL, "Clear")
		l := c.listCase(f, "clear")
		sized(l, 1)
		h := l.node("h", "clear")
		l.set(h, size)
		l.run(f, []*Term{l.ll}, "clear", "a list that is cleared is empty", []want{{"the head", l.headA, nilT(l.headT), l.headT}, {"the size", l.sizeA, IntC(0), i64}}, nil)
	})
}

// ------------------------------------------------------------------- sets

func (c *Ctx) setExec(f *ssa.Function, label string) (e *Exec, st *State, s, m *Term, load func(st *State) *Term, mt *types.Map) {
	e = c.exec(f.RelString(nil))
	c.noPanics(e, "panic:"+label)
	st = c.state()
	t := recvElem(f)
	s = newObj("set:"+label, &objInfo{typ: t, kind: "var"})
	a, ft := fieldBy(t, s, "set", func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok })
	mt = ft.Underlying().(*types.Map)
	m = Sym("the map", ft)
	st.store(a, m, ft)
	st.learn(Not(EqT(m, zeroValue(ft))))
	load = func(st *State) *Term { return st.f.find(st.load(a, ft)) }
	e.hooks.anyCall = nil
	e.hooks.call = map[string]func(k *Call) ([]Res, bool){}
	key := func(k *Call) ([]Res, bool) {
		return k.ret(App("key", types.Typ[types.String], k.st.f.find(k.args[0]))), true
	}
	for _, g := range c.pg.allFns {
		if g.Name() == "Key" && len(g.Params) == 1 && g.Signature.Results().Len() == 1 && isString(g.Signature.Results().At(0).Type()) {
			e.hooks.call[fnName(g)] = key
		}
	}
	return
}

func (c *Ctx) setChecks() {
	str := types.Typ[types.String]
	op := func(name string, had bool) {
		label := name + ", absent"
		if had {
			label = name + ", present"
		}
		c.guard("set:"+label, "sets: "+label, func() {
			f := c.instance(tSet, name)
			e, st, s, m, load, mt := c.setExec(f, label)
			x := opaqueValue(Sym("x", f.Params[1].Type()), f.Params[1].Type())
			kx := App("key", str, x)
			ko := Sym("another key", str)
			st.learn(Not(keyEq(kx, ko)))
			has, val := st.mapGet(m, kx, mt.Elem())
			hasO, valO := st.mapGet(m, ko, mt.Elem())
			if had {
				st.learn(has)
			} else {
				st.learn(Not(has))
			}
			n := st.mapLen(m)
			if had {
				st.learn(Ge0(AddC(n, -1)))
			}
			cnt := 0
			for _, o := range e.Run(st, f, []*Term{s, x}, nil) {
				if o.panic != nil {
					continue
				}
				cnt++
				m2 := load(o.st)
				h2, v2 := o.st.mapGet(m2, kx, mt.Elem())
				ho2, vo2 := o.st.mapGet(m2, ko, mt.Elem())
				l2 := o.st.mapLen(m2)
				pos := c.pg.pos(f.Pos())
				det := []string{"members " + m2.String(), factsText(o.st)}
				wantRet, wantHas, wantLen := had, had, n
				switch name {
				case "Add":
					wantRet, wantHas = !had, true
					if !had {
						wantLen = AddC(n, 1)
					}
				case "Remove":
					wantHas = false
					if had {
						wantLen = AddC(n, -1)
					}
				}
				is := func(t *Term, w bool) bool {
					if w {
						return o.st.holds(t)
					}
					return o.st.never(t)
				}
				c.check(is(o.vals[0], wantRet), "result:"+label, pos, "Has tells whether there is a member with the same key; Add and Remove tell whether they changed the set", append(det, "result "+o.vals[0].String())...)
				c.check(is(h2, wantHas), "member:"+label, pos, "after Add there is a member with that key, after Remove there is none", det...)
				if wantHas {
					c.check(o.st.holds(EqT(v2, x)) || o.st.f.find(v2) == o.st.f.find(x) || had && o.st.f.find(v2) == o.st.f.find(val), "value:"+label, pos, "the member with that key is the one that was added", append(det, v2.String())...)
				}
				c.check(o.st.f.find(ho2) == o.st.f.find(hasO) && o.st.f.find(vo2) == o.st.f.find(valO), "others:"+label, pos, "members with other keys stay as they were", append(det, ho2.String()+" was "+hasO.String())...)
				c.check(o.st.holds(EqI(l2, wantLen)), "size:"+label, pos, "the number of members is exact", append(det, l2.String())...)
			}
			c.check(cnt > 0, "ends:"+label, c.pg.pos(f.Pos()), "the operation returns")
			c.done(e, "set:"+label)
		})
	}
	for _, n := range []string{"Has", "Add", "Remove"} {
		op(n, false)
		op(n, true)
	}
	c.guard("set:Size", "sets: Size", func() {
		f := c.instance(tSet, "Size")
		e, st, s, m, load, _ := c.setExec(f, "Size")
		n := st.mapLen(m)
		for _, o := range e.Run(st, f, []*Term{s}, nil) {
			if o.panic == nil {
				c.check(o.st.holds(EqI(o.vals[0], n)) && load(o.st) == m, "size", c.pg.pos(f.Pos()), "Size is the number of members", o.vals[0].String())
			}
		}
		c.done(e, "set:Size")
	})
	c.guard("set:Items", "sets: Items", func() {
		f := c.instance(tSet, "Items")
		e, st, s, m, _, mt := c.setExec(f, "Items")
		n := st.mapLen(m)
		// the members seen so far, in the order in which the loop gives them
		cur := pg("items:n", types.Typ[types.Int64])
		st.mem[cur] = IntC(0)
		c.itemsRule(e, st, m, mt, cur)
		cnt := 0
		for _, o := range e.Run(st, f, []*Term{s}, nil) {
			if o.panic != nil {
				continue
			}
			cnt++
			_, _, l, _ := parts(o.st.f.find(o.vals[0]))
			got := I(o.st.load(cur, types.Typ[types.Int64]))
			c.check(o.st.holds(EqI(l, n)) && o.st.holds(EqI(got, n)) && o.st.ghost["skipped"] == nil, "items", c.pg.pos(f.Pos()), "Items gives each member once, and nothing else", l.String(), got.String(), factsText(o.st))
		}
		c.check(cnt > 0, "items", c.pg.pos(f.Pos()), "Items returns")
		c.done(e, "set:Items")
	})
	c.guard("set:Make", "a new set", func() {
		var f *ssa.Function
		for _, g := range c.pg.allFns {
			if len(g.Blocks) > 0 && g.Name() == "MakeSet" || strings.HasPrefix(g.Name(), "MakeSet[") && strings.HasPrefix(g.RelString(nil), "gotor/utils/ds.MakeSet") {
				f = g
			}
		}
		if f == nil {
			panic(undecided{"MakeSet not found"})
		}
		e := c.exec(f.RelString(nil))
		for _, o := range e.Run(c.state(), f, nil, nil) {
			if o.panic != nil {
				continue
			}
			set := o.st.f.find(o.vals[0])
			ok := false
			for _, a := range set.args {
				a = o.st.f.find(a)
				if a.k == KPtr && objs[a.n].kind == "map" {
					ok = o.st.holds(EqI(o.st.mapLen(a), IntC(0)))
				}
			}
			c.check(ok, "new", c.pg.pos(f.Pos()), "a new set is empty and can be added to", set.String())
		}
		c.done(e, "set:Make")
	})
}

// itemsRule: each member that the loop over m gives is put at the next place
// of the slice, and the loop gives all of them.
func (c *Ctx) itemsRule(e *Exec, st *State, m *Term, mt *types.Map, cur *Term) {
	i64 := types.Typ[types.Int64]
	e.hooks.onNext = func(fr *Frame, st *State, it, k *Term) {
		if st.f.find(it) != st.f.find(m) {
			return
		}
		if st.ghost["item"] != nil {
			st.ghost["skipped"] = TTrue
		}
		delete(st.ghost, "item")
		if k != nil {
			_, v := st.mapGet(m, k, mt.Elem())
			st.ghost["item"] = v
		} else if st.ghost["all"] == nil {
			st.ghost["all"] = TTrue
			if st.ghost["skipped"] == nil {
				st.learn(EqI(I(st.load(cur, i64)), st.mapLen(m)))
			}
		} else {
			st.ghost["skipped"] = TTrue
		}
	}
	put := func(st *State, pos string, at, x *Term) {
		n := I(st.load(cur, i64))
		v := st.ghost["item"]
		if v == nil || st.f.find(v) != st.f.find(x) {
			st.ghost["skipped"] = TTrue
		}
		if e.dry == 0 {
			c.check(st.holds(EqI(at, n)), "items:place", pos, "the members are put one after the other", at.String(), n.String())
		}
		delete(st.ghost, "item")
		st.store(cur, AddC(n, 1), i64)
	}
	isItems := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem(), mt.Elem())
	}
	e.hooks.markAppend = func(fr *Frame, st *State, in ssa.Instruction, s *Term, elems []*Term) {
		if v, ok := in.(ssa.Value); !ok || !isItems(v.Type()) {
			return
		}
		_, _, l, _ := parts(st.f.find(s))
		for i, x := range elems {
			put(st, c.pg.pos(in.Pos()), AddC(l, int64(i)), x)
		}
	}
	e.hooks.markStore = func(fr *Frame, st *State, in ssa.Instruction, addr, x *Term) {
		s, ok := in.(*ssa.Store)
		if !ok || addr.k != KElem {
			return
		}
		if ia, ok := s.Addr.(*ssa.IndexAddr); ok && isItems(ia.X.Type()) {
			put(st, c.pg.pos(in.Pos()), addr.args[1], x)
		}
	}
}

func runC29(c *Ctx) {
	c.listChecks()
	c.setChecks()
}

func init() {
	register(&Prop{
		id: "C29", title: "Lists and sets are exact",
		rule: "each operation of the list is interpreted for every position a node can have in a list of any size, on the nodes around it; each operation of the set for a member that is there and one that is not, and any other key",
		assume: []string{
			"nodes are removed from the list that they are in, and added only when they are in none",
			"the key of a member does not change",
		},
		run: runC29,
	})
}

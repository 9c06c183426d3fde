package main

// Calls: built-in functions, inlining of repository functions, dispatch of
// interface calls over the types the repository converts to an interface, and
// the models of the standard library (std.go).

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Exec) evalCall(d *D, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, evalIn(d, a))
	}
	return evalIn(d, c.Value), args
}

func (e *Exec) staticTarget(c *ssa.CallCommon, callee *Term) *ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return f
	}
	if callee != nil && callee.k == KFn {
		if f, ok := callee.obj.(*ssa.Function); ok {
			return f
		}
	}
	return nil
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.RelString(nil)
}

// doCall executes a call; d is owned by the callee.
func (e *Exec) doCall(fr *Frame, d *D, common *ssa.CallCommon, callee *Term, args []*Term, instr ssa.Instruction, isDefer bool) []Res {
	if callee == nil {
		callee, args = e.evalCall(d, common)
	}
	if common.IsInvoke() {
		return e.invoke(fr, d, common, callee, args, instr)
	}
	callee = d.st.f.find(callee)
	if callee.k == KFn && strings.HasPrefix(callee.s, "builtin:") {
		return e.builtin(fr, d, callee.s[8:], common, args, instr)
	}
	if f := e.staticTarget(common, callee); f != nil {
		var binds []*Term
		if callee.k == KFn {
			binds = callee.args
		}
		return e.callFn(fr, d, f, args, binds, instr, common.Signature(), nil)
	}
	if d.st.isNil(callee) {
		if !fr.rec(instr) && e.hooks.panicOp != nil && e.dry == 0 {
			e.hooks.panicOp(fr, d, instr, "call of a nil function", true)
		}
		return nil
	}
	// function value nobody knows
	c := &Call{e: e, fr: fr, st: d.st, name: "dynamic", args: args, instr: instr, sig: common.Signature(), d: d}
	c.site = e.visit(fr, d.st, instr)
	if e.hooks.anyCall != nil && e.dry == 0 {
		e.hooks.anyCall(c)
	}
	if h := e.hooks.call["dynamic"]; h != nil {
		if rs, ok := h(c); ok {
			return rs
		}
	}
	return unknownCall(c)
}

func (e *Exec) invoke(fr *Frame, d *D, common *ssa.CallCommon, recv *Term, args []*Term, instr ssa.Instruction) []Res {
	recv = d.st.f.find(recv)
	m := common.Method
	if d.st.isNil(recv) {
		if fr.rec(instr) && e.hooks.exploreP {
			return []Res{{st: d.st, panic: App("newerr", nil, mkLit("runtime:nil"))}}
		}
		if !fr.rec(instr) && e.hooks.panicOp != nil && e.dry == 0 {
			e.hooks.panicOp(fr, d, instr, "nil interface method call", true)
		}
		return nil
	}
	if recv.k == KIface {
		if f := e.pg.prog.LookupMethod(recv.typ, m.Pkg(), m.Name()); f != nil {
			return e.callFn(fr, d, f, append([]*Term{recv.args[0]}, args...), nil, instr, common.Signature(), recv)
		}
	}
	full := m.FullName()
	c := &Call{e: e, fr: fr, st: d.st, name: full, args: append([]*Term{recv}, args...), instr: instr, sig: common.Signature(), d: d}
	if h := e.hooks.call[full]; h != nil {
		c.site = e.visit(fr, d.st, instr)
		if e.hooks.anyCall != nil && e.dry == 0 {
			e.hooks.anyCall(c)
		}
		if rs, ok := h(c); ok {
			return e.afterCall(c, rs)
		}
	}
	iface, _ := common.Value.Type().Underlying().(*types.Interface)
	if isRepoType(common.Value.Type()) || m.Pkg() != nil && isRepoPkg(m.Pkg().Path()) {
		var out []Res
		n := 0
		for _, t := range e.pg.implementers(iface) {
			is := e.isType(d.st, recv, t)
			st := d.st.with(is)
			if st == nil {
				continue
			}
			st = st.clone()
			v := e.payload(st, recv, t)
			if _, ok := t.Underlying().(*types.Pointer); ok {
				if !st.learn(Not(EqT(v, TNil))) {
					continue
				}
			}
			f := e.pg.prog.LookupMethod(t, m.Pkg(), m.Name())
			if f == nil {
				continue
			}
			n++
			nd := &D{st: st, env: cloneEnv(d.env), defers: d.defers}
			out = append(out, e.callFn(fr, nd, f, append([]*Term{v}, args...), nil, instr, common.Signature(), recv)...)
		}
		if n > 0 {
			return out
		}
	}
	c.site = e.visit(fr, d.st, instr)
	if e.hooks.anyCall != nil && e.dry == 0 {
		e.hooks.anyCall(c)
	}
	if mdl := stdModel(full); mdl != nil {
		return e.afterCall(c, mdl(c))
	}
	return e.afterCall(c, unknownCall(c))
}

func (e *Exec) afterCall(c *Call, rs []Res) []Res {
	if h := e.hooks.after[c.name]; h != nil {
		h(c, rs)
	}
	return rs
}

const maxDepth = 60

func (e *Exec) callFn(fr *Frame, d *D, f *ssa.Function, args, binds []*Term, instr ssa.Instruction, sig *types.Signature, recv *Term) []Res {
	name := fnName(f)
	c := &Call{e: e, fr: fr, st: d.st, name: name, fn: f, args: args, instr: instr, sig: f.Signature, d: d}
	if e.hooks.anyCall != nil && e.dry == 0 {
		e.hooks.anyCall(c)
	}
	if h := e.hooks.call[name]; h != nil {
		c.site = e.visit(fr, d.st, instr)
		if rs, ok := h(c); ok {
			return e.afterCall(c, rs)
		}
	}
	if len(f.Blocks) > 0 && e.pg.isRepo(f) {
		if e.hooks.opaque == nil || !e.hooks.opaque(f) {
			rec := 0
			for x := fr; x != nil; x = x.parent {
				if x.fn == f {
					rec++
				}
			}
			if rec == 0 && fr.depth < maxDepth {
				nf := &Frame{e: e, fn: f, parent: fr, path: fr.path + ">" + e.pg.instrID(instr) + ":" + f.Name(), depth: fr.depth + 1, callSite: instr}
				outs := e.runFn(nf, d.st, args, binds)
				var rs []Res
				for _, o := range outs {
					rs = append(rs, Res{st: o.st, vals: o.vals, panic: o.panic})
				}
				return e.afterCall(c, rs)
			}
			if h := e.hooks.recursive; h != nil {
				c.site = e.visit(fr, d.st, instr)
				if rs, ok := h(c); ok {
					return e.afterCall(c, rs)
				}
			}
			e.unres["recursive call of "+name] = true
		}
		c.site = e.visit(fr, d.st, instr)
		return e.afterCall(c, unknownCall(c))
	}
	c.site = e.visit(fr, d.st, instr)
	pre, ok := c.precondition()
	if !ok {
		return pre
	}
	if len(pre) > 0 {
		c.st = c.st.clone()
	}
	if mdl := stdModel(name); mdl != nil {
		return append(e.afterCall(c, mdl(c)), pre...)
	}
	if len(f.Blocks) > 0 && f.Synthetic != "" {
		nf := &Frame{e: e, fn: f, parent: fr, path: fr.path + ">" + e.pg.instrID(instr) + ":" + f.Name(), depth: fr.depth + 1, callSite: instr}
		var rs []Res
		for _, o := range e.runFn(nf, d.st, args, binds) {
			rs = append(rs, Res{st: o.st, vals: o.vals, panic: o.panic})
		}
		return e.afterCall(c, rs)
	}
	if strings.HasSuffix(name, ".init") {
		return []Res{{st: d.st}}
	}
	if e.hooks.onExt != nil && e.dry == 0 {
		e.hooks.onExt(fr, d.st, instr, name)
	}
	return append(e.afterCall(c, unknownCall(c)), pre...)
}

// ------------------------------------------------------------ call helpers

func (c *Call) ret(vals ...*Term) []Res { return []Res{{st: c.st, vals: vals}} }

// fresh is an unknown result of this call.
func (c *Call) fresh(name string, t types.Type) *Term {
	return opaqueValue(Sym(name+":"+c.site, t), t)
}

var errorType = types.Universe.Lookup("error").Type()

// newErr is some non-nil error made by this call.
func (c *Call) newErr(name string) *Term {
	return App("newerr", nil, mkLit(name+":"+c.site))
}

// need is an obligation inside a modelled function; it returns false when the
// rest of the model cannot be reached.
func (c *Call) need(what string, ok *Term) ([]Res, bool) {
	e := c.e
	switch c.st.f.decide(ok) {
	case 1:
		if e.hooks.safeOp != nil && e.dry == 0 {
			e.hooks.safeOp(c.fr, c.instr, what)
		}
		return nil, true
	case -1:
		if c.fr.rec(c.instr) && e.hooks.exploreP {
			return []Res{{st: c.st, panic: c.newErr("runtime")}}, false
		}
		if !c.fr.rec(c.instr) && e.hooks.panicOp != nil && e.dry == 0 {
			e.hooks.panicOp(c.fr, c.d, c.instr, what+": need "+ok.String(), true)
		}
		return nil, false
	}
	var rs []Res
	if c.fr.rec(c.instr) && e.hooks.exploreP {
		if bad := c.st.with(Not(ok)); bad != nil {
			rs = append(rs, Res{st: bad.clone(), panic: c.newErr("runtime")})
		}
	} else if !c.fr.rec(c.instr) && e.hooks.panicOp != nil && e.dry == 0 {
		e.hooks.panicOp(c.fr, c.d, c.instr, what+": need "+ok.String(), false)
	}
	st := c.st.with(ok)
	if st == nil {
		return rs, false
	}
	c.st = st.clone()
	return rs, true
}

func resultTypes(sig *types.Signature) []types.Type {
	var r []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, sig.Results().At(i).Type())
	}
	return r
}

func isErrorType(t types.Type) bool { return types.Identical(t, errorType) }

// valErr forks into success (fresh non-nil values, nil error) and failure.
func (c *Call) valErr(ok func(st *State) []*Term) []Res {
	rt := resultTypes(c.sig)
	good := c.st.clone()
	vals := ok(good)
	vals = append(vals, TNil)
	bad := c.st.clone()
	var bv []*Term
	for _, t := range rt[:len(rt)-1] {
		bv = append(bv, zeroValue(t))
	}
	bv = append(bv, c.newErr("fail"))
	return []Res{{st: good, vals: vals}, {st: bad, vals: bv}}
}

// unknownCall: nothing is known about the callee.
func unknownCall(c *Call) []Res {
	for _, a := range c.args {
		a = c.st.f.find(a)
		havocArg(c, a)
	}
	if c.fn != nil && c.e.pg.isRepo(c.fn) || c.name == "dynamic" {
		c.st.havocHeap("u"+strconv.Itoa(len(c.st.ep["*"])), nil)
	}
	rt := resultTypes(c.sig)
	if len(rt) > 0 && isErrorType(rt[len(rt)-1]) {
		good := c.st.clone()
		var gv, bv []*Term
		for i, t := range rt[:len(rt)-1] {
			v := c.fresh("r"+strconv.Itoa(i), t)
			gv = append(gv, v)
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Chan:
				good.learn(Not(EqT(v, TNil)))
			}
			if intType(t) {
				bv = append(bv, c.fresh("rb"+strconv.Itoa(i), t))
			} else {
				bv = append(bv, zeroValue(t))
			}
		}
		gv = append(gv, TNil)
		bv = append(bv, c.newErr("fail"))
		return []Res{{st: good, vals: gv}, {st: c.st.clone(), vals: bv}}
	}
	var vals []*Term
	for i, t := range rt {
		v := c.fresh("r"+strconv.Itoa(i), t)
		vals = append(vals, v)
		// constructors of the standard library do not return nil pointers
		if _, ok := t.Underlying().(*types.Pointer); ok && len(rt) == 1 {
			c.st.learn(Not(EqT(v, TNil)))
		}
	}
	return c.ret(vals...)
}

// havocArg forgets what a callee may change through an argument.
func havocArg(c *Call, a *Term) { havocArgSeen(c, a, map[*Term]bool{}) }

func havocArgSeen(c *Call, a *Term, seen map[*Term]bool) {
	switch a.k {
	case KSlice:
		havocBase(c, a.args[0], seen)
	case KIface:
		havocArgSeen(c, a.args[0], seen)
	case KPtr:
		havocBase(c, a, seen)
	case KFn, KStruct, KTuple:
		for _, b := range a.args {
			havocArgSeen(c, b, seen)
		}
	case KFld, KElem:
		havocArgSeen(c, rootOf(a), seen)
	}
}

// havocBase forgets the contents of an object that was handed to a call, and
// of the objects reached from it.
func havocBase(c *Call, base *Term, seen map[*Term]bool) {
	if base.k == KNil || seen[base] {
		return
	}
	seen[base] = true
	var w map[string]bool
	if c.fn != nil && c.e.pg.isRepo(c.fn) {
		w = c.e.pg.writes(c.fn)
	}
	for k, v := range c.st.mem {
		if rootOf(k) == base {
			if v != nil {
				havocArgSeen(c, c.st.f.find(v), seen)
			}
		}
	}
	keep := func(k *Term) bool {
		return w != nil && !w["?"] && k.k == KFld && !w[sigOf(k, nil)]
	}
	kept := map[*Term]*Term{}
	for k, v := range c.st.mem {
		if rootOf(k) == base {
			if keep(k) {
				kept[k] = v
			}
			delete(c.st.mem, k)
		}
	}
	for k, v := range kept {
		c.st.mem[k] = v
	}
	tag := "x" + strconv.Itoa(mkLit(c.site).id)
	c.st.ep["B:"+strconv.Itoa(base.id)] += tag
	if base.k == KPtr {
		c.st.ep["O:"+strconv.FormatInt(base.n, 10)] += tag
		if objs[base.n].kind == "map" {
			c.st.ep["M:"+strconv.Itoa(base.id)] += tag
			for k := range c.st.mem {
				if k.k == KApp && len(k.args) > 0 && k.args[0] == base {
					delete(c.st.mem, k)
				}
			}
		}
	}
	c.st.epver++
}

// writes is the set of fields that a function, or one that it calls or starts,
// may write. "?" stands for calls that are not known.
func (pg *Program) writes(fn *ssa.Function) map[string]bool {
	if w, ok := pg.wmemo[fn]; ok {
		return w
	}
	w := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !pg.isRepo(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if !addrOnlyRead(x, map[ssa.Value]bool{}) {
						w["F:"+shortType(x.X.Type().Underlying().(*types.Pointer).Elem())+"."+strconv.Itoa(x.Field)] = true
					}
				case *ssa.Store:
					var all func(t types.Type)
					all = func(t types.Type) {
						s := structOf(t)
						if s == nil {
							return
						}
						for i := 0; i < s.NumFields(); i++ {
							w["F:"+shortType(t)+"."+strconv.Itoa(i)] = true
							all(s.Field(i).Type())
						}
					}
					all(x.Val.Type())
				case *ssa.MakeClosure:
					visit(x.Fn.(*ssa.Function))
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					cm := ci.Common()
					if g := cm.StaticCallee(); g != nil {
						visit(g)
					} else if cm.IsInvoke() {
						for _, t := range pg.implementers(cm.Value.Type().Underlying().(*types.Interface)) {
							visit(pg.method(t, cm.Method.Name()))
						}
					} else if _, ok := cm.Value.(*ssa.Builtin); !ok {
						w["?"] = true
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
	}
	visit(fn)
	pg.wmemo[fn] = w
	return w
}

// ------------------------------------------------------------ builtins

func (e *Exec) builtin(fr *Frame, d *D, name string, common *ssa.CallCommon, args []*Term, instr ssa.Instruction) []Res {
	st := d.st
	ret := func(v ...*Term) []Res { return []Res{{st: st, vals: v}} }
	at := func(i int) types.Type { return common.Args[i].Type() }
	c := &Call{e: e, fr: fr, st: st, name: "builtin." + name, args: args, instr: instr, sig: common.Signature(), d: d}
	if h := e.hooks.call["builtin."+name]; h != nil {
		c.site = e.visit(fr, st, instr)
		if rs, ok := h(c); ok {
			return rs
		}
	}
	switch name {
	case "len":
		n := st.lenOf(args[0], at(0))
		if _, ok := at(0).Underlying().(*types.Map); ok {
			st.learn(Ge0(I(n)))
		}
		return ret(n)
	case "cap":
		switch at(0).Underlying().(type) {
		case *types.Slice:
			_, _, _, cp := parts(st.f.find(args[0]))
			return ret(cp)
		}
		if args[0].k == KPtr && objs[args[0].n].kind == "chan" && objs[args[0].n].capT != nil {
			return ret(objs[args[0].n].capT)
		}
		return ret(I(App("cap", lenType, args[0])))
	case "ssa:wrapnilchk":
		return ret(args[0])
	case "recover":
		v := st.ghost["panicking"]
		if v == nil {
			return ret(TNil)
		}
		delete(st.ghost, "panicking")
		return ret(v)
	case "print", "println":
		return ret()
	case "min", "max":
		var out []Res
		for i := range args {
			s := st
			for j := range args {
				if i == j || s == nil {
					continue
				}
				lo, hi := I(args[i]), I(args[j])
				if name == "max" {
					lo, hi = hi, lo
				}
				if j < i {
					s = s.with(Lt(lo, hi))
				} else {
					s = s.with(Le(lo, hi))
				}
			}
			if s != nil {
				out = append(out, Res{st: s.clone(), vals: []*Term{args[i]}})
			}
		}
		return out
	case "delete":
		m := st.f.find(args[0])
		if st.isNil(m) {
			return ret()
		}
		mt := at(0).Underlying().(*types.Map)
		if e.hooks.markMap != nil {
			e.hooks.markMap(fr, st, instr, m, args[1], nil)
		}
		if e.hooks.onStore != nil && e.dry == 0 {
			e.hooks.onStore(fr, st, instr, mk(KElem, "", 0, nil, nil, m, args[1]), nil)
		}
		// fork on presence so that the size stays exact
		has, _ := st.mapGet(m, args[1], mt.Elem())
		var out []Res
		if t := st.with(has); t != nil {
			t = t.clone()
			t.mapDelete(m, args[1], mt.Elem())
			out = append(out, Res{st: t})
		}
		if f := st.with(Not(has)); f != nil {
			out = append(out, Res{st: f.clone()})
		}
		return out
	case "close":
		c.site = e.visit(fr, st, instr)
		if e.hooks.anyCall != nil && e.dry == 0 {
			e.hooks.anyCall(c)
		}
		if st.isNil(args[0]) && e.hooks.panicOp != nil && e.dry == 0 && !fr.rec(instr) {
			e.hooks.panicOp(fr, d, instr, "close of nil channel", true)
			return nil
		}
		if e.hooks.comm != nil {
			e.hooks.comm(&Comm{e: e, fr: fr, st: st, in: instr, kind: "close", ch: st.f.find(args[0]), plain: true})
		}
		return ret()
	case "copy":
		return e.doCopy(fr, st, args, at(1), instr)
	case "append":
		return e.doAppend(fr, st, args, common, instr)
	case "clear":
		return unknownCall(c)
	}
	return unknownCall(c)
}

func (e *Exec) doCopy(fr *Frame, st *State, args []*Term, srcT types.Type, instr ssa.Instruction) []Res {
	dst := st.f.find(args[0])
	db, do, dl, _ := parts(dst)
	var sl *Term
	src := st.f.find(args[1])
	if isString(srcT) {
		sl = seqLen(asSeq(src))
	} else {
		_, _, sl, _ = parts(src)
	}
	var out []Res
	one := func(s *State, n *Term) {
		if s == nil {
			return
		}
		s = s.clone()
		if c, ok := n.constInt(); ok && c.Sign() == 0 || db.k == KNil {
			out = append(out, Res{st: s, vals: []*Term{IntC(0)}})
			return
		}
		var content *Term
		if isString(srcT) {
			content = seqSlice(s.f, asSeq(src), IntC(0), n)
		} else if isByteSlice(srcT) {
			content = seqSlice(s.f, s.sliceContent(src), IntC(0), n)
		} else {
			e.visit(fr, s, instr)
			if isFresh(db) {
				s.bumpObj(db, "c")
			} else {
				s.havocHeap("cp", nil)
			}
			out = append(out, Res{st: s, vals: []*Term{n}})
			return
		}
		if content == nil {
			content = Seq(mkSub(App("cut", nil, args[1], n), IntC(0), n))
		}
		if e.hooks.onStore != nil && e.dry == 0 {
			e.hooks.onStore(fr, s, instr, mk(KElem, "", 0, nil, nil, db, do), content)
		}
		s.writeBytes(db, do, content)
		out = append(out, Res{st: s, vals: []*Term{n}})
	}
	if st.holds(Le(sl, dl)) {
		one(st, sl)
	} else if st.holds(Le(dl, sl)) {
		one(st, dl)
	} else {
		one(st.with(Le(sl, dl)), sl)
		one(st.with(Lt(dl, sl)), dl)
	}
	return out
}

// bumpObj makes all cells of a fresh object unknown.
func (s *State) bumpObj(t *Term, tag string) {
	for k := range s.mem {
		if rootOf(k) == t {
			delete(s.mem, k)
		}
	}
	delete(s.mem, App("prev", nil, t))
	if t.k == KPtr {
		s.ep["O:"+strconv.FormatInt(t.n, 10)] += tag + strconv.Itoa(s.epver)
	} else {
		s.ep["O:"+strconv.Itoa(t.id)] += tag + strconv.Itoa(s.epver)
	}
	s.epver++
}

func (e *Exec) doAppend(fr *Frame, st *State, args []*Term, common *ssa.CallCommon, instr ssa.Instruction) []Res {
	s := st.f.find(args[0])
	sb, so, sl, sc := parts(s)
	et := common.Args[0].Type().Underlying().(*types.Slice).Elem()
	bytesT := isByte(et)
	if len(args) < 2 {
		return []Res{{st: st, vals: []*Term{s}}}
	}
	x := st.f.find(args[1])
	var xl, content *Term
	var xb, xo *Term
	if isString(common.Args[1].Type()) {
		content = asSeq(x)
		xl = seqLen(content)
	} else {
		xb, xo, xl, _ = parts(x)
		if bytesT {
			content = st.sliceContent(x)
		}
	}
	if c, ok := xl.constInt(); ok && c.Sign() == 0 {
		return []Res{{st: st, vals: []*Term{s}}}
	}
	nl := Add(sl, xl)
	// the elements appended, when their number is known
	var elems []*Term
	if !bytesT {
		if n, ok := xl.constI64(); ok && n <= 16 {
			for i := int64(0); i < n; i++ {
				elems = append(elems, st.load(mk(KElem, "", 0, nil, nil, xb, AddC(xo, i)), et))
			}
		}
	}
	if e.hooks.markAppend != nil {
		e.hooks.markAppend(fr, st, instr, s, elems)
	}
	if e.hooks.onAppend != nil {
		e.hooks.onAppend(fr, st, instr, s, elems, nil)
	}
	nonnil := len(elems) > 0
	for _, v := range elems {
		if !st.nonNil(v) {
			nonnil = false
		}
	}
	allOK := func(n string) bool {
		for _, v := range elems {
			if !e.elemOK(st, n, v, et) {
				return false
			}
		}
		return true
	}
	inPlace := sb.k != KNil && st.holds(Le(nl, sc))
	if inPlace {
		e.visit(fr, st, instr)
		if bytesT {
			if e.hooks.onStore != nil && e.dry == 0 {
				e.hooks.onStore(fr, st, instr, mk(KElem, "", 0, nil, nil, sb, Add(so, sl)), content)
			}
			st.writeBytes(sb, Add(so, sl), content)
		} else if elems != nil {
			for i, v := range elems {
				st.store(mk(KElem, "", 0, nil, nil, sb, Add(Add(so, sl), IntC(int64(i)))), v, et)
			}
		} else {
			st.bumpObj(sb, "a")
		}
		for _, n := range e.elemPreds {
			ok := okElems(n, sb)
			st.setTruth(ok, len(elems) > 0 && allOK(n) && (st.holds(EqI(sl, IntC(0))) || st.f.truth[ok]))
		}
		return []Res{{st: st, vals: []*Term{mkSlice(sb, so, nl, sc)}}}
	}
	oldNonnil := sb.k == KNil || st.holds(EqI(sl, IntC(0))) || st.f.truth[App("elems:nonnil", nil, sb)]
	t := e.newObj(fr, st, instr, "", &objInfo{typ: et, kind: "array", capT: nil})
	capT := I(App("cap", lenType, t))
	objs[t.n].capT = capT
	e.clearObj(st, t)
	// the capacity of the new array is some number >= the length
	cv := I(Sym("cap:"+fr.path+"/"+e.pg.instrID(instr)+"~"+strconv.Itoa(st.cnt[fr.path+"/"+e.pg.instrID(instr)]), lenType))
	objs[t.n].capT = cv
	st.learn(Le(nl, cv))
	if bytesT {
		old := IntC(0)
		_ = old
		oc := Seq()
		if sb.k != KNil {
			oc = st.sliceContent(s)
		}
		st.mem[mk(KBArr, "", 0, nil, nil, t)] = Seq(oc, content, mkSub(Sym("spare:"+strconv.Itoa(t.id), nil), IntC(0), Sub(cv, nl)))
	} else {
		st.ep["O:"+strconv.FormatInt(t.n, 10)] = "app"
		if sb.k != KNil {
			st.mem[App("prev", nil, t)] = mk(KTuple, "", 0, nil, nil, sb, so, sl)
			// carry the cells with known values
			if isFresh(sb) && so == IntC(0) {
				for k, v := range st.mem {
					el, _ := elemAncestor(k)
					if el == nil || el.args[0] != sb || el.args[1].k != KInt {
						continue
					}
					if st.holds(Lt(el.args[1], sl)) {
						nk := replaceElem(k, mk(KElem, "", 0, nil, nil, t, el.args[1]))
						addrTyp[nk] = addrTyp[k]
						st.mem[nk] = v
					}
				}
			}
		}
		if elems != nil {
			for i, v := range elems {
				st.store(mk(KElem, "", 0, nil, nil, t, Add(sl, IntC(int64(i)))), v, et)
			}
		}
	}
	key := App("elems:nonnil", nil, t)
	if nonnil && oldNonnil {
		st.f = st.f.fork()
		st.f.truth[key] = true
	} else if st.f.truth[key] {
		st.f = st.f.fork()
		delete(st.f.truth, key)
	}
	for _, n := range e.elemPreds {
		was := sb.k == KNil || st.holds(EqI(sl, IntC(0))) || st.f.truth[okElems(n, sb)]
		st.setTruth(okElems(n, t), was && len(elems) > 0 && allOK(n))
	}
	r := mkSlice(t, IntC(0), nl, cv)
	if e.hooks.onAppend != nil {
		e.hooks.onAppend(fr, st, instr, s, elems, r)
	}
	return []Res{{st: st, vals: []*Term{r}}}
}

// okElems: all the elements of an array satisfy a predicate of the analysis.
func okElems(n string, base *Term) *Term { return App("elems:"+n, nil, base) }

func (s *State) setTruth(t *Term, v bool) {
	if s.f.truth[t] == v {
		return
	}
	s.f = s.f.fork()
	if v {
		s.f.truth[t] = true
	} else {
		delete(s.f.truth, t)
	}
}

// ------------------------------------------------------------ invariants

// Inv is a class invariant: facts about an object of a type, given its address.
type Inv func(e *Exec, st *State, ptr *Term) []*Term

// materialise assumes the class invariant of an object nobody has modified.
func (e *Exec) materialise(fr *Frame, d *D, ptr *Term, typ types.Type) {
	if e.noInv > 0 || len(e.invs) == 0 || isFresh(rootOf(ptr)) {
		return
	}
	inv := e.invs[shortType(typ)]
	if inv == nil {
		return
	}
	if v, ok := d.st.mat[ptr]; ok && v == d.st.epver {
		return
	}
	for k := range d.st.mem {
		if k.k == KFld && k.args[0] == ptr {
			d.st.mat[ptr] = d.st.epver
			return
		}
	}
	e.noInv++
	e.dry++
	st := d.st.clone()
	facts := inv(e, st, ptr)
	e.dry--
	e.noInv--
	n := d.st.clone()
	n.mat[ptr] = n.epver
	for _, f := range facts {
		if !n.learn(f) {
			break
		}
	}
	d.st = n
}

// getter evaluates a method of ptr quietly: the single result it must have.
func (e *Exec) getter(st *State, ptr *Term, name string, args ...*Term) *Term {
	f := e.pg.fn(name)
	if f == nil {
		panic(undecided{"anchor not found: " + name})
	}
	e.dry++
	e.noInv++
	h := e.hooks
	e.hooks = &Hooks{}
	fs := e.fnSeen
	e.fnSeen = nil
	outs := e.Run(st, f, append([]*Term{ptr}, args...), nil)
	e.fnSeen = fs
	e.hooks = h
	e.noInv--
	e.dry--
	var r *Term
	for _, o := range outs {
		if o.panic != nil || len(o.vals) == 0 {
			continue
		}
		if r != nil && r != o.vals[0] {
			panic(undecided{fmt.Sprintf("%s has several results", name)})
		}
		r = o.vals[0]
	}
	if r == nil {
		panic(undecided{name + " has no result"})
	}
	return r
}

package main

// Which goroutine touches what, holding which locks.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type raceThread struct {
	name    string
	fn      *ssa.Function
	session bool // one of the goroutines of a session
	many    bool // there may be several of them at once
	parent  *raceThread
	given   map[int64]bool // the objects that it has from the one that started it
	common  map[int64]bool // the objects that it has in common with others started by the same statement
	lends   bool
	base    int64          // objects below this one were made when the program started
	gave    map[int64]bool // the objects that it gave to those that it started
}

type access struct {
	t      *raceThread
	class  string
	write  bool
	atomic bool
	held   map[string]bool // name -> exclusive
	root   *Term
	before bool // the goroutines that it starts do not run yet, or any more
	pos    string
	fn     string
}

type races struct {
	c     *Ctx
	accs  map[string]*access
	order []string
	// order of locks: held -> taken
	edges             map[string]map[string]string
	n                 int
	lent, back, given bool
	base              int64
}

func isBytes(t types.Type) bool { return t.String() == "[]byte" }

func mentionsRecv(t *Term) bool {
	if t == nil {
		return false
	}
	set := map[*Term]bool{}
	leaves(t, set, map[*Term]bool{})
	for l := range set {
		if l.k == KSym && strings.HasPrefix(l.s, "recv:") {
			return true
		}
	}
	return false
}

func isSignal(t types.Type) bool { return t.Underlying().String() == "struct{}" }

// className names a memory cell by the field that it is, or is reached by.
func className(a *Term) string {
	switch a.k {
	case KFld:
		o := fldOwner[a]
		return o + "." + a.s
	case KElem:
		return valueClass(a.args[0]) + "[]"
	case KGlob:
		return a.s
	case KPtr:
		if o := objs[a.n]; o.typ != nil {
			return "new " + shortType(o.typ)
		}
	}
	if t := addrTyp[a]; t != nil {
		return "*" + shortType(t)
	}
	return "*?"
}

// valueClass names where a slice, map or pointer comes from.
func valueClass(v *Term) string {
	switch v.k {
	case KSlice, KArr:
		return valueClass(v.args[0])
	case KLoad:
		return className(v.args[0])
	case KPtr, KFld, KGlob:
		return className(v)
	case KElem:
		return className(v)
	case KSym:
		if strings.HasPrefix(v.s, "recv:") {
			return "received"
		}
		if v.typ != nil {
			return "a " + shortType(v.typ)
		}
	}
	if v.typ != nil {
		return "some " + shortType(v.typ)
	}
	return "something"
}

func syncType(t types.Type) bool {
	s := shortType(t)
	s = strings.TrimPrefix(s, "*")
	return strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "sync/atomic.")
}

// lockName names a lock by its field and by the kind of object that has it.
func lockName(a *Term) string { return className(a) }

func (r *races) record(k access) {
	var hs []string
	for h, x := range k.held {
		hs = append(hs, fmt.Sprint(h, x))
	}
	sort.Strings(hs)
	key := fmt.Sprint(k.t.name, "|", k.class, "|", k.write, k.atomic, k.before, "|", strings.Join(hs, ","), "|", rootKind(k.root))
	if r.accs[key] == nil {
		q := k
		r.accs[key] = &q
		r.order = append(r.order, key)
	}
}

func rootKind(t *Term) string {
	if t == nil {
		return ""
	}
	return fmt.Sprint(t.id)
}

func held(st *State) map[string]bool {
	m := map[string]bool{}
	for g, v := range st.ghost {
		if strings.HasPrefix(g, "held:") {
			m[g[5:]] = v == TTrue
		}
	}
	return m
}

// run interprets a goroutine and those that it starts.
func (r *races) run(t *raceThread, st *State, args, binds []*Term, depth int) {
	c := r.c
	t.base = r.base
	e := c.exec(t.fn.RelString(nil))
	e.noFail = true
	e.invs = c.allInvs()
	e.sc, e.unrollMax = 40, 8
	h := map[string]func(k *Call) ([]Res, bool){}
	e.hooks.call = h
	acc := func(fr *Frame, st *State, in ssa.Instruction, class string, root *Term, write, atomic bool) {
		if e.dry != 0 {
			return
		}
		r.n++
		if st.ghost["back"] != nil && mentionsRecv(root) {
			c.check(false, "lent", e.pos(in), "a buffer that was lent is not used after it was given back", class, fr.stack())
		}
		before := st.ghost["gos"] == nil || st.ghost["waited"] != nil
		if !before && root != nil && root.k == KPtr {
			before = r.early(fr, in, root)
		}
		r.record(access{t: t, class: class, write: write, atomic: atomic, held: held(st), root: root, before: before, pos: e.pos(in), fn: fr.fn.RelString(nil)})
	}
	var cell func(fr *Frame, st *State, in ssa.Instruction, a *Term, typ types.Type, write, atomic bool)
	cell = func(fr *Frame, st *State, in ssa.Instruction, a *Term, typ types.Type, write, atomic bool) {
		if syncType(typ) && !atomic {
			return
		}
		if s := openStruct(typ); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				cell(fr, st, in, FldAddr(a, typ, i), s.Field(i).Type(), write, atomic)
			}
			return
		}
		if immutableSig[sigOf(a, typ)] && !write {
			return
		}
		root := rootOf(a)
		acc(fr, st, in, className(a), root, write, atomic)
	}
	elems := func(fr *Frame, st *State, in ssa.Instruction, sv ssa.Value, v *Term, write bool) {
		v = st.f.find(v)
		if r.local(sv, map[ssa.Value]bool{}) {
			return
		}
		if v.k == KNil || v.k == KSeq {
			return
		}
		base, _, _, _ := parts(v)
		if base.k == KNil {
			return
		}
		acc(fr, st, in, valueClass(v)+"[]", rootOf(baseOf(base)), write, false)
	}
	e.hooks.onInstr = func(fr *Frame, d *D, in ssa.Instruction) {
		if e.dry != 0 {
			return
		}
		ev := func(v ssa.Value) *Term { return d.st.f.find(evalIn(d, v)) }
		st := d.st
		switch x := in.(type) {
		case *ssa.Store:
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok && r.local(ia.X, map[ssa.Value]bool{}) {
				return
			}
			cell(fr, st, in, ev(x.Addr), x.Val.Type(), true, false)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if ia, ok := x.X.(*ssa.IndexAddr); ok && r.local(ia.X, map[ssa.Value]bool{}) {
					return
				}
				cell(fr, st, in, ev(x.X), x.Type(), false, false)
			}
		case *ssa.MapUpdate:
			acc(fr, st, in, "map "+valueClass(ev(x.Map)), rootOf(ev(x.Map)), true, false)
		case *ssa.Lookup:
			if _, ok := x.X.Type().Underlying().(*types.Map); ok {
				acc(fr, st, in, "map "+valueClass(ev(x.X)), rootOf(ev(x.X)), false, false)
			}
		case *ssa.Range:
			if _, ok := x.X.Type().Underlying().(*types.Map); ok {
				acc(fr, st, in, "map "+valueClass(ev(x.X)), rootOf(ev(x.X)), false, false)
			}
		case ssa.CallInstruction:
			cc := x.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "delete":
					acc(fr, st, in, "map "+valueClass(ev(cc.Args[0])), rootOf(ev(cc.Args[0])), true, false)
				case "len":
					if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
						acc(fr, st, in, "map "+valueClass(ev(cc.Args[0])), rootOf(ev(cc.Args[0])), false, false)
					}
				case "append":
					elems(fr, st, in, cc.Args[0], ev(cc.Args[0]), true)
					if _, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok {
						elems(fr, st, in, cc.Args[1], ev(cc.Args[1]), false)
					}
				case "copy":
					elems(fr, st, in, cc.Args[0], ev(cc.Args[0]), true)
					if _, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok {
						elems(fr, st, in, cc.Args[1], ev(cc.Args[1]), false)
					}
				}
				return
			}
			n := callName(x)
			if f := cc.StaticCallee(); f != nil && c.pg.isRepo(f) && len(f.Blocks) > 0 {
				return
			}
			if strings.HasPrefix(n, "sync/atomic.") {
				if a := ev(cc.Args[0]); true {
					cell(fr, st, in, a, deref(cc.Args[0].Type()), !strings.Contains(n, ".Load"), true)
				}
				return
			}
			if strings.HasPrefix(n, "(*os.File).") {
				v := ev(cc.Args[0])
				switch n[len("(*os.File)."):] {
				case "ReadAt", "Stat", "Name", "Fd":
					acc(fr, st, in, "file "+valueClass(v), rootOf(v), false, false)
				default:
					acc(fr, st, in, "file "+valueClass(v), rootOf(v), true, false)
				}
			}
			// what is outside reads what it is given, or fills it
			writes := strings.Contains(n, ".Read") || strings.Contains(n, ").Put") || strings.Contains(n, "rand.")
			for _, a := range cc.Args {
				if _, ok := a.Type().Underlying().(*types.Slice); ok {
					if writes && isBytes(a.Type()) && (st.ghost["given"] != nil || r.given && t.lends) {
						c.check(st.ghost["given"] == nil, "given", e.pos(in), "a buffer that is lent out is not read into before it comes back", fr.stack())
					}
					elems(fr, st, in, a, ev(a), writes)
				}
			}
		}
	}
	lock := func(ex bool) func(k *Call) ([]Res, bool) {
		return func(k *Call) ([]Res, bool) {
			n := lockName(k.st.f.find(k.args[0]))
			if e.dry == 0 {
				c.check(k.st.ghost["held:"+n] == nil, "again:"+n, k.pos(), "a lock that is held is not taken again", k.fr.stack())
				for h := range held(k.st) {
					if r.edges[h] == nil {
						r.edges[h] = map[string]string{}
					}
					r.edges[h][n] = k.pos()
				}
			}
			v := TFalse
			if ex {
				v = TTrue
			}
			rs := lockModel(k)
			k.st.ghost["held:"+n] = v
			return rs, true
		}
	}
	unlock := func(k *Call) ([]Res, bool) {
		n := lockName(k.st.f.find(k.args[0]))
		if e.dry == 0 {
			c.check(k.st.ghost["held:"+n] != nil, "unlock:"+n, k.pos(), "only a lock that is held is released", k.fr.stack())
		}
		delete(k.st.ghost, "held:"+n)
		return k.ret(), true
	}
	h["(*sync.Mutex).Lock"], h["(*sync.RWMutex).Lock"], h["(*sync.RWMutex).RLock"] = lock(true), lock(true), lock(false)
	h["(*sync.Mutex).Unlock"], h["(*sync.RWMutex).Unlock"], h["(*sync.RWMutex).RUnlock"] = unlock, unlock, unlock
	type part struct {
		fn   *ssa.Function
		st   *State
		args []*Term
		hold map[string]*Term
	}
	var parts []part
	cut := map[string]bool{}
	for _, f := range c.pg.allFns {
		f := f
		n := fnName(f)
		if !c.pg.isRepo(f) || len(f.Blocks) == 0 || f.Parent() != nil || f == t.fn || c.concurrent(f) && !strings.HasPrefix(n, "(*"+tRL+")") || len(naturalLoops(f)) == 0 {
			continue
		}
		h[n] = func(k *Call) ([]Res, bool) {
			if e.dry == 0 {
				if k.st.ghost["back"] != nil {
					for _, a := range k.args {
						if mentionsRecv(k.st.f.find(a)) {
							c.check(false, "lent", k.pos(), "a buffer that was lent is not used after it was given back", k.fr.stack())
						}
					}
				}
				key := f.RelString(nil)
				hold := map[string]*Term{}
				for g, v := range k.st.ghost {
					if strings.HasPrefix(g, "held:") {
						hold[g] = v
						key += g + v.String()
					}
				}
				var args []*Term
				for i, a := range k.args {
					a = k.st.f.find(a)
					args = append(args, r.plain(a, f.Params[i], &key))
				}
				if !cut[key] {
					cut[key] = true
					parts = append(parts, part{f, nil, args, hold})
				}
			}
			return unknownCall(k), true
		}
	}
	h["(*sync.WaitGroup).Wait"] = func(k *Call) ([]Res, bool) {
		k.st.ghost["waited"] = TTrue
		r.free(e, k.st, k.pos(), "it waits")
		return k.ret(), true
	}
	c.decodedHook(e)
	e.hooks.call[fnRemove] = nil
	delete(e.hooks.call, fnRemove)
	loop := "(*" + tPH + ").Loop"
	if t.fn.RelString(nil) != loop {
		h[loop] = func(k *Call) ([]Res, bool) { return k.ret(), true }
	}
	e.hooks.comm = func(k *Comm) {
		if k.blocks {
			r.free(e, k.st, e.pos(k.in), "it waits")
		}
		// a buffer is lent with a message, and given back with a signal
		switch {
		case k.ct == nil:
		case k.kind == "recv" && isBytes(k.ct):
			delete(k.st.ghost, "back")
			k.st.ghost["lent"] = TTrue
			r.lent = true
		case k.kind == "send" && isSignal(k.ct) && k.st.ghost["lent"] != nil:
			k.st.ghost["back"] = TTrue
			r.back = true
		case k.kind == "send" && isBytes(k.ct):
			k.st.ghost["given"] = TTrue
			t.lends = true
			r.given = true
		case k.kind == "recv" && isSignal(k.ct):
			delete(k.st.ghost, "given")
		}
	}
	e.hooks.markGo = func(k *Call) { k.st.ghost["gos"] = TTrue }
	type goAt struct {
		k  *Call
		st *State
	}
	var gos []goAt
	e.hooks.onGo = func(k *Call) { gos = append(gos, goAt{k, k.st.clone()}) }
	st = st.clone()
	st.ghost = map[string]*Term{}
	defer func() { h = nil }()
	for _, o := range e.Run(st, t.fn, args, binds) {
		if o.panic == nil {
			r.free(e, o.st, c.pg.pos(t.fn.Pos()), "it ends")
		}
	}
	for i := 0; i < len(parts); i++ {
		p := parts[i]
		st := c.state()
		for g, v := range p.hold {
			st.ghost[g] = v
		}
		own := h[fnName(p.fn)]
		delete(h, fnName(p.fn))
		for _, o := range e.Run(st, p.fn, p.args, nil) {
			if o.panic != nil {
				continue
			}
			for g := range held(o.st) {
				c.check(p.hold["held:"+g] != nil, "released:"+g, c.pg.pos(p.fn.Pos()), "no lock is held when a goroutine ends or waits for another", p.fn.RelString(nil))
			}
		}
		h[fnName(p.fn)] = own
	}
	c.done(e, "races:"+t.name)
	seen := map[string]bool{}
	for _, g := range gos {
		k := g.k
		if k.fn == nil || len(k.fn.Blocks) == 0 {
			c.fail("undecided:go", c.pg.pos(k.instr.Pos()), "what is started is known")
			continue
		}
		sig := c.pg.pos(k.instr.Pos()) + fmt.Sprint(k.fn)
		if seen[sig] || depth > 4 {
			continue
		}
		seen[sig] = true
		kid := &raceThread{name: k.fn.RelString(nil), fn: k.fn, session: t.session, parent: t, many: t.many || inLoop(k.instr)}
		kid.gave = map[int64]bool{}
		var b []*Term
		if callee := g.st.f.find(k.args[0]); callee.k == KFn {
			b = callee.args
		}
		kid.given = reached(g.st, append(append([]*Term{}, k.args[1:]...), b...))
		kid.common = map[int64]bool{}
		for o := range kid.given {
			t.gave[o] = true
			kid.common[o] = t.common[o] || inLoop(k.instr) && !c.madeInLoop(k.instr, o)
		}
		g.st.havocHeap("go"+k.fn.Name(), nil)
		r.run(kid, g.st, k.args[1:], b, depth+1)
	}
}

// owner: who can reach the object that an access is in.  "" for the goroutine
// alone, an object that the goroutines of one session share, or everybody.
func (a *access) owner() string {
	base := a.root
	for base != nil && len(base.args) > 0 && base.k != KPtr {
		base = base.args[0]
	}
	if base.k == KSym && strings.HasPrefix(base.s, "own:") {
		return ""
	}
	set := map[*Term]bool{}
	leaves(a.root, set, map[*Term]bool{})
	for l := range set {
		if l.k == KPtr {
			if l.n < a.t.base {
				return fmt.Sprint("all ", l.n)
			}
			if a.root == l && (a.t.given[l.n] || a.t.gave[l.n]) {
				return fmt.Sprint("object ", l.n)
			}
			return ""
		}
		if l.k == KSym && strings.HasPrefix(l.s, "recv:") {
			return ""
		}
	}
	if a.root.k == KGlob {
		return "all"
	}
	// the fields of the session's own handler, and what its slices hold
	t := a.root
	if t.k == KLoad && len(t.args) > 0 {
		t = rootOf(t.args[0])
	}
	if (a.root.k == KSym || t.k == KSym && strings.HasSuffix(a.class, "[]")) && a.t.session {
		for l := range set {
			if l.k == KSym && l.typ != nil && strings.HasSuffix(shortType(l.typ), "PeerHandler") {
				return "session"
			}
		}
	}
	return "all"
}

// early: an access to an object of the function's own, in a place that is not
// reached from where a goroutine starts unless the object is made again first.
func (r *races) early(fr *Frame, in ssa.Instruction, root *Term) bool {
	f := in.Parent()
	var made []*ssa.BasicBlock
	for _, b := range f.Blocks {
		for _, x := range b.Instrs {
			if v, ok := x.(*ssa.Alloc); ok && v.Heap && strings.HasSuffix(objs[root.n].pos, r.c.pg.pos(v.Pos())) && objs[root.n].pos != "" {
				made = append(made, b)
			}
		}
	}
	if len(made) != 1 {
		return false
	}
	for _, b := range f.Blocks {
		for i, x := range b.Instrs {
			if _, ok := x.(*ssa.Go); !ok {
				continue
			}
			for _, y := range b.Instrs[i:] {
				if y == in {
					return false
				}
			}
			seen := map[*ssa.BasicBlock]bool{made[0]: true}
			var walk func(b *ssa.BasicBlock) bool
			walk = func(b *ssa.BasicBlock) bool {
				for _, s := range b.Succs {
					if seen[s] {
						continue
					}
					seen[s] = true
					if s == in.Block() || walk(s) {
						return true
					}
				}
				return false
			}
			if walk(b) {
				return false
			}
		}
	}
	return true
}

// madeInLoop: the object is made anew in each round of a loop around in.
func (c *Ctx) madeInLoop(in ssa.Instruction, o int64) bool {
	f := in.Parent()
	for _, body := range naturalLoops(f) {
		if !body[in.Block()] {
			continue
		}
		for b := range body {
			for _, x := range b.Instrs {
				if v, ok := x.(ssa.Value); ok && objs[o].pos != "" && strings.HasSuffix(objs[o].pos, c.pg.pos(v.Pos())) {
					return true
				}
			}
		}
	}
	return false
}

// reached: the objects that values lead to.
func reached(st *State, vs []*Term) map[int64]bool {
	out := map[int64]bool{}
	add := func(v *Term) bool {
		set := map[*Term]bool{}
		leaves(st.f.find(v), set, map[*Term]bool{})
		more := false
		for l := range set {
			if l.k == KPtr && !out[l.n] {
				out[l.n] = true
				more = true
			}
		}
		return more
	}
	for _, v := range vs {
		add(v)
	}
	for more := len(out) > 0; more; {
		more = false
		for a, v := range st.mem {
			if root := rootOf(a); root.k == KPtr && out[root.n] && add(v) {
				more = true
			}
		}
	}
	return out
}

// local: a slice that the function, or one that it calls, has just made.
func (r *races) local(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Slice); !ok {
			_, ok := x.X.(*ssa.Alloc)
			return ok
		}
		return r.local(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !r.local(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "append" && r.local(x.Call.Args[0], seen)
		}
		f := x.Call.StaticCallee()
		if f == nil || !r.c.pg.isRepo(f) || len(f.Blocks) == 0 {
			return false
		}
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && (len(ret.Results) != 1 || !r.local(ret.Results[0], seen)) {
				return false
			}
		}
		return true
	}
	return false
}

func (a *access) what() string {
	s := "reads"
	if a.write {
		s = "writes"
	}
	var hs []string
	for h, x := range a.held {
		if x {
			hs = append(hs, h)
		} else {
			hs = append(hs, h+" (shared)")
		}
	}
	sort.Strings(hs)
	l := "no lock"
	if len(hs) > 0 {
		l = strings.Join(hs, ", ")
	}
	return fmt.Sprintf("%s %s it at %s, in %s, holding %s", a.t.name, s, a.pos, a.fn, l)
}

func (r *races) judge() {
	c := r.c
	by := map[string][]*access{}
	var classes []string
	for _, k := range r.order {
		a := r.accs[k]
		if by[a.class] == nil {
			classes = append(classes, a.class)
		}
		by[a.class] = append(by[a.class], a)
	}
	for _, cl := range classes {
		as := by[cl]
		for i, a := range as {
			for _, b := range as[i:] {
				if !a.write && !b.write {
					continue
				}
				oa, ob := a.owner(), b.owner()
				if oa == "" || ob == "" || oa != ob {
					continue
				}
				same := a.t == b.t
				// what its own goroutines cannot see yet
				early := func(a *access) bool {
					switch {
					case oa[:3] == "all":
						return false
					case oa == "session":
						return a.t.parent == nil && a.before
					}
					return !a.t.given[a.root.n] && a.before
				}
				if all := oa[:3] == "all"; all && same && !a.t.many || !all && same && !(oa[:3] == "obj" && a.t.common[a.root.n]) || early(a) || early(b) {
					continue
				}
				safe := a.atomic && b.atomic
				for h, x := range a.held {
					y, ok := b.held[h]
					safe = safe || ok && (x || !a.write) && (y || !b.write)
				}
				c.check(safe, "race:"+cl, a.pos, "a place that one goroutine writes and another uses is protected by a lock that both hold, or both use it atomically", a.what(), b.what())
			}
		}
	}
	// the order in which locks are taken
	var hs []string
	for h := range r.edges {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	for _, h := range hs {
		seen := map[string]bool{}
		var walk func(x string)
		walk = func(x string) {
			for y := range r.edges[x] {
				if !seen[y] {
					seen[y] = true
					walk(y)
				}
			}
		}
		walk(h)
		c.check(!seen[h], "order:"+h, "", "locks are taken in one order", fmt.Sprint(r.edges[h]))
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func baseOf(b *Term) *Term {
	for b.k == KArr || b.k == KSlice {
		b = b.args[0]
	}
	return b
}

func inLoop(in ssa.Instruction) bool {
	for _, body := range naturalLoops(in.Parent()) {
		if body[in.Block()] {
			return true
		}
	}
	return false
}

func (r *races) free(e *Exec, st *State, pos, why string) {
	if e.dry != 0 {
		return
	}
	for h := range held(st) {
		r.c.check(false, "released:"+h, pos, "no lock is held when a goroutine ends or waits for another", why)
	}
}

func runC13(c *Ctx) {
	r := &races{c: c, accs: map[string]*access{}, edges: map[string]map[string]string{}}
	c.state()
	r.base = int64(len(objs))
	c.guard("session", "the goroutines of a session", func() {
		f := c.anchor("(*" + tPH + ").Loop")
		st := c.state()
		r.run(&raceThread{name: f.RelString(nil), fn: f, session: true, many: true, gave: map[int64]bool{}}, st, c.args(st, f), nil, 0)
	})
	c.guard("client", "the goroutines of the client", func() {
		f := c.anchor("(*" + tSwarm + ").Start")
		st := c.state()
		r.run(&raceThread{name: f.RelString(nil), fn: f, gave: map[int64]bool{}}, st, c.args(st, f), nil, 0)
	})
	// what the users of the shared types may call from anywhere
	for _, tn := range []string{tPPT, tRL, tFIO} {
		tn := tn
		c.guard("api:"+tn, "the methods of "+tn, func() {
			n := 0
			for _, f := range c.pg.allFns {
				if !strings.HasPrefix(f.RelString(nil), "(*"+tn+").") || !token.IsExported(f.Name()) || len(f.Blocks) == 0 || f.Parent() != nil || strings.HasPrefix(f.Name(), "OCAT") {
					continue
				}
				n++
				st := c.state()
				args := c.args(st, f)
				for i, p := range f.Params[1:] {
					args[i+1] = opaqueValue(Sym("own:"+p.Name(), p.Type()), p.Type())
				}
				r.run(&raceThread{name: f.RelString(nil), fn: f, many: true, gave: map[int64]bool{}}, st, args, nil, 0)
			}
			c.check(n > 0, "methods:"+tn, "", "the type has methods")
		})
	}
	c.check(r.lent && r.back && r.given, "undecided:lent", "", "the buffer that a session receives into is lent and given back")
	r.judge()
	if c.verbose {
		for _, k := range r.order {
			a := r.accs[k]
			fmt.Println(a.t.name, a.class, a.write, a.atomic, a.held, a.root, a.before, a.pos)
		}
	}
}

func init() {
	register(&Prop{
		id: "C13", title: "Shared state is never touched by two goroutines at once",
		rule: "interpret every goroutine with the set of locks that it holds; two accesses to a shared place, one of them a write, have a lock in common or are both atomic",
		assume: []string{
			"sync, sync/atomic and channels do what they document; a connection, a file and a ticker may be used by several goroutines where their documentation says so",
			"places are told apart by the field, or by the field that holds the slice or map, that they are reached through; two instances of a type are taken for one",
			"what a function has just made is its own until it is given to a goroutine; arguments of the methods that users call are the caller's own while the call lasts",
			"FileIO.OCAT and OCATAll, constructors, SetNbits and the command line options are only used before the goroutines run",
		},
		run: runC13,
	})
}

// plain is an argument without what is known of it; objects of the goroutine's
// own stay its own.
func (r *races) plain(a *Term, p *ssa.Parameter, key *string) *Term {
	set := map[*Term]bool{}
	leaves(a, set, map[*Term]bool{})
	fresh, global := false, false
	for l := range set {
		global = global || l.k == KPtr && l.n < r.base
		fresh = fresh || l.k == KPtr && l.n >= r.base || l.k == KSym && strings.HasPrefix(l.s, "own:")
	}
	switch {
	case fresh:
		*key += "|own"
		return opaqueValue(Sym("own:"+p.Name(), p.Type()), p.Type())
	case global || a.k == KLoad || a.k == KSym || a.k == KGlob:
		*key += fmt.Sprint("|", a.id)
		return a
	}
	if a.k == KFld {
		// a field of an object that is not its own
		*key += "|" + className(a)
		return a
	}
	if a.k == KFld {
		// a field of an object that is not the goroutine's own
		*key += "|" + className(a)
		return a
	}
	*key += "|"
	return opaqueValue(Sym("arg:"+p.Name(), p.Type()), p.Type())
}

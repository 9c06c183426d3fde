package main

// Remote and hostile input never crashes the program.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rootSet analyses functions one at a time; calls of the cut functions are
// replaced by what is known of every call of them, and the cut functions are
// roots of their own.
type rootSet struct {
	c     *Ctx
	rule  string
	cuts  map[string]func(k *Call) ([]Res, bool) // nil: nothing is known about the call
	setup map[string]func(st *State, args []*Term)
	prep  func(e *Exec)
	done  map[*ssa.Function]bool
	queue []*ssa.Function
	loops bool
	quiet bool // panics are not reported
	skip  map[string]bool
	prot  map[*ssa.Function]bool // only called where panics are recovered
	sccs  map[int]bool           // recursive components that are reached
	large map[string]bool        // fields that are not small where a component is entered
	open  map[int]bool           // ... also from where panics are not recovered
}

func (rs *rootSet) add(f *ssa.Function) {
	if f == nil || len(f.Blocks) == 0 || !rs.c.pg.isRepo(f) || rs.done[f] {
		return
	}
	rs.done[f] = true
	rs.queue = append(rs.queue, f)
}

func (rs *rootSet) cut(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	_, ok := rs.cuts[fnName(f)]
	return ok
}

// install sets the hooks for the analysis of one root.
func (rs *rootSet) install(e *Exec, f *ssa.Function) {
	c := rs.c
	for n, h := range rs.cuts {
		n, h := n, h
		e.hooks.call[n] = func(k *Call) ([]Res, bool) {
			if k.fn == f && k.fr == nil {
				return nil, false
			}
			if k.fn != nil && !rs.skip[n] {
				rs.reach(k.fn, k.fr.rec(k.instr))
			}
			if h != nil {
				return h(k)
			}
			return unknownCall(k), true
		}
	}
	for g, s := range c.pg.sccs() {
		s := s
		n := fnName(g)
		if e.hooks.call[n] != nil {
			continue
		}
		e.hooks.call[n] = func(k *Call) ([]Res, bool) {
			if rs.skip[n] {
				return unknownCall(k), true
			}
			rs.sccs[s] = true
			if !k.fr.rec(k.instr) {
				rs.open[s] = true
			}
			for n, a := range intCells(k.fn, k.args) {
				if v := I(k.st.load(a.addr, a.typ)); !(k.st.holds(Le(v, IntC(recBound))) && k.st.holds(Le(IntC(-recBound), v))) {
					rs.large[n] = true
				}
			}
			return unknownCall(k), true
		}
	}
	e.hooks.onGo = func(k *Call) {
		rs.add(k.fn)
	}
	if rs.loops {
		e.hooks.onLoop = func(fr *Frame, h ssaBlock, rank string, ok bool, why string) {
			key := "loop:" + fr.fn.RelString(nil) + ":" + loopName(fr.fn, h)
			c.check(ok, key, c.pg.pos(blockPos(h)), "the loop makes progress on every iteration", why)
			c.loops[key] = rank
		}
	}
	if rs.prep != nil {
		rs.prep(e)
	}
}

// reach adds a function that is called; inside says that the call is made
// where panics are recovered.
func (rs *rootSet) reach(f *ssa.Function, inside bool) {
	if !inside && rs.prot[f] {
		delete(rs.prot, f)
		delete(rs.done, f)
	}
	if !rs.done[f] && inside {
		rs.prot[f] = true
	}
	rs.add(f)
}

func (rs *rootSet) run() {
	c := rs.c
	rs.prot, rs.sccs, rs.open, rs.large = map[*ssa.Function]bool{}, map[int]bool{}, map[int]bool{}, map[string]bool{}
	doneScc := map[int]bool{}
	for {
		if len(rs.queue) == 0 {
			more := false
			for _, s := range sortedInts(rs.sccs) {
				if doneScc[s] {
					continue
				}
				doneScc[s] = true
				more = true
				var members []*ssa.Function
				for _, f := range c.pg.allFns {
					if c.pg.sccs()[f] == s {
						members = append(members, f)
					}
				}
				sort.Slice(members, func(i, j int) bool { return members[i].RelString(nil) < members[j].RelString(nil) })
				prot := map[*ssa.Function]bool{}
				for _, f := range members {
					prot[f] = !rs.open[s]
				}
				c.guard(rs.rule+":"+members[0].RelString(nil), "the recursion of "+members[0].RelString(nil), func() {
					(&recursion{c: c, rs: rs, scc: s}).run(members, prot)
				})
			}
			if !more && len(rs.queue) == 0 {
				break
			}
			continue
		}
		f := rs.queue[0]
		rs.queue = rs.queue[1:]
		if s, ok := c.pg.sccs()[f]; ok {
			rs.sccs[s] = true
			rs.open[s] = true
			continue
		}
		name := f.RelString(nil)
		c.guard(rs.rule+":"+name, "the safety of "+name, func() {
			e := c.exec(name)
			e.protected = rs.prot[f]
			if !rs.quiet {
				c.noPanics(e, rs.rule)
			}
			e.invs = c.allInvs()
			e.hooks.call = map[string]func(k *Call) ([]Res, bool){}
			rs.install(e, f)
			st := c.state()
			args := c.args(st, f)
			for i, p := range f.Params {
				i := i
				switch p.Type().String() {
				case "*" + tPPT:
					e.ppt = func(st *State) *Term { return args[i] }
				case "*" + tPH:
					e.ppt = func(st *State) *Term {
						return st.field(c.typ(tSwarm), st.field(c.typ(tPH), args[i], "swarm"), "PPT")
					}
				}
				if e.ppt != nil {
					break
				}
			}
			if h := rs.setup[fnName(f)]; h != nil {
				h(st, args)
			}
			var binds []*Term
			for _, v := range f.FreeVars {
				b := Sym("free:"+v.Name(), v.Type())
				st.learn(notNil(b))
				binds = append(binds, b)
			}
			e.Run(st, f, args, binds)
			c.done(e, rs.rule+":"+name)
			c.ok("analysed:"+name, c.pg.pos(f.Pos()), "the function is analysed for every argument")
		})
	}
}

func sortedInts(m map[int]bool) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// loopName tells the loops of a function apart without line numbers.
func loopName(fn *ssa.Function, h ssaBlock) string {
	var hs []int
	for b := range naturalLoops(fn) {
		hs = append(hs, b.Index)
	}
	sort.Ints(hs)
	for i, x := range hs {
		if x == h.Index {
			return fmt.Sprint("loop ", i+1)
		}
	}
	return "loop"
}

const (
	fnRemove = "(*gotor/utils/ds.LinkedList[T]).Remove"
	fnAddF   = "(*gotor/utils/ds.LinkedList[T]).AddNodeFront"
)

// readPieceContract: ReadPiece returns how much of the buffer it filled.
func readPieceContract(k *Call) ([]Res, bool) {
	if k.fn == nil || len(k.args) != 3 {
		return nil, false
	}
	buf := k.st.f.find(k.args[2])
	bt := k.fn.Params[2].Type()
	havocArg(k, buf)
	n := I(Sym("read:"+k.site, types.Typ[types.Int64]))
	good := k.st.clone()
	good.learn(Ge0(n))
	good.learn(Le(n, good.lenOf(buf, bt)))
	return []Res{{st: good, vals: []*Term{n, TNil}}, {st: k.st.clone(), vals: []*Term{IntC(0), k.newErr("read")}}}, true
}

func runC01(c *Ctx) {
	rs := &rootSet{c: c, rule: "peer-panic", done: map[*ssa.Function]bool{}, skip: map[string]bool{}}
	decRes := func(k *Call) ([]Res, bool) {
		// proved by the decoding property: every decoded message is a message
		f := k.fn
		if f == nil {
			return nil, false
		}
		t := f.Signature.Results().At(0).Type()
		v := opaqueValue(Sym("own:msgs:"+k.site, t), t)
		a := resField(k.st, v, t, "Msgs")
		k.st.learn(App("elems:nonnil", nil, a))
		if a.k == KSlice {
			k.st.learn(App("elems:nonnil", nil, a.args[0]))
		}
		return k.ret(v), true
	}
	rs.cuts = map[string]func(k *Call) ([]Res, bool){
		"gotor/p2p.DecodeAll": decRes,
		"gotor/p2p.Decode": func(k *Call) ([]Res, bool) {
			t := k.fn.Signature.Results().At(0).Type()
			v := k.fresh("dec", t)
			ln := k.st.lenOf(k.args[0], k.fn.Params[0].Type())
			rd := I(resField(k.st, v, t, "Read"))
			if k.st.holds(Le(IntC(1), ln)) {
				k.st.learn(Le(IntC(1), rd))
			}
			k.st.learn(Ge0(rd))
			k.st.learn(Le(rd, AddC(ln, 16)))
			good := k.st.clone()
			good.learn(notNil(resField(k.st, v, t, "Msg")))
			return []Res{{st: good, vals: []*Term{v, TNil}}, {st: k.st.clone(), vals: []*Term{v, k.newErr("decode")}}}, true
		},
		"(*gotor/swarm.PeerHandler).handleMessage":     nil,
		"(*gotor/swarm.PeerHandler).handleBitfield":    nil,
		"(*gotor/swarm.PeerHandler).handleRequest":     nil,
		"(*gotor/swarm.PeerHandler).createReqMessages": nil,
		"(*gotor/swarm.PeerHandler).Loop":              nil,
		"gotor/swarm.FromIncoming":                     nil,
		"gotor/swarm.FromBootstrap":                    nil,
		"(*gotor/swarm.PeerPieceTracker).NextPiece":    nil,
		"(*gotor/swarm.PeerPieceTracker).Unregister":   nil,
		"(*gotor/torrent/fileio.FileIO).ReadPiece":     readPieceContract,
		"(*gotor/io.RateLimitIO).Write":                nil,
		"(*gotor/io.RateLimitIO).Read":                 nil,
		"(*gotor/io.ReadLoop).Finish":                  nil,
		"(*gotor/io.ReadLoop).Ready":                   nil,
		fnRemove:                                       c.listRemove("list-member"),
		fnAddF: func(k *Call) ([]Res, bool) {
			delete(k.st.mem, pg("changed", types.Typ[types.UnsafePointer]))
			delete(k.st.mem, pg("was", lenType))
			return nil, false
		},
		fnSetAdd: c.countBefore,
		fnSetRem: c.countBefore,
	}
	rs.skip["(*gotor/torrent/fileio.FileIO).ReadPiece"] = true
	rs.skip[fnRemove] = true
	for _, n := range []string{"gotor/swarm.FromIncoming", "gotor/swarm.FromBootstrap", "(*gotor/swarm.PeerHandler).Loop", "gotor/p2p.DecodeAll", "gotor/p2p.Decode"} {
		rs.add(c.anchor(n))
	}
	rs.run()
	c.decodeContract()
	c.invariants()
}

// listRemove: a node is only removed from the list that holds it. A piece is
// in the list of its count, the last list holding those with more.
func (c *Ctx) listRemove(rule string) func(k *Call) ([]Res, bool) {
	return func(k *Call) ([]Res, bool) {
		if k.e.dry == 0 {
			good, why := c.inBucket(k)
			c.check(good, rule+":"+k.fr.fn.RelString(nil), k.pos(), "a piece is removed from the list of its count, where it is", why, "call path "+k.fr.stack(), factsText(k.st))
		}
		// the links change; nobody here looks at them
		rs := unknownLinks(k)
		return rs, true
	}
}

func unknownLinks(k *Call) []Res {
	// what Remove and AddNodeFront may write: links, head and size
	recv := k.st.f.find(k.args[0])
	_ = recv
	for _, s := range k.e.ctx.listSigs() {
		k.st.bump(s, "l"+fmt.Sprint(mkLit(k.site).id))
	}
	for key := range k.st.mem {
		if key.k == KFld && strings.Contains(fldOwner[key], "utils/ds.LinkedList[") {
			delete(k.st.mem, key)
			continue
		}
		if key.k == KFld && strings.Contains(fldOwner[key], "utils/ds.Node[") && key.s != "Data" {
			delete(k.st.mem, key)
		}
	}
	return k.ret()
}

func (c *Ctx) listSigs() []string {
	var r []string
	for _, n := range []string{"LinkedList", "Node"} {
		t := c.pg.namedType("gotor/utils/ds", n)
		if t == nil {
			continue
		}
		s := structOf(t)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() != "Data" {
				r = append(r, "F:gotor/utils/ds."+n+"[gotor/swarm.piece]."+fmt.Sprint(i))
			}
		}
	}
	return r
}

// inBucket: the receiver is &buckets[i] with i the count of the node.
func (c *Ctx) inBucket(k *Call) (bool, string) {
	ll := k.st.f.find(k.args[0])
	node := k.st.f.find(k.args[1])
	if ll.k != KElem {
		return false, "the list is " + ll.String()
	}
	sa, sm := c.peerSetOf(k.st, node, k.fn)
	size := I(k.st.mapLen(sm))
	if was := k.st.mem[pg("changed", types.Typ[types.UnsafePointer])]; was != nil && k.st.f.find(was) == k.st.f.find(sa) {
		// it is still in the list of the count it had before that
		size = I(k.st.mem[pg("was", lenType)])
	}
	idx := I(ll.args[1])
	last := c.numBuckets() - 1
	small := k.st.with(Le(size, IntC(last)))
	if small != nil && !small.holds(EqI(idx, size)) {
		return false, "list " + idx.String() + ", count " + size.String()
	}
	big := k.st.with(Le(IntC(last), size))
	if big != nil && !big.holds(EqI(idx, IntC(last))) {
		return false, "list " + idx.String() + ", count " + size.String()
	}
	return true, ""
}

// countBefore notes the size of a set that is about to change.
func (c *Ctx) countBefore(k *Call) ([]Res, bool) {
	sty := k.fn.Params[0].Type().Underlying().(*types.Pointer).Elem()
	ma, mt := c.setMap(sty, k.args[0])
	k.st.mem[pg("changed", types.Typ[types.UnsafePointer])] = k.args[0]
	k.st.mem[pg("was", lenType)] = I(k.st.mapLen(k.st.load(ma, mt)))
	return nil, false
}

func (c *Ctx) setMap(sty types.Type, sa *Term) (*Term, types.Type) {
	return fieldBy(sty, sa, "set", func(t types.Type) bool {
		_, ok := t.Underlying().(*types.Map)
		return ok
	})
}

// peerSetOf is the set of the peers that have the piece of a node, and its map.
func (c *Ctx) peerSetOf(st *State, node *Term, f *ssa.Function) (*Term, *Term) {
	nt := f.Params[1].Type().Underlying().(*types.Pointer).Elem()
	da, dt := fieldCell(nt, node, "Data")
	sa, sty := fieldBy(dt, da, "peerSet", func(t types.Type) bool {
		return strings.HasPrefix(t.String(), "gotor/utils/ds.Set[")
	})
	ma, mt := c.setMap(sty, sa)
	return sa, st.load(ma, mt)
}

func init() {
	register(&Prop{id: "C01", title: "No bytes from a peer crash the client",
		rule:   "Abstract interpretation of every function reachable from a peer connection (both handshakes, the receive, request and ping loops, message handlers, the piece tracker), each with unconstrained arguments under the class invariants: every nil dereference, index, slice bound, type assertion, division, conversion-dependent length and explicit panic is proved unreachable; the invariants are proved at the constructors and methods that could break them.",
		min:    map[string]int{"peer-panic": 20, "analysed": 5, "invariant": 10},
		assume: []string{"pointers found in the heap (not locals or results) are not nil unless some path of the analysed code stores nil there", "ReadPiece returns a count between 0 and the size of the buffer it was given"}, run: runC01})
}

func blockPos(b ssaBlock) (p token.Pos) {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return b.Parent().Pos()
}

// ------------------------------------------------------------ recursion

// sccs finds the functions that can call themselves, directly or through
// others: the strongly connected components of the call graph.
func (pg *Program) sccs() map[*ssa.Function]int {
	if pg.sccOf != nil {
		return pg.sccOf
	}
	succ := map[*ssa.Function][]*ssa.Function{}
	for _, f := range pg.allFns {
		if !pg.isRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					for _, t := range pg.implementers(ci.Common().Value.Type().Underlying().(*types.Interface)) {
						if isRepoType(t) {
							succ[f] = append(succ[f], pg.method(t, ci.Common().Method.Name()))
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && pg.isRepo(g) {
						succ[f] = append(succ[f], g)
					}
				}
			}
		}
	}
	pg.sccOf = map[*ssa.Function]int{}
	idx, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	n, comp := 0, 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		self := false
		for _, g := range succ[f] {
			if g == f {
				self = true
			}
			if g == nil {
				continue
			}
			if idx[g] == 0 {
				visit(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && idx[g] < low[f] {
				low[f] = idx[g]
			}
		}
		if low[f] == idx[f] {
			var members []*ssa.Function
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				members = append(members, g)
				if g == f {
					break
				}
			}
			if len(members) > 1 || self {
				comp++
				for _, g := range members {
					pg.sccOf[g] = comp
				}
			}
		}
	}
	for _, f := range pg.allFns {
		if idx[f] == 0 && pg.isRepo(f) {
			visit(f)
		}
	}
	return pg.sccOf
}

type recEdge struct {
	from, to *ssa.Function
	where    string
	rel      map[string]string // measure -> "<" or "="
}

// recursion shows that the recursion of a component ends: there is a measure
// that no call of the component increases and that every cycle decreases.
type recursion struct {
	c        *Ctx
	rs       *rootSet
	scc      int
	restored map[string]bool // integer fields that a call leaves as they were
	mono     map[string]bool // ... that a call never makes smaller
	strict   map[string]bool // ... that a call without an error makes larger
	bounded  map[string]bool // ... that are small at every call
	edges    []recEdge
}

const recBound = 1 << 16

// intCells: the integer fields of the objects that the parameters point to.
func intCells(f *ssa.Function, args []*Term) map[string]cell {
	m := map[string]cell{}
	for i, p := range f.Params {
		pt, ok := p.Type().Underlying().(*types.Pointer)
		if !ok || !isRepoType(pt) {
			continue
		}
		s := structOf(pt.Elem())
		if s == nil {
			continue
		}
		for j := 0; j < s.NumFields(); j++ {
			if intType(s.Field(j).Type()) {
				m["field "+shortType(pt.Elem())+"."+s.Field(j).Name()] = cell{FldAddr(args[i], pt.Elem(), j), s.Field(j).Type()}
			}
		}
	}
	return m
}

type cell struct {
	addr *Term
	typ  types.Type
}

func intParams(f *ssa.Function, args []*Term) map[string]*Term {
	m := map[string]*Term{}
	for i, p := range f.Params {
		if intType(p.Type()) {
			m["argument "+p.Name()] = args[i]
		}
	}
	return m
}

func stripBoxes(t *Term) *Term {
	for {
		switch {
		case t.k == KIface:
			t = t.args[0]
		case t.k == KApp && strings.HasPrefix(t.s, "as:"):
			t = t.args[0]
		default:
			return t
		}
	}
}

func (r *recursion) measures(st *State, f *ssa.Function, args []*Term, entry map[string]*Term, eargs []*Term, ef *ssa.Function) map[string]string {
	rel := map[string]string{}
	cmp := func(name string, now, was *Term) {
		now, was = I(now), I(was)
		if st.holds(Lt(was, now)) && st.holds(Le(now, IntC(recBound))) {
			rel["+"+name] = "<"
		} else if st.holds(EqI(was, now)) {
			rel["+"+name] = "="
		}
		if st.holds(Lt(now, was)) && st.holds(Le(IntC(-recBound), now)) {
			rel["-"+name] = "<"
		} else if st.holds(EqI(was, now)) {
			rel["-"+name] = "="
		}
	}
	for n, a := range intCells(f, args) {
		if was := entry[n]; was != nil {
			cmp(n, st.load(a.addr, a.typ), was)
		}
	}
	for n, a := range intParams(f, args) {
		if was := entry[n]; was != nil {
			cmp(n, a, was)
		}
	}
	// parts of the value that the caller was given
	for i, p := range ef.Params {
		switch p.Type().Underlying().(type) {
		case *types.Interface, *types.Map, *types.Slice:
		default:
			continue
		}
		for j, q := range f.Params {
			switch q.Type().Underlying().(type) {
			case *types.Interface, *types.Map, *types.Slice:
			default:
				continue
			}
			was, now := stripBoxes(st.f.find(eargs[i])), stripBoxes(st.f.find(args[j]))
			if was == now {
				if rel["the data"] == "" {
					rel["the data"] = "="
				}
				continue
			}
			set := map[*Term]bool{}
			leaves(now, set, map[*Term]bool{})
			if set[was] || containsTerm(now, was) || st.isNil(now) {
				rel["the data"] = "<"
			}
		}
	}
	return rel
}

func containsTerm(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if a != nil && containsTerm(a, x) {
			return true
		}
	}
	return false
}

// run analyses the functions of the component until the fields that they
// restore are known.
func (r *recursion) run(members []*ssa.Function, prot map[*ssa.Function]bool) {
	c := r.c
	r.restored, r.mono, r.bounded, r.strict = map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, f := range members {
		as := make([]*Term, len(f.Params))
		for i, p := range f.Params {
			as[i] = opaqueValue(Sym("arg:"+p.Name(), p.Type()), p.Type())
		}
		for n := range intCells(f, as) {
			r.restored[n] = true
			r.mono[n], r.strict[n] = true, true
			r.bounded[n] = !r.rs.large[n]
		}
	}
	for round := 0; ; round++ {
		r.edges = nil
		broken := map[string]bool{}
		for _, f := range members {
			r.one(f, prot[f], broken, false)
		}
		if len(broken) == 0 || round > 8 {
			break
		}
		for n := range broken {
			if i := strings.Index(n, ":"); i >= 0 && n[:i] != "bound" && broken[n[i+1:]] {
				// judged on the assumption that the field is restored
				continue
			}
			if strings.HasPrefix(n, "mono:") {
				delete(r.mono, n[5:])
				delete(r.strict, n[5:])
			} else if strings.HasPrefix(n, "strict:") {
				delete(r.strict, n[7:])
			} else if strings.HasPrefix(n, "bound:") {
				delete(r.bounded, n[6:])
			} else {
				delete(r.restored, n)
			}
		}
	}
	r.edges = nil
	for _, f := range members {
		r.one(f, prot[f], map[string]bool{}, true)
	}
	// which measure
	names := map[string]bool{}
	for _, e := range r.edges {
		for n := range e.rel {
			names[n] = true
		}
	}
	best := ""
	for _, n := range sortedKeys2(names) {
		ok := true
		var eq []recEdge
		for _, e := range r.edges {
			switch e.rel[n] {
			case "<":
			case "=":
				eq = append(eq, e)
			default:
				ok = false
			}
		}
		if ok && acyclic(eq) {
			best = n
			break
		}
	}
	key := "recursion:" + members[0].RelString(nil)
	det := []string{}
	for _, e := range r.edges {
		det = append(det, fmt.Sprintf("%s calls %s at %s: %v", e.from, e.to, e.where, e.rel))
	}
	c.check(best != "" || len(r.edges) == 0, key, c.pg.pos(members[0].Pos()), "the recursion is bounded", det...)
	c.loops[key] = best
}

func sortedKeys2(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func acyclic(es []recEdge) bool {
	succ := map[*ssa.Function][]*ssa.Function{}
	for _, e := range es {
		succ[e.from] = append(succ[e.from], e.to)
	}
	state := map[*ssa.Function]int{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if state[f] == 1 {
			return false
		}
		if state[f] == 2 {
			return true
		}
		state[f] = 1
		for _, g := range succ[f] {
			if !visit(g) {
				return false
			}
		}
		state[f] = 2
		return true
	}
	for f := range succ {
		if !visit(f) {
			return false
		}
	}
	return true
}

// succeeded: the error among the results is nil; failed: it is not.
func succeeded(st *State, sig *types.Signature, vals []*Term) bool {
	n := sig.Results().Len()
	return n > 0 && isErrorType(sig.Results().At(n-1).Type()) && st.isNil(vals[n-1])
}

func failed(st *State, sig *types.Signature, vals []*Term) bool {
	n := sig.Results().Len()
	return n > 0 && isErrorType(sig.Results().At(n-1).Type()) && st.nonNil(vals[n-1])
}

func (r *recursion) one(f *ssa.Function, prot bool, broken map[string]bool, report bool) {
	c := r.c
	e := c.exec(f.RelString(nil))
	if !report {
		e.dry++
		e.fnSeen = nil
		c.roots = c.roots[:len(c.roots)-1]
	}
	e.protected = prot
	if !r.rs.quiet {
		c.noPanics(e, r.rs.rule)
	}
	e.invs = c.allInvs()
	entry := map[string]*Term{}
	var eargs []*Term
	e.hooks.call = map[string]func(k *Call) ([]Res, bool){}
	r.rs.install(e, f)
	for g, s := range c.pg.sccs() {
		if s != r.scc {
			continue
		}
		e.hooks.call[fnName(g)] = func(k *Call) ([]Res, bool) {
			if e.dry == 0 || !report {
				r.edges = append(r.edges, recEdge{f, k.fn, k.pos(), r.measures(k.st, k.fn, k.args, entry, eargs, f)})
			}
			was := map[string]*Term{}
			for n, a := range intCells(k.fn, k.args) {
				if v := I(k.st.load(a.addr, a.typ)); r.bounded[n] && !(k.st.holds(Le(v, IntC(recBound))) && k.st.holds(Le(IntC(-recBound), v))) {
					broken["bound:"+n] = true
				}
				if r.restored[n] || r.mono[n] {
					was[n] = k.st.load(a.addr, a.typ)
				}
			}
			var rs []Res
			for _, x := range unknownCall(k) {
				// with an error and without one
				rt := resultTypes(k.sig)
				if len(rt) == 0 || !isErrorType(rt[len(rt)-1]) {
					rs = append(rs, x)
					continue
				}
				err := x.vals[len(rt)-1]
				for _, none := range []bool{true, false} {
					y := Res{st: x.st.clone(), vals: x.vals}
					if b := EqT(err, TNil); none && y.st.learn(b) || !none && y.st.learn(Not(b)) {
						rs = append(rs, y)
					}
				}
			}
			for _, x := range rs {
				for n, a := range intCells(k.fn, k.args) {
					switch {
					case was[n] == nil:
					case r.restored[n]:
						x.st.store(a.addr, was[n], a.typ)
					default:
						v := Sym("later:"+n+k.site, a.typ)
						x.st.learn(Le(I(was[n]), I(v)))
						if r.strict[n] && succeeded(x.st, k.sig, x.vals) {
							x.st.learn(Lt(I(was[n]), I(v)))
						}
						x.st.store(a.addr, v, a.typ)
					}
				}
			}
			return rs, true
		}
	}
	st := c.state()
	eargs = c.args(st, f)
	for n, a := range intCells(f, eargs) {
		entry[n] = st.load(a.addr, a.typ)
		if r.bounded[n] {
			st.learn(Le(I(entry[n]), IntC(recBound)))
			st.learn(Le(IntC(-recBound), I(entry[n])))
		}
	}
	for n, a := range intParams(f, eargs) {
		entry[n] = a
	}
	for _, o := range e.Run(st, f, eargs, nil) {
		if o.panic != nil {
			continue
		}
		for n, a := range intCells(f, eargs) {
			if r.restored[n] && !o.st.holds(EqI(I(o.st.load(a.addr, a.typ)), I(entry[n]))) {
				broken[n] = true
			}
			if r.mono[n] && !o.st.holds(Le(I(entry[n]), I(o.st.load(a.addr, a.typ)))) {
				broken["mono:"+n] = true
			}
			if r.strict[n] && !failed(o.st, f.Signature, o.vals) && !o.st.holds(Lt(I(entry[n]), I(o.st.load(a.addr, a.typ)))) {
				broken["strict:"+n] = true
			}
		}
	}
	if report {
		c.done(e, r.rs.rule+":"+f.RelString(nil))
		c.ok("analysed:"+f.RelString(nil), c.pg.pos(f.Pos()), "the function is analysed for every argument")
	}
}

func runC02(c *Ctx) {
	rs := &rootSet{c: c, rule: "hostile-panic", done: map[*ssa.Function]bool{}, skip: map[string]bool{}}
	rs.cuts = map[string]func(k *Call) ([]Res, bool){
		"gotor/bencode.Decode":                  nil,
		"gotor/bencode.Encode":                  nil,
		"gotor/torrent.FromTorrentFile":         nil,
		"gotor/torrent/info.FromDict":           nil,
		"gotor/torrent/info.NewTorInfo":         nil,
		"gotor/torrent/filesd.FromBenList":      nil,
		"gotor/tracker.newResponse":             nil,
		"(gotor/tracker.stringSource).GetPeers": nil,
		"(gotor/tracker.listSource).GetPeers":   nil,
	}
	for _, n := range []string{"gotor/torrent.FromTorrentFile", "gotor/tracker.Get", "gotor/bencode.Decode"} {
		rs.add(c.anchor(n))
	}
	rs.run()
}

func init() {
	register(&Prop{id: "C02", title: "Hostile torrent files and tracker replies never crash the client",
		rule: "Abstract interpretation of torrent loading, bencode decoding and encoding, and tracker replies on unconstrained input: every operation that can panic outside a recovering call is proved unreachable; each cycle of the call graph has a measure that no call increases and every cycle decreases, bounded where it counts nesting.",
		min:  map[string]int{"hostile-panic": 20, "analysed": 5, "recursion": 1}, run: runC02})
}

// decodeContract: what is assumed of decoding one message where it is called.
func (c *Ctx) decodeContract() {
	const dec = "gotor/p2p.Decode"
	c.guard("decode", "decoding one message", func() {
		e := c.exec(dec)
		f := c.anchor(dec)
		rt := f.Signature.Results().At(0).Type()
		st := c.state()
		data := opaqueValue(Sym("arg:data", f.Params[0].Type()), f.Params[0].Type())
		n := st.lenOf(data, f.Params[0].Type())
		st.learn(Le(IntC(1), n))
		st.learn(Le(n, IntC(1<<36)))
		cnt := 0
		for _, o := range e.Run(st, f, []*Term{data}, nil) {
			if o.panic != nil {
				continue
			}
			cnt++
			read := I(resField(o.st, o.vals[0], rt, "Read"))
			c.check(o.st.holds(Le(IntC(1), read)) && o.st.holds(Le(read, AddC(n, 16))), "decode:progress", c.funcPos(dec), "decoding takes at least one byte of what it is given, also when it is not a message, and not more than there is (16 bytes apart)", "takes "+read.String(), factsText(o.st))
		}
		c.check(cnt > 0, "decode:progress", c.funcPos(dec), "decoding returns")
		c.done(e, "decode")
	})
}

func runC03(c *Ctx) {
	rs := &rootSet{c: c, rule: "ends", loops: true, quiet: true, done: map[*ssa.Function]bool{}, skip: map[string]bool{}}
	rs.cuts = map[string]func(k *Call) ([]Res, bool){
		"gotor/bencode.Decode":             nil,
		"gotor/bencode.Encode":             nil,
		"gotor/torrent/info.FromDict":      nil,
		"gotor/torrent/info.NewTorInfo":    nil,
		"gotor/torrent/filesd.FromBenList": nil,
		"gotor/tracker.newResponse":        nil,
		"gotor/p2p.DecodeAll":              nil,
		"gotor/p2p.Decode": func(k *Call) ([]Res, bool) {
			t := k.fn.Signature.Results().At(0).Type()
			v := k.fresh("dec", t)
			ln := k.st.lenOf(k.args[0], k.fn.Params[0].Type())
			rd := I(resField(k.st, v, t, "Read"))
			if k.st.holds(Le(IntC(1), ln)) {
				k.st.learn(Le(IntC(1), rd))
			}
			k.st.learn(Ge0(rd))
			k.st.learn(Le(rd, AddC(ln, 16)))
			return []Res{{st: k.st, vals: []*Term{v, k.fresh("err", k.fn.Signature.Results().At(1).Type())}}}, true
		},
		"gotor/utils.OCAT":                          nil,
		"gotor/utils.AppendZeros":                   nil,
		"gotor/utils.SegmentData":                   nil,
		"gotor/torrent/info.CreateTorInfo":          nil,
		"(*gotor/torrent/fileio.FileIO).ReadPiece":  readPieceContract,
		"(*gotor/torrent/fileio.FileIO).WritePiece": nil,
		"(*gotor/swarm.Swarm).Validate":             nil,
		"gotor/tracker.Get":                         nil,
		"gotor/swarm.NewPeerPieceTracker":           nil,
	}
	for _, n := range []string{
		"gotor/torrent.FromTorrentFile", "gotor/tracker.Get", "gotor/bencode.Decode", "gotor/bencode.Encode",
		"gotor/p2p.DecodeAll", "gotor/p2p.Decode", "(*gotor/swarm.PeerHandler).createReqMessages",
		"gotor/utils.SegmentData", "gotor/utils.OCAT", "gotor/utils.AppendZeros",
		"gotor/utils.parseSizeUnits", "gotor/bf.FromBytes", "(*gotor/bf.Bitfield).Fill", "(*gotor/bf.Bitfield).SetNbits",
		"(*gotor/torrent/fileio.FileIO).ReadPiece", "(*gotor/torrent/fileio.FileIO).WritePiece",
		"(gotor/torrent/filesd.FileList).GetFiles",
		"(*gotor/torrent/filesd.Entry).PieceInfo",
	} {
		rs.add(c.pg.fn(n))
	}
	rs.run()
	c.decodeContract()
}

func init() {
	register(&Prop{id: "C03", title: "Parsing, generating and storing always finish",
		rule: "A ranking measure is found for every loop and every recursion reached from the parsers, encoders and piece functions: an expression over the loop's variables that is bounded and that every path back to the loop head changes by at least one.",
		min:  map[string]int{"loop": 15, "recursion": 1}, run: runC03})
}

package main

// The abstract interpreter: forward, path-partitioned, inlining repo functions,
// with a fixpoint computation per loop (loop.go).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Deferred struct {
	callee *Term // KFn or nil
	common *ssa.CallCommon
	args   []*Term
	instr  ssa.Instruction
}

type D struct {
	st     *State
	env    map[ssa.Value]*Term
	defers []*Deferred
}

func (d *D) clone() *D {
	n := &D{st: d.st.clone(), defers: d.defers[:len(d.defers):len(d.defers)]}
	n.env = make(map[ssa.Value]*Term, len(d.env)+4)
	for k, v := range d.env {
		n.env[k] = v
	}
	return n
}

type Outcome struct {
	st    *State
	vals  []*Term
	panic *Term // non-nil: the function panicked
}

type Frame struct {
	e        *Exec
	fn       *ssa.Function
	parent   *Frame
	path     string // call path identity
	depth    int
	callSite ssa.Instruction
	recovery []*ssa.Defer // deferred closures of this function that recover
	goRoot   bool
}

// rec tells whether a panic at the instruction is recovered: a closure that
// does was deferred before, in this frame or in one that it runs in.
func (fr *Frame) rec(in ssa.Instruction) bool {
	for _, d := range fr.recovery {
		if in == nil || in.Parent() != fr.fn {
			continue
		}
		if d.Block() == in.Block() {
			for _, x := range in.Block().Instrs {
				if x == ssa.Instruction(d) {
					return true
				}
				if x == in {
					break
				}
			}
		} else if d.Block().Dominates(in.Block()) {
			return true
		}
	}
	if fr.goRoot {
		return false
	}
	if fr.parent == nil {
		return fr.e.protected
	}
	return fr.parent.rec(fr.callSite)
}

type edge struct {
	pred *ssa.BasicBlock
	d    *D
}

type pending struct {
	in   map[*ssa.BasicBlock][]edge
	outs []Outcome
}

func newPending() *pending { return &pending{in: map[*ssa.BasicBlock][]edge{}} }

type Res struct {
	st    *State
	vals  []*Term
	panic *Term
}

// Exec is one analysis run of one root.
type Exec struct {
	pg    *Program
	hooks *Hooks
	dry   int // >0: inside a fixpoint iteration, nothing is recorded
	// predicates of the analysis: on the elements of slices, and on strings
	elemPreds  []string
	elemOK     func(st *State, name string, v *Term, t types.Type) bool
	elemLearn  func(st *State, name string, v *Term, t types.Type, at *Term)
	strPred    func(st *State, name string, s *Term) bool
	onWrite    func(k *Call, st *State, b, x *Term) // writes to a buffer, see props_bencode.go
	peel       bool                                 // follow the first iteration of each loop on its own
	strPreds   []string
	intPred    func(st *State, name string, x *Term) bool
	intPreds   []string
	rels       func(st *State) []rel
	wide       bool    // try many relations
	scale      *Term   // a factor that relations between quantities may have
	scaled     []*Term // ghosts that such relations are about, if there are many
	ideal      bool    // 64-bit arithmetic is treated as mathematical
	root       string
	ctx        *Ctx
	steps      int
	limit      int
	caps       int
	fnSeen     map[*ssa.Function]bool
	blocks     int
	unres      map[string]bool
	sc         int  // states cap at merges
	bitJoin    bool // join states that differ by one bit of data
	unrollMax  int
	noFail     bool
	sinkMark   func(st *State, x *Term)
	paths      bool // keep states apart that know different things
	trace      bool
	noInv      int
	protected  bool // the root runs inside a call that recovers
	invs       map[string]Inv
	ppt        func(st *State) *Term // the piece tracker at hand
	overflowed bool
	loopN      int
	loopFail   int
	loopBad    map[string]bool
}

// Hooks let a property observe and override what happens.
type Hooks struct {
	// call is looked up by full name of the callee; handled=false continues.
	call map[string]func(c *Call) ([]Res, bool)
	// anyCall sees every call before it is executed
	anyCall func(c *Call)
	// after sees results of a call of the named function
	after map[string]func(c *Call, rs []Res)
	// panicOp: an operation whose safety could not be established.
	panicOp func(fr *Frame, d *D, in ssa.Instruction, what string, must bool)
	safeOp  func(fr *Frame, in ssa.Instruction, what string)
	onStore func(fr *Frame, st *State, in ssa.Instruction, addr, val *Term)
	// markStore and markMap (a nil value: a deletion) run in every pass, and may
	// change the state
	markStore func(fr *Frame, st *State, in ssa.Instruction, addr, val *Term)
	markMap   func(fr *Frame, st *State, in ssa.Instruction, m, k, v *Term)
	// onNext: a step of a loop over a map (a nil key: the end), in every pass
	onNext func(fr *Frame, st *State, it, k *Term)
	// markAppend: the same for append
	markAppend func(fr *Frame, st *State, in ssa.Instruction, s *Term, elems []*Term)
	onLoad     func(fr *Frame, st *State, in ssa.Instruction, addr *Term)
	onGo       func(c *Call)
	markGo     func(c *Call)
	onInstr    func(fr *Frame, d *D, in ssa.Instruction) // before it is executed
	onDefer    func(c *Call)
	onSelect   func(fr *Frame, st *State, in *ssa.Select, idx int)
	onSend     func(fr *Frame, st *State, in ssa.Instruction, ch, v *Term)
	onRecv     func(fr *Frame, st *State, in ssa.Instruction, ch *Term)
	markRecv   func(fr *Frame, st *State, in ssa.Instruction, ch *Term)
	comm       func(k *Comm) // every operation on a channel, also while looking for invariants
	onReturn   func(fr *Frame, st *State, vals []*Term)
	onLoop     func(fr *Frame, head *ssa.BasicBlock, rank string, ok bool, why string)
	onAppend   func(fr *Frame, st *State, in ssa.Instruction, s *Term, elems []*Term, res *Term)
	onMapSet   func(fr *Frame, st *State, in ssa.Instruction, m, k, v *Term)
	onExt      func(fr *Frame, st *State, in ssa.Instruction, name string) // unmodelled external call
	opaque     func(fn *ssa.Function) bool
	recursive  func(c *Call) ([]Res, bool)
	wantTerm   bool
	exploreP   bool // explore panicking paths (inside recovering frames)
}

// Comm is an operation on a channel: "send", "recv", "close", or "default"
// for a select that finds nothing ready.
type Comm struct {
	e      *Exec
	fr     *Frame
	st     *State
	in     ssa.Instruction
	kind   string
	ch, v  *Term
	ct     types.Type // what the channel carries
	plain  bool       // not in a select
	blocks bool       // may wait
	recvs  []*Term    // the channels a select could receive from
}

// Call describes a call being executed.
type Call struct {
	e     *Exec
	fr    *Frame
	st    *State
	name  string
	fn    *ssa.Function
	args  []*Term
	instr ssa.Instruction
	sig   *types.Signature
	recvT types.Type
	site  string // identity of this visit
	isGo  bool
	d     *D
}

func (c *Call) pos() string { return c.e.pg.pos(c.instr.Pos()) }

func (e *Exec) pos(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		// nearest valid position in the block
		for _, x := range in.Block().Instrs {
			if x.Pos().IsValid() {
				p = x.Pos()
			}
			if x == in && p.IsValid() {
				break
			}
		}
		if !p.IsValid() {
			p = in.Parent().Pos()
		}
	}
	return e.pg.pos(p)
}

func (fr *Frame) stack() string {
	var ss []string
	for f := fr; f != nil; f = f.parent {
		ss = append(ss, f.fn.RelString(nil))
	}
	for i, j := 0, len(ss)-1; i < j; i, j = i+1, j-1 {
		ss[i], ss[j] = ss[j], ss[i]
	}
	return strings.Join(ss, " > ")
}

type undecided struct{ msg string }

// ------------------------------------------------------------ running

// Run interprets fn from a state.
func (e *Exec) Run(st *State, fn *ssa.Function, args []*Term, binds []*Term) []Outcome {
	fr := &Frame{e: e, fn: fn, path: fn.RelString(nil)}
	return e.runFn(fr, st, args, binds)
}

func (e *Exec) runFn(fr *Frame, st *State, args []*Term, binds []*Term) []Outcome {
	fn := fr.fn
	if e.fnSeen != nil {
		e.fnSeen[fn] = true
	}
	if traceOn {
		traceAt = append(traceAt, fn.RelString(nil))
		traceN[fn.RelString(nil)]++
		defer func() { traceAt = traceAt[:len(traceAt)-1] }()
	}
	info := e.pg.info(fn)
	fr.recovery = info.recovery
	d := &D{st: st.clone(), env: map[ssa.Value]*Term{}}
	for i, p := range fn.Params {
		if i < len(args) {
			d.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			d.env[p] = binds[i]
		}
	}
	p := newPending()
	p.in[fn.Blocks[0]] = []edge{{nil, d}}
	e.execElems(fr, info.wto, p)
	return e.mergeOutcomes(p.outs)
}

func (e *Exec) mergeOutcomes(outs []Outcome) []Outcome {
	// merge outcomes with equal values and memory
	var res []Outcome
	for _, o := range outs {
		merged := false
		for i := range res {
			r := &res[i]
			if (r.panic == nil) != (o.panic == nil) || r.panic != o.panic || len(r.vals) != len(o.vals) {
				continue
			}
			eq := true
			for j := range r.vals {
				if r.vals[j] != o.vals[j] {
					eq = false
					break
				}
			}
			if eq && sameMem(r.st, o.st) && (!e.paths || sameLog(r.st, o.st)) {
				r.st = joinFacts(r.st, o.st)
				merged = true
				break
			}
		}
		if !merged {
			res = append(res, o)
		}
	}
	return res
}

func sameLog(a, b *State) bool {
	if a.f == b.f {
		return true
	}
	if len(a.f.log) != len(b.f.log) {
		return false
	}
	for i := range a.f.log {
		if a.f.log[i] != b.f.log[i] {
			return false
		}
	}
	return true
}

func sameMem(a, b *State) bool {
	if len(a.mem) != len(b.mem) || len(a.ghost) != len(b.ghost) || len(a.ep) != len(b.ep) {
		return false
	}
	for k, v := range a.ghost {
		if b.ghost[k] != v {
			return false
		}
	}
	for k, v := range a.ep {
		if b.ep[k] != v {
			return false
		}
	}
	for k, v := range a.mem {
		if b.mem[k] != v {
			return false
		}
	}
	return true
}

// joinFacts keeps what both states know.
func joinFacts(a, b *State) *State {
	if a.f == b.f {
		return a
	}
	inB := map[*Term]bool{}
	for _, l := range b.f.log {
		inB[l] = true
	}
	inA := map[*Term]bool{}
	for _, l := range a.f.log {
		inA[l] = true
	}
	n := newFacts()
	n.light = a.f.light
	var extra, onlyA, onlyB []*Term
	for _, l := range a.f.log {
		if inB[l] {
			n.log = append(n.log, l)
			n.add(l)
		} else if b.f.decide(l) == 1 {
			extra = append(extra, l)
		} else {
			onlyA = append(onlyA, l)
		}
	}
	for _, l := range b.f.log {
		if inA[l] {
			continue
		}
		if a.f.decide(l) == 1 {
			extra = append(extra, l)
		} else {
			onlyB = append(onlyB, l)
		}
	}
	for _, l := range extra {
		n.log = append(n.log, l)
		n.add(l)
	}
	// what both know about the paths that met before
	for _, x := range a.f.ors {
		for _, y := range b.f.ors {
			if x == y {
				n.ors = append(n.ors, x)
			}
		}
	}
	if len(onlyA) > 0 && len(onlyB) > 0 && len(onlyA) <= 6 && len(onlyB) <= 6 {
		n.ors = append(n.ors, &clause{[][]*Term{onlyA, onlyB}})
	}
	if len(n.ors) > maxClauses {
		n.ors = n.ors[len(n.ors)-maxClauses:]
	}
	r := a.clone()
	r.f = n
	for k, v := range b.cnt {
		if r.cnt[k] < v {
			r.cnt[k] = v
		}
	}
	for k := range r.mat {
		if b.mat[k] != r.mat[k] {
			delete(r.mat, k)
		}
	}
	return r
}

func (e *Exec) execElems(fr *Frame, elems []*wtoElem, p *pending) {
	for _, el := range elems {
		if len(p.in[el.block]) == 0 {
			continue
		}
		if el.loop == nil {
			e.execBlock(fr, el.block, p)
		} else {
			e.execLoop(fr, el, p)
		}
	}
}

// enter applies the phis of b for each incoming edge and merges the results.
func (e *Exec) enter(fr *Frame, b *ssa.BasicBlock, edges []edge) []*D {
	var ds []*D
	for _, ed := range edges {
		ds = append(ds, applyPhis(b, ed))
	}
	return e.merge(fr, b, ds)
}

func applyPhis(b *ssa.BasicBlock, ed edge) *D {
	if ed.pred == nil {
		return ed.d
	}
	pi := -1
	for i, x := range b.Preds {
		if x == ed.pred {
			pi = i
		}
	}
	d := ed.d
	var phis []*ssa.Phi
	var vals []*Term
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, evalIn(d, ph.Edges[pi]))
	}
	if len(phis) > 0 {
		d = d.clone()
		for i, ph := range phis {
			d.env[ph] = vals[i]
		}
	}
	return d
}

func (e *Exec) merge(fr *Frame, b *ssa.BasicBlock, ds []*D) []*D {
	if len(ds) <= 1 {
		return ds
	}
	live := e.pg.info(fr.fn).live[b]
	var res []*D
	for _, d := range ds {
		merged := false
		for i, r := range res {
			if sameLive(r, d, live) && sameMem(r.st, d.st) && (!e.paths || sameLog(r.st, d.st)) {
				n := r.clone()
				n.st = joinFacts(r.st, d.st)
				res[i] = n
				merged = true
				break
			}
		}
		if !merged {
			res = append(res, d)
		}
	}
	if e.bitJoin {
		for again := true; again; {
			again = false
			for i := 0; i < len(res) && !again; i++ {
				for j := 0; j < len(res) && !again; j++ {
					if i == j {
						continue
					}
					if n := bitJoin(res[i], res[j], live); n != nil {
						res[i] = n
						res = append(res[:j], res[j+1:]...)
						again = true
					}
				}
			}
		}
	}
	if len(res) > e.sc {
		res = e.widen(fr, b, res, live)
	}
	return res
}

// bitJoin joins two states that differ by the value of one bit: integers that
// differ by a constant become linear in the bit. Nothing is lost.
func bitJoin(x, y *D, live map[ssa.Value]bool) *D {
	if len(x.defers) != len(y.defers) || len(x.st.mem) != len(y.st.mem) || len(x.st.ghost) != len(y.st.ghost) || len(x.st.ep) != len(y.st.ep) {
		return nil
	}
	inB, inA := map[*Term]bool{}, map[*Term]bool{}
	for _, l := range y.st.f.log {
		inB[l] = true
	}
	for _, l := range x.st.f.log {
		inA[l] = true
	}
	var bit *Term
	var common []*Term
	for _, l := range x.st.f.log {
		if inB[l] {
			common = append(common, l)
			continue
		}
		as := intAtoms(l)
		if bit == nil {
			for _, a := range as {
				if a.k == KApp && a.s == "bit" {
					bit = a
					break
				}
			}
		}
		if bit == nil || !mentions(l, bit) {
			return nil
		}
	}
	if bit == nil || !x.st.holds(EqI(I(bit), IntC(1))) || !y.st.holds(EqI(I(bit), IntC(0))) {
		return nil
	}
	for _, l := range y.st.f.log {
		if !inA[l] && !mentions(l, bit) {
			return nil
		}
	}
	lerp := func(a, b *Term) *Term {
		if a == b {
			return a
		}
		if a == nil || b == nil || !a.isInt() || !b.isInt() {
			return nil
		}
		if _, ok := Sub(a, b).constI64(); !ok {
			return nil
		}
		return Add(b, Mul(Sub(a, b), I(bit)))
	}
	n := x.clone()
	for v := range live {
		t := lerp(x.env[v], y.env[v])
		if t == nil && (x.env[v] != nil || y.env[v] != nil) {
			return nil
		}
		if t != nil {
			n.env[v] = t
		}
	}
	for v := range n.env {
		if !live[v] && x.env[v] != y.env[v] {
			delete(n.env, v)
		}
	}
	for k, v := range x.st.mem {
		w, ok := y.st.mem[k]
		if !ok {
			return nil
		}
		if t := lerp(v, w); t != nil {
			n.st.mem[k] = t
		} else {
			return nil
		}
	}
	for k, v := range x.st.ghost {
		if y.st.ghost[k] != v {
			return nil
		}
	}
	for k, v := range x.st.ep {
		if y.st.ep[k] != v {
			return nil
		}
	}
	f := newFacts()
	f.light = x.st.f.light
	for _, l := range common {
		f.log = append(f.log, l)
		f.add(l)
	}
	n.st.f = f
	for k, v := range y.st.cnt {
		if n.st.cnt[k] < v {
			n.st.cnt[k] = v
		}
	}
	return n
}

func sameLive(a, b *D, live map[ssa.Value]bool) bool {
	for v := range live {
		x, y := a.env[v], b.env[v]
		if x != y {
			return false
		}
	}
	if len(a.defers) != len(b.defers) {
		return false
	}
	for i := range a.defers {
		if a.defers[i] == b.defers[i] {
			continue
		}
		if a.defers[i].instr != b.defers[i].instr || len(a.defers[i].args) != len(b.defers[i].args) || a.defers[i].callee != b.defers[i].callee {
			return false
		}
		for j := range a.defers[i].args {
			if a.defers[i].args[j] != b.defers[i].args[j] {
				return false
			}
		}
	}
	return true
}

// widen joins states pairwise until at most the cap is left.
func (e *Exec) widen(fr *Frame, b *ssa.BasicBlock, ds []*D, live map[ssa.Value]bool) []*D {
	// group by non-integer live values, nilness and ghosts
	groups := map[string][]*D{}
	var order []string
	for _, d := range ds {
		k := widenKey(d, live)
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], d)
	}
	var res []*D
	for _, k := range order {
		g := groups[k]
		r := g[0]
		for _, d := range g[1:] {
			r = e.join2(fr, b, r, d, live)
		}
		res = append(res, r)
	}
	if len(res) > 4*e.sc {
		r := res[0]
		for _, d := range res[1:] {
			r = e.join2(fr, b, r, d, live)
		}
		res = []*D{r}
	}
	return res
}

func widenKey(d *D, live map[ssa.Value]bool) string {
	var ss []string
	for v := range live {
		t := d.env[v]
		if t == nil {
			continue
		}
		switch t.k {
		case KInt:
		case KNil, KTrue, KFalse:
			ss = append(ss, v.Name()+"="+strconv.Itoa(t.id))
		}
	}
	for k, v := range d.st.ghost {
		ss = append(ss, k+"="+strconv.Itoa(v.id))
	}
	ss = append(ss, strconv.Itoa(len(d.defers)))
	sort.Strings(ss)
	return strings.Join(ss, ";")
}

// join2 is the lossy join: values that differ become fresh symbols with bounds.
func (e *Exec) join2(fr *Frame, b *ssa.BasicBlock, x, y *D, live map[ssa.Value]bool) *D {
	n := &D{st: joinFacts(x.st, y.st).clone(), env: map[ssa.Value]*Term{}, defers: x.defers}
	if len(y.defers) < len(x.defers) {
		n.defers = y.defers
	}
	freshSeq++
	tag := fmt.Sprintf("j%d", freshSeq)
	type pr struct{ a, b *Term }
	memo := map[pr]*Term{}
	var bounds []func()
	var jn func(a, b *Term, t types.Type, name string) *Term
	jn = func(a, b *Term, t types.Type, name string) *Term {
		if a == b {
			return a
		}
		if r, ok := memo[pr{a, b}]; ok {
			return r
		}
		var r *Term
		switch {
		case a.k == KInt && b.k == KInt:
			h := I(Sym(tag+"."+name, t))
			r = h
			bounds = append(bounds, func() {
				for _, c := range []*Term{a, b, IntC(0), IntC(1)} {
					if x.st.holds(Le(c, a)) && y.st.holds(Le(c, b)) {
						n.st.learn(Le(c, h))
					}
					if x.st.holds(Le(a, c)) && y.st.holds(Le(b, c)) {
						n.st.learn(Le(h, c))
					}
				}
			})
		case a.k == KSlice && b.k == KSlice && a.args[0] == b.args[0]:
			r = mkSlice(a.args[0], jn(a.args[1], b.args[1], lenType, name+".o"), jn(a.args[2], b.args[2], lenType, name+".l"), jn(a.args[3], b.args[3], lenType, name+".c"))
		case a.k == KStruct && b.k == KStruct && len(a.args) == len(b.args):
			var fs []*Term
			for i := range a.args {
				fs = append(fs, jn(a.args[i], b.args[i], nil, name+"."+strconv.Itoa(i)))
			}
			r = mk(KStruct, "", 0, a.typ, nil, fs...)
		default:
			if t != nil {
				r = opaqueValue(Sym(tag+"."+name, t), t)
			} else {
				r = Sym(tag+"."+name, nil)
			}
			if x.st.nonNil(a) && y.st.nonNil(b) && r.k != KInt {
				rr := r
				bounds = append(bounds, func() { n.st.learn(Not(EqT(rr, TNil))) })
			}
		}
		memo[pr{a, b}] = r
		return r
	}
	for v := range x.env {
		if y.env[v] != nil {
			if x.env[v] == y.env[v] {
				n.env[v] = x.env[v]
			} else if live[v] {
				n.env[v] = jn(x.env[v], y.env[v], v.Type(), v.Name())
			}
		}
	}
	st := n.st
	st.mem = map[*Term]*Term{}
	for k, v := range x.st.mem {
		w, ok := y.st.mem[k]
		if !ok {
			if k.k == KBArr {
				if isFresh(k.args[0]) && !existsIn(k.args[0], y.st) {
					st.mem[k] = v
				} else {
					st.ep["B:"+strconv.Itoa(k.args[0].id)] += tag
				}
				continue
			}
			if k.k == KApp {
				if len(k.args) > 0 && isFresh(rootOf(k.args[0])) && !existsIn(k.args[0], y.st) {
					st.mem[k] = v
					continue
				}
				switch k.s {
				case "gh:sb":
					st.mem[k] = jn(v, Seq(), nil, "sb"+strconv.Itoa(k.id))
				case "gh:has", "gh:maplen":
					st.ep["M:"+strconv.Itoa(k.args[0].id)] += tag
				}
				continue
			}
			if !existsIn(k, y.st) {
				st.mem[k] = v
				continue
			}
			w = y.st.initialOf(k)
		}
		if v == w {
			st.mem[k] = v
		} else if k.k == KBArr {
			st.ep["B:"+strconv.Itoa(k.args[0].id)] += tag
		} else if k.k == KApp && strings.HasPrefix(k.s, "gh:") && addrTyp[k] == nil {
			if v.k == KInt {
				st.mem[k] = jn(v, w, lenType, "m"+strconv.Itoa(k.id))
			} else if k.s == "gh:has" {
				st.mem[k] = Sym(tag+".has"+strconv.Itoa(k.id), types.Typ[types.Bool])
			} else {
				st.mem[k] = jn(v, w, nil, "m"+strconv.Itoa(k.id))
			}
		} else {
			st.mem[k] = jn(v, w, addrTyp[k], "m"+strconv.Itoa(k.id))
		}
	}
	for k, w := range y.st.mem {
		if _, ok := x.st.mem[k]; ok {
			continue
		}
		if k.k == KBArr {
			if isFresh(k.args[0]) && !existsIn(k.args[0], x.st) {
				st.mem[k] = w
			} else {
				st.ep["B:"+strconv.Itoa(k.args[0].id)] += tag
			}
			continue
		}
		if k.k == KApp {
			if len(k.args) > 0 && isFresh(rootOf(k.args[0])) && !existsIn(k.args[0], x.st) {
				st.mem[k] = w
				continue
			}
			switch k.s {
			case "gh:sb":
				st.mem[k] = jn(Seq(), w, nil, "sb"+strconv.Itoa(k.id))
			case "gh:has", "gh:maplen":
				st.ep["M:"+strconv.Itoa(k.args[0].id)] += tag
			}
			continue
		}
		if !existsIn(k, x.st) {
			st.mem[k] = w
			continue
		}
		v := x.st.initialOf(k)
		if v == w {
			st.mem[k] = v
		} else {
			st.mem[k] = jn(v, w, addrTyp[k], "m"+strconv.Itoa(k.id))
		}
	}
	for k, v := range y.st.ep {
		if st.ep[k] != v {
			st.ep[k] = st.ep[k] + tag
		}
	}
	for k, v := range x.st.ep {
		if y.st.ep[k] != v {
			st.ep[k] = v + tag
		}
	}
	for k, v := range x.st.ghost {
		if y.st.ghost[k] != v {
			if w := y.st.ghost[k]; w != nil {
				st.ghost[k] = jn(v, w, nil, "g:"+k)
			} else {
				delete(st.ghost, k)
			}
		}
	}
	for _, f := range bounds {
		f()
	}
	e.caps++
	return n
}

// existsIn: could the cell denote an object that exists in the state?
func existsIn(a *Term, s *State) bool {
	if a.k == KApp && len(a.args) > 0 {
		a = a.args[0]
	}
	r := rootOf(a)
	if !isFresh(r) {
		return true
	}
	return s.cnt["obj:"+strconv.FormatInt(r.n, 10)] > 0
}

func (s *State) initialOf(a *Term) *Term {
	return s.initial(a, addrTyp[a])
}

// ------------------------------------------------------------ blocks

func (e *Exec) execBlock(fr *Frame, b *ssa.BasicBlock, p *pending) {
	edges := p.in[b]
	delete(p.in, b)
	ds := e.enter(fr, b, edges)
	e.execBlockOn(fr, b, ds, p)
}

type bwork struct {
	d *D
	i int
}

func (e *Exec) execBlockOn(fr *Frame, b *ssa.BasicBlock, ds []*D, p *pending) {
	work := make([]bwork, 0, len(ds))
	for i := len(ds) - 1; i >= 0; i-- {
		work = append(work, bwork{ds[i], 0})
	}
	e.blocks++
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		d, i := w.d, w.i
		for i < len(b.Instrs) {
			in := b.Instrs[i]
			e.steps++
			if e.steps > e.limit {
				panic(undecided{"step limit exceeded in " + fr.fn.RelString(nil)})
			}
			if _, ok := in.(*ssa.Phi); ok {
				i++
				continue
			}
			more, end := e.step(fr, d, in, p)
			if end {
				d = nil
				break
			}
			if len(more) == 0 {
				d = nil
				break
			}
			for k := len(more) - 1; k >= 1; k-- {
				work = append(work, bwork{more[k], i + 1})
			}
			d = more[0]
			i++
		}
	}
}

func (e *Exec) goTo(p *pending, from, to *ssa.BasicBlock, d *D) {
	p.in[to] = append(p.in[to], edge{from, d})
}

func evalIn(d *D, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return mk(KGlob, x.RelString(nil), 0, nil, nil)
	case *ssa.Function:
		return mk(KFn, "", 0, nil, x)
	case *ssa.Builtin:
		return mk(KFn, "builtin:"+x.Name(), 0, nil, nil)
	}
	t := d.env[v]
	if t == nil {
		panic(undecided{fmt.Sprintf("no value for %s in %s", v.Name(), v.Parent())})
	}
	return t
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroValue(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return StrLit(constant.StringVal(c.Value))
	case constant.Int:
		if isFloat(c.Type()) {
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return FloatOfInt(IntC(i))
			}
		}
		v := constant.Val(constant.ToInt(c.Value))
		switch x := v.(type) {
		case int64:
			return IntC(x)
		case *big.Int:
			return IntBig(x)
		}
	case constant.Float:
		if isFloat(c.Type()) {
			if i := constant.ToInt(c.Value); i.Kind() == constant.Int {
				if n, ok := constant.Int64Val(i); ok {
					return FloatOfInt(IntC(n))
				}
			}
			return mk(KFloat, c.Value.ExactString(), 0, nil, nil)
		}
		if i := constant.ToInt(c.Value); i.Kind() == constant.Int {
			if n, ok := constant.Int64Val(i); ok {
				return IntC(n)
			}
		}
	}
	return mk(KFloat, c.Value.ExactString(), 0, nil, nil)
}

// visit makes a name for this execution of an instruction, unique on a path.
func (e *Exec) visit(fr *Frame, st *State, in ssa.Instruction) string {
	k := fr.path + "/" + e.pg.instrID(in)
	st.cnt[k]++
	if n := st.cnt[k]; n > 1 {
		return k + "~" + strconv.Itoa(n)
	}
	return k
}

func (e *Exec) newObj(fr *Frame, st *State, in ssa.Instruction, sub string, oi *objInfo) *Term {
	k := e.visit(fr, st, in) + sub
	oi.site = k
	oi.pos = e.pos(in)
	t := newObj(k, oi)
	st.cnt["obj:"+strconv.FormatInt(t.n, 10)] = 1
	return t
}

// fail reports an operation that may panic. It returns the states that go on
// (with ok assumed), and sends the panicking ones to the recovering frame.
func (e *Exec) guard(fr *Frame, d *D, in ssa.Instruction, what string, ok *Term, p *pending) *D {
	r := d.st.f.decide(ok)
	if r == 0 {
		if st := noWraps(d.st, ok); st != d.st {
			d = &D{st: st, env: d.env, defers: d.defers}
			r = st.f.decide(ok)
		}
	}
	if r == 1 {
		if e.hooks.safeOp != nil && e.dry == 0 {
			e.hooks.safeOp(fr, in, what)
		}
		return d
	}
	if fr.rec(in) && e.hooks.exploreP {
		if bad := d.st.with(Not(ok)); bad != nil {
			e.panicOut(fr, &D{st: bad, env: d.env, defers: d.defers}, in, App("newerr", nil, mkLit("runtime:"+what)), p)
		}
	} else if !fr.rec(in) && e.hooks.panicOp != nil && e.dry == 0 {
		e.hooks.panicOp(fr, d, in, what+": need "+ok.String(), r == -1)
	}
	if r == -1 {
		return nil
	}
	st := d.st.with(ok)
	if st == nil {
		return nil
	}
	if st == d.st {
		return d
	}
	return &D{st: st, env: d.env, defers: d.defers}
}

// noWraps adds, for the results in ok that could have overflowed when they were
// computed, that they did not, where what has been learned since shows it.
func noWraps(st *State, ok *Term) *State {
	if (ok.k != KGe0 && ok.k != KEq0) || ok.args[0].k != KInt {
		return st
	}
	out := st
	for _, m := range ok.args[0].ps {
		w := m.m
		if w == nil || w.k != KApp || !strings.HasPrefix(w.s, "wrap:") || len(w.args) != 1 || w.typ == nil {
			continue
		}
		lo, hi := typeRange(w.typ)
		v := w.args[0]
		if lo == nil || v.k != KInt || !out.holds(Ge0(Sub(v, IntBig(lo)))) || !out.holds(Ge0(Sub(IntBig(hi), v))) {
			continue
		}
		if out == st {
			out = st.clone()
		}
		out.learn(EqI(I(w), v))
	}
	return out
}

func (e *Exec) panicOut(fr *Frame, d *D, in ssa.Instruction, val *Term, p *pending) {
	// run the deferred calls of this frame
	st := d.st.clone()
	st.ghost["panicking"] = val
	ds := e.runDefers(fr, &D{st: st, env: d.env, defers: d.defers}, p)
	for _, x := range ds {
		if x.st.ghost["panicking"] != nil {
			p.outs = append(p.outs, Outcome{st: x.st, panic: val})
			continue
		}
		// recovered: the function returns its named results
		if rb := fr.fn.Recover; rb != nil {
			e.execBlockOn(fr, rb, []*D{x}, p)
		} else {
			var vals []*Term
			for i := 0; i < fr.fn.Signature.Results().Len(); i++ {
				vals = append(vals, zeroValue(fr.fn.Signature.Results().At(i).Type()))
			}
			p.outs = append(p.outs, Outcome{st: x.st, vals: vals})
		}
	}
}

func (e *Exec) runDefers(fr *Frame, d *D, p *pending) []*D {
	cur := []*D{d}
	for i := len(d.defers) - 1; i >= 0; i-- {
		df := d.defers[i]
		var next []*D
		for _, x := range cur {
			rest := x.defers
			if len(rest) > i {
				rest = rest[:i]
			}
			rs := e.doCall(fr, x, df.common, df.callee, df.args, df.instr, true)
			for _, r := range rs {
				if r.panic != nil {
					continue
				}
				next = append(next, &D{st: r.st, env: x.env, defers: rest})
			}
		}
		cur = next
	}
	return cur
}

// step executes one instruction; end=true when the path is finished.
func (e *Exec) step(fr *Frame, d *D, in ssa.Instruction, p *pending) (out []*D, end bool) {
	st := d.st
	ev := func(v ssa.Value) *Term { return evalIn(d, v) }
	set := func(v ssa.Value, t *Term) []*D {
		d.env[v] = t
		return []*D{d}
	}
	if e.hooks.onInstr != nil && e.dry == 0 {
		e.hooks.onInstr(fr, d, in)
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return []*D{d}, false

	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		oi := &objInfo{typ: et, kind: "var"}
		if !x.Heap {
			oi.block, oi.frame = x.Block(), fr.path
		}
		if a, ok := et.Underlying().(*types.Array); ok {
			oi.kind = "array"
			oi.typ = a.Elem()
			oi.capT = IntC(a.Len())
		}
		d = d.clone()
		t := e.newObj(fr, d.st, in, "", oi)
		d.env[x] = t
		e.clearObj(d.st, t)
		return []*D{d}, false

	case *ssa.BinOp:
		return e.binop(fr, d, x, p), false

	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := ev(x.X)
			d = e.nilCheck(fr, d, in, a, "nil pointer dereference", p)
			if d == nil {
				return nil, true
			}
			if e.hooks.onLoad != nil && e.dry == 0 {
				e.hooks.onLoad(fr, d.st, in, a)
			}
			v := e.loadChecked(fr, d, a, x.Type())
			d.env[x] = v
			return []*D{d}, false
		case token.NOT:
			return set(x, Not(ev(x.X))), false
		case token.SUB:
			if isFloat(x.Type()) {
				return set(x, mk(KFloat, "neg", 0, nil, nil, ev(x.X))), false
			}
			return set(x, e.fit(st, Neg(ev(x.X)), x.Type())), false
		case token.XOR:
			return set(x, e.bitNot(st, ev(x.X), x.Type())), false
		case token.ARROW:
			ch := ev(x.X)
			d = d.clone()
			if e.hooks.markRecv != nil {
				e.hooks.markRecv(fr, d.st, in, ch)
			}
			if e.hooks.onRecv != nil && e.dry == 0 {
				e.hooks.onRecv(fr, d.st, in, ch)
			}
			k := e.visit(fr, d.st, in)
			et := x.X.Type().Underlying().(*types.Chan).Elem()
			v := opaqueValue(Sym("recv:"+k, et), et)
			if e.hooks.comm != nil {
				e.hooks.comm(&Comm{e: e, fr: fr, st: d.st, in: in, kind: "recv", ct: et, ch: d.st.f.find(ch), v: v, plain: true, blocks: true, recvs: []*Term{d.st.f.find(ch)}})
			}
			if x.CommaOk {
				v = mk(KTuple, "", 0, nil, nil, v, Sym("recvok:"+k, types.Typ[types.Bool]))
			}
			d.env[x] = v
			return []*D{d}, false
		}

	case *ssa.Call:
		c := d.clone()
		rs := e.doCall(fr, c, &x.Call, nil, nil, in, false)
		for _, r := range rs {
			if r.panic != nil {
				if fr.rec(in) {
					e.panicOut(fr, &D{st: r.st, env: d.env, defers: d.defers}, in, r.panic, p)
				}
				continue
			}
			n := &D{st: r.st, env: cloneEnv(d.env), defers: d.defers}
			switch len(r.vals) {
			case 0:
				n.env[x] = TNil
			case 1:
				if _, ok := x.Type().(*types.Tuple); ok {
					n.env[x] = mk(KTuple, "", 0, nil, nil, r.vals...)
				} else {
					n.env[x] = r.vals[0]
				}
			default:
				n.env[x] = mk(KTuple, "", 0, nil, nil, r.vals...)
			}
			out = append(out, n)
		}
		out = e.dedupe(fr, in, out)
		return out, len(out) == 0

	case *ssa.ChangeInterface:
		return set(x, ev(x.X)), false
	case *ssa.ChangeType:
		return set(x, ev(x.X)), false
	case *ssa.Convert:
		return e.convert(fr, d, x), false
	case *ssa.MultiConvert:
		return set(x, opaqueValue(Sym("conv:"+e.visit(fr, st, in), x.Type()), x.Type())), false

	case *ssa.Defer:
		n := d.clone()
		df := &Deferred{common: &x.Call, instr: in}
		df.callee, df.args = e.evalCall(d, &x.Call)
		n.defers = append(n.defers[:len(n.defers):len(n.defers)], df)
		return []*D{n}, false

	case *ssa.RunDefers:
		ds := e.runDefers(fr, d.clone(), p)
		for _, n := range ds {
			n.env = cloneEnv(n.env)
		}
		return ds, len(ds) == 0

	case *ssa.Go:
		n := d.clone()
		callee, args := e.evalCall(d, &x.Call)
		if e.hooks.markGo != nil {
			e.hooks.markGo(&Call{e: e, fr: fr, st: n.st, args: append([]*Term{callee}, args...), instr: in, fn: e.staticTarget(&x.Call, callee), isGo: true, d: n})
		}
		if e.hooks.onGo != nil && e.dry == 0 {
			e.hooks.onGo(&Call{e: e, fr: fr, st: n.st, args: append([]*Term{callee}, args...), instr: in, fn: e.staticTarget(&x.Call, callee), isGo: true, d: n})
		}
		return []*D{n}, false

	case *ssa.Extract:
		return set(x, structField(ev(x.Tuple), x.Index, x.Type())), false
	case *ssa.Field:
		return set(x, structField(ev(x.X), x.Field, x.Type())), false

	case *ssa.FieldAddr:
		a := ev(x.X)
		d = e.nilCheck(fr, d, in, a, "nil pointer dereference", p)
		if d == nil {
			return nil, true
		}
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		e.materialise(fr, d, d.st.f.find(a), pt)
		d.env[x] = FldAddr(d.st.f.find(a), pt, x.Field)
		return []*D{d}, false

	case *ssa.If:
		c := ev(x.Cond)
		b := in.Block()
		t := st.with(c)
		f := st.with(Not(c))
		if t != nil {
			n := d
			if t != st {
				n = &D{st: t, env: cloneEnv(d.env), defers: d.defers}
			} else if f != nil {
				n = d.clone()
			}
			e.goTo(p, b, b.Succs[0], n)
		}
		if f != nil {
			n := d
			if f != st {
				n = &D{st: f, env: cloneEnv(d.env), defers: d.defers}
			}
			e.goTo(p, b, b.Succs[1], n)
		}
		return nil, true

	case *ssa.Jump:
		e.goTo(p, in.Block(), in.Block().Succs[0], d)
		return nil, true

	case *ssa.Index:
		// index of an array value or a string
		idx := I(ev(x.Index))
		l := st.lenOf(ev(x.X), x.X.Type())
		d = e.bounds(fr, d, in, idx, l, p)
		if d == nil {
			return nil, true
		}
		if isString(x.X.Type()) {
			s := d.st.strSeq(ev(x.X))
			v := seqByte(d.st.f, s, idx)
			if v == nil {
				v = I(App("byteat", byteType, s, idx))
			}
			d.env[x] = v
		} else {
			av := ev(x.X)
			if av.k == KApp && av.s == "arrval" {
				if b := seqByte(d.st.f, av.args[0], idx); b != nil {
					d.env[x] = b
					return []*D{d}, false
				}
			}
			if i, ok := idx.constI64(); ok && av.k == KTuple && av.s == "arr" && i < int64(len(av.args)) {
				d.env[x] = av.args[i]
				return []*D{d}, false
			}
			d.env[x] = opaqueValue(App("index", x.Type(), av, idx), x.Type())
		}
		return []*D{d}, false

	case *ssa.IndexAddr:
		idx := I(ev(x.Index))
		var base, off, l *Term
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			base, off, l, _ = parts(st.f.find(ev(x.X)))
			_ = u
		case *types.Pointer:
			d = e.nilCheck(fr, d, in, ev(x.X), "nil pointer dereference", p)
			if d == nil {
				return nil, true
			}
			base, off, l = ev(x.X), IntC(0), IntC(u.Elem().Underlying().(*types.Array).Len())
			if n, ok := byteArray(u.Elem()); ok {
				arrLen[base] = n
			}
		}
		d = e.bounds(fr, d, in, idx, l, p)
		if d == nil {
			return nil, true
		}
		d.env[x] = mk(KElem, "", 0, nil, nil, base, Add(off, idx))
		return []*D{d}, false

	case *ssa.Lookup:
		m := ev(x.X)
		if isString(x.X.Type()) {
			idx := I(ev(x.Index))
			l := st.lenOf(m, x.X.Type())
			d = e.bounds(fr, d, in, idx, l, p)
			if d == nil {
				return nil, true
			}
			s := d.st.strSeq(m)
			v := seqByte(d.st.f, s, idx)
			if v == nil {
				v = I(App("byteat", byteType, s, idx))
			}
			d.env[x] = v
			return []*D{d}, false
		}
		mt := x.X.Type().Underlying().(*types.Map)
		if e.hooks.onLoad != nil && e.dry == 0 {
			e.hooks.onLoad(fr, d.st, in, mk(KElem, "", 0, nil, nil, m, ev(x.Index)))
		}
		has, val := st.mapGet(m, ev(x.Index), mt.Elem())
		res := func(v, ok *Term) *Term {
			if x.CommaOk {
				return mk(KTuple, "", 0, nil, nil, v, ok)
			}
			return v
		}
		if t := st.with(has); t != nil {
			if t2 := t.with(Ge0(AddC(t.mapLen(m), -1))); t2 != nil {
				t = t2
			}
			n := &D{st: t, env: cloneEnv(d.env), defers: d.defers}
			n.env[x] = res(val, TTrue)
			if r := e.elemFacts(n, m, val); r {
				out = append(out, n)
			}
		}
		if f := st.with(Not(has)); f != nil {
			n := &D{st: f, env: cloneEnv(d.env), defers: d.defers}
			n.env[x] = res(zeroValue(mt.Elem()), TFalse)
			out = append(out, n)
		}
		return out, len(out) == 0

	case *ssa.MakeChan:
		d = d.clone()
		d.env[x] = e.newObj(fr, d.st, in, "", &objInfo{typ: x.Type(), kind: "chan", capT: I(ev(x.Size))})
		return []*D{d}, false

	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, ev(b))
		}
		return set(x, mk(KFn, "", 0, nil, x.Fn, bs...)), false

	case *ssa.MakeInterface:
		return set(x, mk(KIface, "", 0, x.X.Type(), nil, ev(x.X))), false

	case *ssa.MakeMap:
		d = d.clone()
		t := e.newObj(fr, d.st, in, "", &objInfo{typ: x.Type(), kind: "map"})
		e.clearObj(d.st, t)
		d.env[x] = t
		return []*D{d}, false

	case *ssa.MakeSlice:
		ln, cp := I(ev(x.Len)), I(ev(x.Cap))
		d = e.guard(fr, d, in, "makeslice length", Ge0(ln), p)
		if d == nil {
			return nil, true
		}
		if ln != cp {
			d = e.guard(fr, d, in, "makeslice capacity", Le(ln, cp), p)
			if d == nil {
				return nil, true
			}
		}
		d = d.clone()
		et := x.Type().Underlying().(*types.Slice).Elem()
		t := e.newObj(fr, d.st, in, "", &objInfo{typ: et, kind: "array", capT: cp})
		e.clearObj(d.st, t)
		d.env[x] = mkSlice(t, IntC(0), ln, cp)
		return []*D{d}, false

	case *ssa.MapUpdate:
		m := ev(x.Map)
		d = e.nilCheck(fr, d, in, m, "assignment to entry in nil map", p)
		if d == nil {
			return nil, true
		}
		d = d.clone()
		if e.hooks.onMapSet != nil && e.dry == 0 {
			e.hooks.onMapSet(fr, d.st, in, m, ev(x.Key), ev(x.Value))
		}
		if e.hooks.markMap != nil {
			e.hooks.markMap(fr, d.st, in, m, ev(x.Key), ev(x.Value))
		}
		if e.hooks.onStore != nil && e.dry == 0 {
			e.hooks.onStore(fr, d.st, in, mk(KElem, "", 0, nil, nil, m, ev(x.Key)), ev(x.Value))
		}
		d.st.mapSet(m, ev(x.Key), ev(x.Value), x.Map.Type().Underlying().(*types.Map).Elem())
		return []*D{d}, false

	case *ssa.Range:
		return set(x, ev(x.X)), false

	case *ssa.Next:
		it := ev(x.Iter)
		k := e.visit(fr, st, in)
		tp := x.Type().(*types.Tuple)
		n1 := d.clone()
		if x.IsString {
			iv := I(Sym("next.i:"+k, lenType))
			n1.st.learn(Ge0(iv))
			n1.st.learn(Lt(iv, seqLen(asSeq(it))))
			n1.env[x] = mk(KTuple, "", 0, nil, nil, TTrue, iv, opaqueValue(Sym("next.r:"+k, tp.At(2).Type()), tp.At(2).Type()))
			out = append(out, n1)
		} else {
			mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
			if !n1.st.never(Ge0(AddC(n1.st.mapLen(it), -1))) {
				key := opaqueValue(Sym("key:"+k, mt.Key()), mt.Key())
				has, val := n1.st.mapGet(it, key, mt.Elem())
				if s := n1.st.with(has); s != nil {
					n1.st = s
					n1.env[x] = mk(KTuple, "", 0, nil, nil, TTrue, key, val)
					if e.hooks.onNext != nil {
						e.hooks.onNext(fr, n1.st, it, key)
					}
					if e.elemFacts(n1, it, val) {
						out = append(out, n1)
					}
				}
			}
		}
		n2 := d.clone()
		z := func(i int) *Term {
			t := tp.At(i).Type()
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return TNil
			}
			return zeroValue(t)
		}
		n2.env[x] = mk(KTuple, "", 0, nil, nil, TFalse, z(1), z(2))
		if e.hooks.onNext != nil && !x.IsString {
			e.hooks.onNext(fr, n2.st, it, nil)
		}
		out = append(out, n2)
		return out, false

	case *ssa.Panic:
		v := ev(x.X)
		if fr.rec(in) && e.hooks.exploreP {
			e.panicOut(fr, d, in, v, p)
		} else if !fr.rec(in) && e.hooks.panicOp != nil && e.dry == 0 {
			e.hooks.panicOp(fr, d, in, "explicit panic is reachable", true)
		}
		return nil, true

	case *ssa.Return:
		var vals []*Term
		for _, r := range x.Results {
			vals = append(vals, ev(r))
		}
		if e.hooks.onReturn != nil && e.dry == 0 {
			e.hooks.onReturn(fr, st, vals)
		}
		p.outs = append(p.outs, Outcome{st: st, vals: vals})
		return nil, true

	case *ssa.Select:
		return e.selectStmt(fr, d, x), false

	case *ssa.Send:
		d = d.clone()
		if e.hooks.onSend != nil && e.dry == 0 {
			e.hooks.onSend(fr, d.st, in, ev(x.Chan), ev(x.X))
		}
		if e.hooks.comm != nil {
			e.hooks.comm(&Comm{e: e, fr: fr, st: d.st, in: in, kind: "send", ct: x.Chan.Type().Underlying().(*types.Chan).Elem(), ch: d.st.f.find(ev(x.Chan)), v: ev(x.X), plain: true, blocks: true})
		}
		return []*D{d}, false

	case *ssa.Slice:
		return e.sliceOp(fr, d, x, p)

	case *ssa.SliceToArrayPointer:
		base, _, l, _ := parts(st.f.find(ev(x.X)))
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		d = e.guard(fr, d, in, "slice to array conversion", Le(IntC(n), l), p)
		if d == nil {
			return nil, true
		}
		d.env[x] = base
		return []*D{d}, false

	case *ssa.Store:
		a := ev(x.Addr)
		d = e.nilCheck(fr, d, in, a, "nil pointer dereference", p)
		if d == nil {
			return nil, true
		}
		d = d.clone()
		v := ev(x.Val)
		if e.hooks.markStore != nil {
			e.hooks.markStore(fr, d.st, in, a, v)
		}
		if e.hooks.onStore != nil && e.dry == 0 {
			e.hooks.onStore(fr, d.st, in, a, v)
		}
		d.st.store(d.st.canonAddr(a), v, x.Val.Type())
		return []*D{d}, false

	case *ssa.TypeAssert:
		return e.typeAssert(fr, d, x, p)
	}
	panic(undecided{fmt.Sprintf("unsupported instruction %T in %s", in, fr.fn)})
}

// clearObj forgets earlier cells of an object that is allocated (again).
func (e *Exec) clearObj(st *State, t *Term) {
	for k := range st.mem {
		if rootOf(k) == t {
			delete(st.mem, k)
		} else if k.k == KApp && len(k.args) > 0 && k.args[0] == t {
			delete(st.mem, k)
		}
	}
	delete(st.ep, "O:"+strconv.FormatInt(t.n, 10))
	delete(st.ep, "B:"+strconv.Itoa(t.id))
	delete(st.ep, "M:"+strconv.Itoa(t.id))
}

func (s *State) canonAddr(a *Term) *Term { return a }

func cloneEnv(m map[ssa.Value]*Term) map[ssa.Value]*Term {
	n := make(map[ssa.Value]*Term, len(m)+2)
	for k, v := range m {
		n[k] = v
	}
	return n
}

// dedupe merges result states of a call that are indistinguishable.
func (e *Exec) dedupe(fr *Frame, in ssa.Instruction, ds []*D) []*D {
	if len(ds) <= 1 {
		return ds
	}
	live := e.pg.info(fr.fn).liveAfter(in)
	var res []*D
	for _, d := range ds {
		m := false
		for i, r := range res {
			if sameLive(r, d, live) && sameMem(r.st, d.st) && (!e.paths || sameLog(r.st, d.st)) {
				n := &D{st: joinFacts(r.st, d.st), env: r.env, defers: r.defers}
				res[i] = n
				m = true
				break
			}
		}
		if !m {
			res = append(res, d)
		}
	}
	if len(res) > e.sc*2 {
		res = e.widen(fr, in.Block(), res, live)
	}
	return res
}

// nilCheck reports a dereference of a pointer that is nil on this path.
func (e *Exec) nilCheck(fr *Frame, d *D, in ssa.Instruction, a *Term, what string, p *pending) *D {
	if d.st.isNil(a) {
		if fr.rec(in) && e.hooks.exploreP {
			e.panicOut(fr, d, in, App("newerr", nil, mkLit("runtime:nil")), p)
		} else if !fr.rec(in) && e.hooks.panicOp != nil && e.dry == 0 {
			e.hooks.panicOp(fr, d, in, what, true)
		}
		return nil
	}
	if e.hooks.safeOp != nil && e.dry == 0 {
		e.hooks.safeOp(fr, in, what)
	}
	return d
}

func (e *Exec) bounds(fr *Frame, d *D, in ssa.Instruction, idx, l *Term, p *pending) *D {
	d = e.guard(fr, d, in, "index below zero", Ge0(idx), p)
	if d == nil {
		return nil
	}
	d = e.guard(fr, d, in, "index out of range", Lt(idx, l), p)
	if d == nil {
		return nil
	}
	return d.own()
}

// own makes the environment safe to modify in place.
func (d *D) own() *D { return d }

// loadChecked loads and adds what is known about elements of collections.
func (e *Exec) loadChecked(fr *Frame, d *D, a *Term, t types.Type) *Term {
	v := d.st.load(a, t)
	if a.k == KElem {
		e.elemFacts(d, a.args[0], v)
	} else if el, _ := elemAncestor(a); el != nil {
		e.elemFacts(d, el.args[0], v)
	}
	if el, _ := elemAncestor(a); el != nil && len(e.elemPreds) > 0 {
		for _, n := range e.elemPreds {
			if d.st.f.truth[okElems(n, el.args[0])] {
				e.elemLearn(d.st, n, v, t, a)
			}
		}
	}
	return v
}

// elemFacts: collections all of whose elements were non-nil when added.
func (e *Exec) elemFacts(d *D, coll, v *Term) bool {
	if v.k == KLoad || v.k == KApp || v.k == KSym {
		if d.st.f.truth[App("elems:nonnil", nil, coll)] {
			st := d.st.with(Not(EqT(v, TNil)))
			if st == nil {
				return false
			}
			d.st = st
		}
	}
	return true
}

func (e *Exec) selectStmt(fr *Frame, d *D, x *ssa.Select) []*D {
	var out []*D
	tp := x.Type().(*types.Tuple)
	k := e.visit(fr, d.st, x)
	mkd := func(idx int, ok *Term) *D {
		n := d.clone()
		vals := []*Term{IntC(int64(idx)), ok}
		j := 2
		for i, s := range x.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			t := tp.At(j).Type()
			if i == idx {
				vals = append(vals, opaqueValue(Sym(fmt.Sprintf("recv:%s.%d", k, i), t), t))
			} else {
				vals = append(vals, zeroValue(t))
			}
			j++
		}
		n.env[x] = mk(KTuple, "", 0, nil, nil, vals...)
		return n
	}
	var recvs []*Term
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			recvs = append(recvs, d.st.f.find(evalIn(d, s.Chan)))
		}
	}
	comm := func(n *D, kind string, ct types.Type, ch, v *Term) {
		if e.hooks.comm != nil {
			e.hooks.comm(&Comm{e: e, fr: fr, st: n.st, in: x, kind: kind, ct: ct, ch: ch, v: v, blocks: x.Blocking, recvs: recvs})
		}
	}
	for i, s := range x.States {
		ok := TTrue
		if s.Dir == types.RecvOnly {
			ok = Sym(fmt.Sprintf("recvok:%s.%d", k, i), types.Typ[types.Bool])
		}
		n := mkd(i, ok)
		if s.Dir == types.RecvOnly && e.hooks.markRecv != nil {
			e.hooks.markRecv(fr, n.st, x, evalIn(d, s.Chan))
		}
		if s.Dir == types.SendOnly {
			comm(n, "send", s.Chan.Type().Underlying().(*types.Chan).Elem(), n.st.f.find(evalIn(d, s.Chan)), evalIn(d, s.Send))
		} else {
			t := s.Chan.Type().Underlying().(*types.Chan).Elem()
			comm(n, "recv", t, n.st.f.find(evalIn(d, s.Chan)), opaqueValue(Sym(fmt.Sprintf("recv:%s.%d", k, i), t), t))
		}
		if e.dry == 0 {
			if e.hooks.onSelect != nil {
				e.hooks.onSelect(fr, n.st, x, i)
			}
			if s.Dir == types.SendOnly && e.hooks.onSend != nil {
				e.hooks.onSend(fr, n.st, x, evalIn(d, s.Chan), evalIn(d, s.Send))
			}
			if s.Dir == types.RecvOnly && e.hooks.onRecv != nil {
				e.hooks.onRecv(fr, n.st, x, evalIn(d, s.Chan))
			}
		}
		out = append(out, n)
	}
	if !x.Blocking {
		n := mkd(-1, TFalse)
		if e.hooks.onSelect != nil && e.dry == 0 {
			e.hooks.onSelect(fr, n.st, x, -1)
		}
		comm(n, "default", nil, nil, nil)
		out = append(out, n)
	}
	return out
}

func (e *Exec) sliceOp(fr *Frame, d *D, x *ssa.Slice, p *pending) ([]*D, bool) {
	v := evalIn(d, x.X)
	lo := IntC(0)
	if x.Low != nil {
		lo = I(evalIn(d, x.Low))
	}
	if isString(x.X.Type()) {
		s := d.st.strSeq(v)
		l := seqLen(s)
		hi := l
		if x.High != nil {
			hi = I(evalIn(d, x.High))
			d = e.guard(fr, d, x, "slice bounds", Le(hi, l), p)
			if d == nil {
				return nil, true
			}
		}
		d = e.guard(fr, d, x, "slice bounds", Ge0(lo), p)
		if d == nil {
			return nil, true
		}
		d = e.guard(fr, d, x, "slice bounds", Le(lo, hi), p)
		if d == nil {
			return nil, true
		}
		r := seqSlice(d.st.f, s, lo, Sub(hi, lo))
		if r == nil {
			r = Seq(mkSub(App("cut", nil, s, lo, Sub(hi, lo)), IntC(0), Sub(hi, lo)))
		}
		d.env[x] = r
		return []*D{d}, false
	}
	var base, off, ln, cp *Term
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		base, off, ln, cp = parts(d.st.f.find(v))
	case *types.Pointer:
		d = e.nilCheck(fr, d, x, v, "nil pointer dereference", p)
		if d == nil {
			return nil, true
		}
		n := IntC(u.Elem().Underlying().(*types.Array).Len())
		if k, ok := byteArray(u.Elem()); ok {
			arrLen[v] = k
		}
		base, off, ln, cp = v, IntC(0), n, n
	}
	hi := ln
	mx := cp
	if x.Max != nil {
		mx = I(evalIn(d, x.Max))
		d = e.guard(fr, d, x, "slice bounds", Le(mx, cp), p)
		if d == nil {
			return nil, true
		}
	}
	if x.High != nil {
		hi = I(evalIn(d, x.High))
		// hi <= len implies hi <= cap
		if !(mx == cp && d.st.holds(Le(hi, ln))) {
			d = e.guard(fr, d, x, "slice bounds", Le(hi, mx), p)
			if d == nil {
				return nil, true
			}
		} else if e.hooks.safeOp != nil && e.dry == 0 {
			e.hooks.safeOp(fr, x, "slice bounds")
		}
	}
	d = e.guard(fr, d, x, "slice bounds", Ge0(lo), p)
	if d == nil {
		return nil, true
	}
	d = e.guard(fr, d, x, "slice bounds", Le(lo, hi), p)
	if d == nil {
		return nil, true
	}
	if base.k == KNil {
		d.env[x] = TNil
		return []*D{d}, false
	}
	d.env[x] = mkSlice(base, Add(off, lo), Sub(hi, lo), Sub(mx, lo))
	return []*D{d}, false
}

// isType is the predicate "the dynamic type of x is / implements T".
func (e *Exec) isType(st *State, x *Term, t types.Type) *Term {
	x = st.f.find(x)
	iface, isIface := t.Underlying().(*types.Interface)
	if x.k == KNil {
		return TFalse
	}
	if x.k == KIface {
		if isIface {
			return Bool(types.Implements(x.typ, iface))
		}
		return Bool(types.Identical(x.typ, t))
	}
	if isIface && iface.NumMethods() == 0 {
		return Not(EqT(x, TNil))
	}
	key := "is:" + shortType(t)
	if !isIface {
		// at most one concrete type
		for k, v := range st.f.truth {
			if v && k.k == KApp && len(k.args) == 1 && k.args[0] == x && strings.HasPrefix(k.s, "is:") && k.n == 1 && k.s != key {
				return TFalse
			}
		}
		return mk(KApp, key, 1, types.Typ[types.Bool], nil, x)
	}
	return mk(KApp, key, 0, types.Typ[types.Bool], nil, x)
}

func (e *Exec) payload(st *State, x *Term, t types.Type) *Term {
	x = st.f.find(x)
	if x.k == KIface {
		return x.args[0]
	}
	return opaqueValue(App("as:"+shortType(t), t, x), t)
}

func (e *Exec) typeAssert(fr *Frame, d *D, x *ssa.TypeAssert, p *pending) ([]*D, bool) {
	v := evalIn(d, x.X)
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	is := e.isType(d.st, v, x.AssertedType)
	val := func(st *State) *Term {
		if toIface {
			return v
		}
		return e.payload(st, v, x.AssertedType)
	}
	if !x.CommaOk {
		d = e.guard(fr, d, x, "type assertion", is, p)
		if d == nil {
			return nil, true
		}
		d.env[x] = val(d.st)
		return []*D{d}, false
	}
	var out []*D
	if t := d.st.with(is); t != nil {
		n := &D{st: t, env: cloneEnv(d.env), defers: d.defers}
		n.env[x] = mk(KTuple, "", 0, nil, nil, val(t), TTrue)
		out = append(out, n)
	}
	if f := d.st.with(Not(is)); f != nil {
		n := &D{st: f, env: cloneEnv(d.env), defers: d.defers}
		n.env[x] = mk(KTuple, "", 0, nil, nil, zeroValue(x.AssertedType), TFalse)
		out = append(out, n)
	}
	return out, len(out) == 0
}

// GOTOR_TRACE=1 tells, every few seconds, where the interpreter is.
var (
	traceOn = os.Getenv("GOTOR_TRACE") != ""
	traceAt []string
	traceN  = map[string]int{}
)

func init() {
	if traceOn {
		go func() {
			for {
				time.Sleep(3 * time.Second)
				fmt.Fprintln(os.Stderr, "TRACE", strings.Join(traceAt, " > "))
				for k, v := range traceN {
					if v > 50 {
						fmt.Fprintln(os.Stderr, "   ", v, k)
					}
				}
			}
		}()
	}
}

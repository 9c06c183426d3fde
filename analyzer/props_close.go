package main

// What is opened is closed: files, connections, listeners, response bodies
// and tickers on every way out of the functions that obtain them.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// obtains: the calls that obtain something that has to be given back, with
// what kind of thing it is.
var obtains = map[string]string{
	"os.Open": "file", "os.OpenFile": "file", "os.Create": "file", "os.CreateTemp": "file", "io/ioutil.TempFile": "file",
	"net.Dial": "connection", "net.DialTimeout": "connection", "net.DialTCP": "connection",
	"(*net.Dialer).Dial": "connection", "(*net.Dialer).DialContext": "connection",
	"net.Listen": "listener", "net.ListenTCP": "listener",
	"(net.Listener).Accept": "connection", "(*net.TCPListener).Accept": "connection", "(*net.TCPListener).AcceptTCP": "connection",
	"(*net/http.Client).Do": "response body", "(*net/http.Client).Get": "response body", "(*net/http.Client).Post": "response body",
	"net/http.Get": "response body", "net/http.Post": "response body",
	"time.NewTicker": "ticker",
}

var givesBack = []string{
	"(net.Conn).Close", "(io.Closer).Close", "(io.ReadCloser).Close", "(io.WriteCloser).Close", "(io.ReadWriteCloser).Close",
	"(*os.File).Close", "(*net.TCPConn).Close", "(*net.conn).Close", "(net.Listener).Close", "(*net.TCPListener).Close", "(*time.Ticker).Stop",
}

// harmless: what may still be asked of something that is closed.
var harmless = map[string]bool{"Close": true, "Stop": true, "Name": true, "RemoteAddr": true, "LocalAddr": true, "Addr": true, "String": true}

type opening struct {
	key  string // of the state
	kind string
	pos  string
	cell *Term // what it is
	own  *Term // the object that keeps it
	typ  types.Type
	tag  int
}

// deposit: what a function leaves open in one of its arguments.
type deposit struct {
	arg     int
	ok, bad bool
}

type closing struct {
	c        *Ctx
	closers  map[string]bool // methods that close everything their object keeps
	relevant map[*ssa.Function]bool
	deps     map[*ssa.Function][]deposit
	tags     map[string]*opening
	order    []*opening
	todo     []*ssa.Function
	seen     map[*ssa.Function]bool
	gos      []*goSite
	goTag    map[string]int
	owners   map[string]bool // types that keep what is opened
	sites    map[string]bool
}

type goSite struct {
	k     *Call
	st    *State
	done  bool
	frees map[int]bool // what it closes, whatever happens
	text  string
}

func testing(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return true
	}
	for _, p := range f.Pkg.Pkg.Imports() {
		if p.Path() == "testing" {
			return true
		}
	}
	return false
}

// obtained lists the calls of a function that obtain something.
func obtained(f *ssa.Function) (r []string) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && obtains[callName(ci)] != "" {
				r = append(r, callName(ci))
			}
		}
	}
	return
}

func isBack(n string) bool {
	for _, b := range givesBack {
		if n == b {
			return true
		}
	}
	return false
}

func runC19(c *Ctx) {
	cl := &closing{c: c, closers: map[string]bool{}, relevant: map[*ssa.Function]bool{}, deps: map[*ssa.Function][]deposit{},
		tags: map[string]*opening{}, seen: map[*ssa.Function]bool{}, goTag: map[string]int{}, owners: map[string]bool{}, sites: map[string]bool{}}
	direct := map[*ssa.Function]bool{}
	var all []*ssa.Function
	for _, f := range c.pg.allFns {
		if c.pg.isRepo(f) && len(f.Blocks) > 0 && !testing(f) {
			all = append(all, f)
		}
	}
	for _, f := range all {
		if len(obtained(f)) > 0 {
			direct[f] = true
			cl.todo = append(cl.todo, f)
		}
	}
	for _, f := range all {
		rel := false
		for g := range c.pg.reachable(nil, f) {
			if direct[g] {
				rel = true
			}
			_, cs := c.pg.callees(g)
			for _, ci := range cs {
				rel = rel || isBack(callName(ci))
			}
		}
		for _, p := range f.Params {
			rel = rel || resourceType(p.Type())
		}
		cl.relevant[f] = rel
	}
	c.check(len(direct) >= 6, "opened:sites", "", "the functions that open something are found", fmt.Sprint(len(direct)))
	for len(cl.todo) > 0 {
		f := cl.todo[0]
		cl.todo = cl.todo[1:]
		if cl.seen[f] || testing(f) || f.Pkg != nil && f.Pkg.Pkg.Name() == "main" {
			continue
		}
		cl.seen[f] = true
		cl.root(f, all)
	}
}

// resourceType: a value of the type may be something that has to be given back.
func resourceType(t types.Type) bool {
	switch t.String() {
	case "*os.File", "net.Conn", "net.Listener", "*net.TCPConn", "*net.TCPListener", "io.Closer", "io.ReadCloser", "*time.Ticker", "*net/http.Response":
		return true
	}
	return false
}

// reaches: the value leads to what is looked for.
func reaches(st *State, vals []*Term, what *Term) bool {
	what = st.f.find(what)
	seen := map[*Term]bool{}
	var todo []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t == nil {
			return
		}
		t = st.f.find(t)
		if seen[t] {
			return
		}
		seen[t] = true
		todo = append(todo, t)
		if t.k == KApp && t.s == "newerr" {
			return
		}
		for _, a := range t.args {
			add(a)
		}
	}
	for _, v := range vals {
		add(v)
	}
	for len(todo) > 0 {
		t := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if t == what {
			return true
		}
		if t.k != KPtr && t.k != KSym && t.k != KElem && t.k != KFld {
			continue
		}
		for a, v := range st.mem {
			if !isPG(a) && (rootOf(a) == t || a.k == KFld && a.args[0] == t) {
				add(v)
			}
		}
	}
	return false
}

// hold describes what is obtained at one place.
func (cl *closing) hold(id, kind, pos string, typ types.Type) *opening {
	h := cl.tags[id]
	if h == nil {
		n := len(cl.order)
		h = &opening{key: fmt.Sprintf("open:%d", n), kind: kind, pos: pos, tag: n, typ: typ,
			cell: pg(fmt.Sprintf("open%d", n), typ), own: pg(fmt.Sprintf("keeper%d", n), types.NewPointer(types.NewStruct(nil, nil)))}
		cl.tags[id] = h
		cl.order = append(cl.order, h)
	}
	return h
}

func framePath(k *Call) string { return k.fr.path + ">" + k.e.pg.instrID(k.instr) }

// hooks installs what follows the things that are opened.
func (cl *closing) hooks(e *Exec) {
	c := cl.c
	h := map[string]func(k *Call) ([]Res, bool){}
	e.hooks.call = h
	const isOpen, isClosed = 1, 2
	lost := func(st *State, x *opening, pos, text string) {
		if e.dry > 0 {
			return
		}
		c.check(false, "lost:"+x.kind+"@"+x.pos, pos, "a "+x.kind+" is closed before another takes its place", text)
	}
	for n, kind := range obtains {
		kind := kind
		h[n] = func(k *Call) ([]Res, bool) {
			if kind == "ticker" {
				if rs, ok := k.need("ticker interval must be positive", Ge0(AddC(I(k.args[0]), -1))); !ok {
					return rs, true
				}
			}
			good, bad := k.st.clone(), k.st.clone()
			x := cl.hold(framePath(k), kind, k.pos(), k.sig.Results().At(0).Type())
			v := Sym("own:opened:"+k.site, x.typ)
			good.learn(notNil(v))
			if e.dry == 0 {
				cl.sites[k.pos()] = true
			}
			if good.ghost[x.key] == IntC(isOpen) && !cl.handed(good, x) {
				lost(good, x, k.pos(), factsText(good))
			}
			delete(good.ghost, x.key+":go")
			good.ghost[x.key] = IntC(isOpen)
			if kind == "response body" {
				good.mem[x.cell] = good.field(x.typ.Underlying().(*types.Pointer).Elem(), v, "Body")
				good.learn(notNil(good.mem[x.cell]))
			} else {
				good.mem[x.cell] = v
			}
			if k.sig.Results().Len() == 1 {
				return []Res{{st: good, vals: []*Term{v}}}, true
			}
			return []Res{{st: good, vals: []*Term{v, TNil}}, {st: bad, vals: []*Term{TNil, k.newErr("open")}}}, true
		}
	}
	release := func(st *State, v *Term) {
		v = st.f.find(v)
		for _, x := range cl.order {
			if st.ghost[x.key] != nil && st.mem[x.cell] != nil && st.f.find(st.mem[x.cell]) == v {
				st.ghost[x.key] = IntC(isClosed)
				delete(st.ghost, x.key+":go")
			}
		}
	}
	for _, n := range givesBack {
		h[n] = func(k *Call) ([]Res, bool) {
			release(k.st, k.args[0])
			if k.sig.Results().Len() == 0 {
				return k.ret(), true
			}
			return okErr0(k), true
		}
	}
	exist := func(arg int) func(k *Call) ([]Res, bool) {
		return func(k *Call) ([]Res, bool) {
			if k.st.isNil(k.args[arg]) {
				return k.ret(TFalse), true
			}
			yes, no := k.st.clone(), k.st.clone()
			rs := []Res{{st: no, vals: []*Term{TFalse}}}
			if yes.learn(notNil(k.args[arg])) {
				rs = append(rs, Res{st: yes, vals: []*Term{TTrue}})
			}
			return rs, true
		}
	}
	h["os.IsNotExist"], h["os.IsExist"], h["os.IsPermission"] = exist(0), exist(0), exist(0)
	h["errors.Is"] = exist(0)
	// what has nothing to do with it
	summary := func(k *Call) ([]Res, bool) {
		rt := resultTypes(k.sig)
		vals := func(st *State, fail bool) (vs []*Term) {
			for i, t := range rt {
				switch {
				case fail && isErrorType(t):
					vs = append(vs, k.newErr("fail"))
				case isErrorType(t):
					vs = append(vs, TNil)
				case fail:
					vs = append(vs, zeroValue(t))
				default:
					v := k.fresh(fmt.Sprintf("made%d", i), t)
					if _, ok := t.Underlying().(*types.Pointer); ok {
						st.learn(notNil(v))
					}
					vs = append(vs, v)
				}
			}
			return
		}
		good := k.st.clone()
		rs := []Res{{st: good, vals: vals(good, false)}}
		if n := len(rt); n > 0 && isErrorType(rt[n-1]) {
			bad := k.st.clone()
			rs = append(rs, Res{st: bad, vals: vals(bad, true)})
		}
		return rs, true
	}
	for f, rel := range cl.relevant {
		f := f
		if ds := cl.deps[f]; len(ds) > 0 {
			h[fnName(f)] = func(k *Call) ([]Res, bool) {
				rs, _ := summary(k)
				for i, r := range rs {
					for _, d := range ds {
						if i == 0 && d.ok || i == 1 && d.bad {
							x := cl.hold(framePath(k)+"#"+fmt.Sprint(d.arg), "file kept by "+shortType(f.Params[d.arg].Type()), k.pos(), f.Params[d.arg].Type())
							r.st.ghost[x.key+":kept"] = TTrue
							r.st.mem[x.own] = r.st.f.find(k.args[d.arg])
						}
					}
				}
				return rs, true
			}
			continue
		}
		if cl.closers[fnName(f)] {
			h[fnName(f)] = func(k *Call) ([]Res, bool) {
				rs, _ := summary(k)
				for _, r := range rs {
					for _, x := range cl.order {
						if r.st.ghost[x.key+":kept"] != nil && reaches(r.st, []*Term{k.args[0]}, r.st.mem[x.own]) {
							delete(r.st.ghost, x.key+":kept")
						}
					}
				}
				return rs, true
			}
			continue
		}
		if !rel && cl.c.hasLoops(f) {
			h[fnName(f)] = summary
		}
	}
	// what is stored where others see it
	keep := func(st *State, into, v *Term, elem bool) {
		for _, x := range cl.order {
			if st.ghost[x.key] != IntC(isOpen) || !reaches(st, []*Term{v}, st.mem[x.cell]) {
				continue
			}
			root := rootOf(into)
			if !elem && isFresh(root) && x.kind != "ticker" {
				continue // a field of an object that is not known to others yet
			}
			delete(st.ghost, x.key)
			if x.kind != "ticker" {
				st.ghost[x.key+":kept"] = TTrue
				st.mem[x.own] = root
			}
		}
	}
	e.hooks.markStore = func(fr *Frame, st *State, in ssa.Instruction, addr, v *Term) {
		a := addr
		elem := false
		for a.k == KFld || a.k == KElem {
			elem = elem || a.k == KElem
			a = a.args[0]
		}
		if a.k == KPtr && objs[a.n].kind == "local" {
			return
		}
		if st0, ok := in.(*ssa.Store); ok {
			if _, ok := st0.Addr.(*ssa.Alloc); ok {
				return // a variable
			}
			if _, ok := st0.Addr.(*ssa.FreeVar); ok && isFresh(a) {
				return
			}
		}
		keep(st, addr, v, elem)
	}
	e.hooks.markMap = func(fr *Frame, st *State, in ssa.Instruction, m, k, v *Term) {
		if v != nil {
			keep(st, m, v, true)
		}
	}
	e.hooks.markAppend = func(fr *Frame, st *State, in ssa.Instruction, s *Term, elems []*Term) {
		for _, v := range elems {
			keep(st, s, v, true)
		}
	}
	e.hooks.comm = func(k *Comm) {
		if k.kind == "send" && k.v != nil {
			keep(k.st, k.ch, k.v, true)
		}
	}
	e.hooks.markGo = func(k *Call) {
		for _, x := range cl.order {
			if k.st.ghost[x.key] == IntC(isOpen) && reaches(k.st, k.args, k.st.mem[x.cell]) {
				id := framePath(k)
				n, ok := cl.goTag[id]
				if !ok {
					n = len(cl.gos)
					cl.goTag[id] = n
					cl.gos = append(cl.gos, &goSite{})
				}
				// the last one that is started with it
				k.st.ghost[x.key+":go"] = IntC(int64(n))
				g := cl.gos[n]
				if e.dry == 0 && !g.done {
					kk := *k
					g.k, g.st = &kk, k.st.clone()
				}
			}
		}
	}
	e.hooks.anyCall = func(k *Call) {
		if k.fn != nil && c.pg.isRepo(k.fn) || k.isGo {
			return
		}
		m := k.name[strings.LastIndex(k.name, ".")+1:]
		if harmless[m] {
			return
		}
		for _, a := range k.args {
			a = k.st.f.find(a)
			if a.k == KIface {
				a = k.st.f.find(a.args[0])
			}
			for _, x := range cl.order {
				if k.st.ghost[x.key] == IntC(isClosed) && k.st.f.find(k.st.mem[x.cell]) == a {
					c.check(false, "closed:"+x.kind+"@"+x.pos, k.pos(), "a "+x.kind+" that is closed is not used", k.name)
				}
			}
		}
	}
}

// handed: a goroutine that was started with it closes it.
func (cl *closing) handed(st *State, x *opening) bool {
	g := st.ghost[x.key+":go"]
	if g == nil {
		return false
	}
	n, _ := g.constI64()
	s := cl.gos[n]
	if !s.done {
		cl.follow(s)
	}
	return s.frees[x.tag]
}

// follow interprets a goroutine that was started with something open.
func (cl *closing) follow(s *goSite) {
	c := cl.c
	s.done, s.frees = true, map[int]bool{}
	k := s.k
	if k == nil {
		s.done = false // it is looked at when the paths are known
		return
	}
	f := k.fn
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	var binds []*Term
	if k.args[0].k == KFn {
		binds = k.args[0].args
	}
	e := c.exec(f.RelString(nil))
	e.noFail, e.paths, e.sc, e.unrollMax = true, true, 60, 8
	e.invs = c.allInvs()
	cl.hooks(e)
	st := s.st.clone()
	for g := range st.ghost {
		if strings.HasSuffix(g, ":go") {
			delete(st.ghost, g)
		}
	}
	for _, x := range cl.order {
		if st.ghost[x.key] == IntC(1) {
			s.frees[x.tag] = true
		}
	}
	for _, o := range e.Run(st, f, k.args[1:], binds) {
		if o.panic != nil {
			continue
		}
		for _, x := range cl.order {
			if o.st.ghost[x.key] == IntC(1) && !cl.handed(o.st, x) {
				s.frees[x.tag] = false
				s.text = factsText(o.st)
			}
		}
	}
	c.done(e, "go:"+f.RelString(nil))
}

// root interprets a function that opens something, or calls one that hands
// it what it opened.
func (cl *closing) root(f *ssa.Function, all []*ssa.Function) {
	c := cl.c
	name := f.RelString(nil)
	where := c.pg.pos(f.Pos())
	c.guard("open:"+name, "what "+name+" opens", func() {
		e := c.exec(name)
		e.noFail, e.paths, e.sc, e.unrollMax = true, true, 60, 8
		e.invs = c.allInvs()
		cl.hooks(e)
		st := c.state()
		as := c.args(st, f)
		var binds []*Term
		for _, v := range f.FreeVars {
			b := Sym("bind:"+v.Name(), v.Type())
			if _, ok := v.Type().Underlying().(*types.Pointer); ok {
				st.learn(notNil(b))
			}
			binds = append(binds, b)
		}
		outs := e.Run(st, f, as, binds)
		callers, dep := false, map[int]*deposit{}
		n := 0
		for _, o := range outs {
			if o.panic != nil {
				continue
			}
			n++
			var vals []*Term
			failed := false
			for i, v := range o.vals {
				if isErrorType(f.Signature.Results().At(i).Type()) {
					failed = failed || !o.st.isNil(v)
				} else {
					vals = append(vals, v)
				}
			}
			for _, x := range cl.order {
				cell := o.st.mem[x.cell]
				switch o.st.ghost[x.key] {
				case IntC(1):
					if reaches(o.st, vals, cell) {
						callers = true
						c.ok("open:"+name, where, "what is open when "+name+" returns is handed to its caller")
						break
					}
					text := factsText(o.st)
					if g := o.st.ghost[x.key+":go"]; g != nil {
						if cl.handed(o.st, x) {
							break
						}
						i, _ := g.constI64()
						text = "the goroutine does not close it either: " + cl.gos[i].text + "\n" + text
					}
					c.check(false, "open:"+name, x.pos, "a "+x.kind+" is closed on every way out of "+name, text)
				case IntC(2):
					c.check(failed || !reaches(o.st, vals, cell), "usable:"+name, x.pos, "what "+name+" returns is not closed", factsText(o.st))
				}
				if o.st.ghost[x.key+":kept"] == nil {
					continue
				}
				own := o.st.mem[x.own]
				if isFresh(rootOf(o.st.f.find(own))) {
					if !reaches(o.st, vals, own) {
						c.check(false, "kept:"+name, x.pos, "a "+x.kind+" is closed when "+name+" drops the object that keeps it", factsText(o.st))
					} else {
						c.ok("kept:"+name, where, "what keeps open files when "+name+" returns is handed to its caller")
					}
					continue
				}
				for i, a := range as {
					if own != nil && (mentions(own, a) || mentions(o.st.f.find(own), a)) {
						if dep[i] == nil {
							dep[i] = &deposit{arg: i}
						}
						dep[i].bad = dep[i].bad || failed
						dep[i].ok = dep[i].ok || !failed
						break
					}
				}
			}
		}
		c.ok("open:"+name, where, "what "+name+" opens is closed on every way out, or handed on")
		c.done(e, "open:"+name)
		for i, d := range dep {
			callers = true
			cl.deps[f] = append(cl.deps[f], *d)
			cl.owner(f.Params[i].Type(), all)
		}
		if !callers {
			return
		}
		for _, g := range all {
			fs, _ := c.pg.callees(g)
			for _, x := range fs {
				if x == f {
					cl.todo = append(cl.todo, g)
				}
			}
		}
	})
}

// owner: something closes all that an object keeps.
func (cl *closing) owner(t types.Type, all []*ssa.Function) {
	c := cl.c
	if cl.owners[t.String()] {
		return
	}
	cl.owners[t.String()] = true
	var names []string
	for _, f := range all {
		f := f
		r := f.Signature.Recv()
		if r == nil || r.Type().String() != t.String() || len(f.Params) != 1 || !c.hasLoops(f) {
			continue
		}
		back := false
		for g := range c.pg.reachable(nil, f) {
			_, cs := c.pg.callees(g)
			for _, ci := range cs {
				back = back || isBack(callName(ci))
			}
		}
		if back {
			names = append(names, fnName(f))
			c.guard("all:"+f.Name(), "closing everything", func() { cl.closesAll(f) })
		}
	}
	c.check(len(names) > 0, "all:"+shortType(t), "", "what an object keeps open can be closed", "no method of "+t.String()+" closes everything")
}

// closesAll: every round over what an object keeps closes one, and all of
// them are visited.
func (cl *closing) closesAll(f *ssa.Function) {
	c := cl.c
	name := fnName(f)
	where := c.pg.pos(f.Pos())
	e := c.exec(name)
	e.noFail, e.paths, e.sc, e.unrollMax = true, true, 60, 8
	e.invs = c.allInvs()
	h := map[string]func(k *Call) ([]Res, bool){}
	e.hooks.call = h
	st := c.state()
	as := c.args(st, f)
	key := pg("closing", types.Typ[types.String])
	good, any := true, false
	round := func(st *State, in string) {
		if st.ghost["round"] == TTrue && e.dry == 0 {
			any = true
			good = c.check(st.ghost["shut"] == TTrue, "all:"+name, in, "each round closes what it looks at", factsText(st)) && good
		}
		delete(st.ghost, "round")
		delete(st.ghost, "shut")
	}
	e.hooks.onNext = func(fr *Frame, st *State, it, k *Term) {
		round(st, where)
		if k == nil {
			st.ghost["all"] = TTrue
			return
		}
		st.ghost["round"] = TTrue
		st.mem[key] = k
	}
	for _, n := range givesBack {
		h[n] = func(k *Call) ([]Res, bool) {
			if r := k.st.mem[key]; r != nil && (mentions(k.args[0], r) || mentions(k.st.f.find(k.args[0]), r)) {
				k.st.ghost["shut"] = TTrue
			}
			return okErr0(k), true
		}
	}
	for _, o := range e.Run(st, f, as, nil) {
		if o.panic != nil {
			continue
		}
		good = c.check(o.st.ghost["all"] == TTrue && o.st.ghost["round"] == nil, "all:"+name, where, "closing everything does not stop before everything is closed", factsText(o.st)) && good
	}
	c.done(e, "all:"+name)
	if good && any {
		cl.closers[name] = true
	}
}

func init() {
	register(&Prop{
		id: "C19", title: "Whatever is opened is closed",
		rule:   "Every function that opens something is interpreted with the thing's state (open, closed, handed on) as a ghost typestate; on each way out it must be closed, or reachable from what is returned (then the callers are interpreted), kept by an object that outlives the call and has a method that closes everything, or handed to a goroutine that closes it.",
		assume: []string{"Close and Stop release what they are called on, whatever they return"},
		min:    map[string]int{"open": 6},
		run:    runC19,
	})
}

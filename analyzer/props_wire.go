package main

// Everything a running handler sends is a series of whole messages.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// wireMsgs splits what is sent by one call into messages.
func wireMsgs(st *State, x *Term) (kinds []string, why string) {
	f := st.f
	rest := asSeq(x)
	for steps := 0; steps < 64; steps++ {
		total := seqLen(rest)
		if st.holds(EqI(total, IntC(0))) {
			return kinds, ""
		}
		v := IntC(0)
		for i := int64(0); i < 4; i++ {
			b := seqByte(f, rest, IntC(i))
			if b == nil {
				return nil, "no length field in " + rest.String()
			}
			v = Add(MulC(v, 256), b)
		}
		left := Sub(AddC(total, -4), v)
		if !st.holds(Ge0(left)) {
			return nil, fmt.Sprint("the length field says ", v, ", ", AddC(total, -4), " bytes follow")
		}
		if st.holds(EqI(v, IntC(0))) {
			kinds = append(kinds, "keep alive")
		} else {
			id := seqByte(f, rest, IntC(4))
			if id == nil {
				return nil, "no message id in " + rest.String()
			}
			n, ok := id.constI64()
			for k := int64(0); k <= 8 && !ok; k++ {
				if st.holds(EqI(id, IntC(k))) {
					n, ok = k, true
				}
			}
			if !ok {
				return nil, "the message id is " + id.String()
			}
			fixed := map[int64]int64{0: 1, 1: 1, 2: 1, 3: 1, 4: 5, 6: 13, 8: 13}
			least := map[int64]int64{5: 1, 7: 9}
			switch {
			case fixed[n] > 0:
				if !st.holds(EqI(v, IntC(fixed[n]))) {
					return nil, fmt.Sprint("the length of a message with id ", n, " is ", v)
				}
			case least[n] > 0:
				if !st.holds(Le(IntC(least[n]), v)) {
					return nil, fmt.Sprint("the length of a message with id ", n, " is ", v)
				}
			default:
				return nil, fmt.Sprint("no message has the id ", n)
			}
			kinds = append(kinds, fmt.Sprint("id ", n))
		}
		if st.holds(EqI(left, IntC(0))) {
			return kinds, ""
		}
		rest = seqSlice(f, rest, AddC(v, 4), left)
		if rest == nil {
			return nil, "what follows the message is not known"
		}
	}
	return nil, "too many messages"
}

// spawn interprets what a go statement starts, on its arguments, in a state
// in which others may have changed everything that is shared.
func (c *Ctx) spawn(e *Exec, k *Call, seen map[*ssa.Function]bool) {
	if k.fn == nil || len(k.fn.Blocks) == 0 || seen[k.fn] {
		return
	}
	if !c.pg.isRepo(k.fn) {
		return
	}
	seen[k.fn] = true
	q := c.exec(k.fn.RelString(nil))
	q.noFail, q.sinkMark, q.invs, q.hooks, q.sc, q.unrollMax, q.paths, q.ppt = true, func(*State, *Term) {}, e.invs, e.hooks, e.sc, e.unrollMax, e.paths, e.ppt
	st := k.st.clone()
	st.ghost = map[string]*Term{}
	st.havocHeap("go"+k.fn.Name(), nil)
	var binds []*Term
	if callee := st.f.find(k.args[0]); callee.k == KFn {
		binds = callee.args
	}
	q.Run(st, k.fn, k.args[1:], binds)
	c.done(q, "spawn:"+k.fn.RelString(nil))
}

// handlerEntries: where other parts of the program enter a handler.
func (c *Ctx) handlerEntries() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range c.pg.allFns {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != "gotor/swarm" || f.Parent() != nil || !takesHandler(f) || len(f.Blocks) == 0 {
			continue
		}
		if o := f.Object(); o == nil || !o.Exported() {
			continue
		}
		if recv := f.Signature.Recv(); recv != nil && recv.Type().String() != "*"+tPH {
			continue
		}
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].RelString(nil) < r[j].RelString(nil) })
	return r
}

func handlerParam(f *ssa.Function, args []*Term) *Term {
	for i, p := range f.Params {
		if p.Type().String() == "*"+tPH {
			return args[i]
		}
	}
	return nil
}

func runC30(c *Ctx) {
	c.swarmInvariant()
	c.handlerInvariant()
	ents := c.handlerEntries()
	if len(ents) == 0 {
		c.fail("entries", "", "a handler can be run")
	}
	for _, f := range ents {
		f := f
		name := f.RelString(nil)
		c.guard("sent:"+name, "what "+name+" sends", func() {
			e := c.exec(name)
			e.invs = c.allInvs()
			st := c.state()
			args := c.args(st, f)
			ph := handlerParam(f, args)
			conn := st.field(c.typ(tPH), ph, "conn")
			e.ppt = func(st *State) *Term {
				return st.field(c.typ(tSwarm), st.field(c.typ(tPH), ph, "swarm"), "PPT")
			}
			e.hooks.call = map[string]func(k *Call) ([]Res, bool){}
			whole := map[*Term]bool{}
			c.encodings(e, whole)
			e.sinkMark = func(st *State, x *Term) {
				kinds, why := wireMsgs(st.clone(), x)
				if why != "" {
					kinds = []string{"other"}
				}
				for _, kd := range kinds {
					switch kd {
					case "id 0", "id 1":
						st.ghost["sent "+kd] = TTrue
					default:
						st.ghost["sent more"] = TTrue
					}
				}
			}
			c.sinks(e, func(s sent) {
				fn := lastFn(s.stack)
				_, why := wireMsgs(s.st, s.data)
				if whole[s.data] {
					why = ""
				}
				c.check(why == "", "sent-whole:"+fn, s.pos, "every write to a peer is one or more whole messages of BEP 3", why, "sent "+s.data.String(), "path "+s.stack, factsText(s.st))
				c.check(s.conn == conn || s.st.holds(EqT(s.conn, conn)), "sent-to:"+fn, s.pos, "a handler writes to its own connection", s.conn.String())
			})
			c.decodedHook(e)
			e.hooks.call["(*"+tFIO+").ReadPiece"] = readPieceContract
			c.cutSilent(e)
			e.hooks.call[fnRemove] = func(k *Call) ([]Res, bool) { return unknownLinks(k), true }
			seen := map[*ssa.Function]bool{}
			e.hooks.onGo = func(k *Call) { c.spawn(e, k, seen) }
			n := 0
			for _, o := range e.Run(st, f, args, nil) {
				if o.panic != nil {
					continue
				}
				n++
				g := o.st.ghost
				switch f.Name() {
				case "Choke":
					c.check(g["sent id 0"] != nil && g["sent id 1"] == nil && g["sent more"] == nil, "choke-sent", c.pg.pos(f.Pos()), "choking a peer sends it a choke message and nothing else")
					last := o.vals[len(o.vals)-1]
					c.check(o.st.isNil(last) == (o.st.ghost["wfail"] == nil), "choke-sent", c.pg.pos(f.Pos()), "a choke message that could not be sent is reported")
				case "Loop":
					c.check(g["sent id 1"] != nil && g["sent id 0"] == nil, "unchoke-sent", c.pg.pos(f.Pos()), "a running handler unchokes its peer")
				}
			}
			c.done(e, "sent:"+name)
		})
	}
}

// encodings collects what the messages of the protocol encode to, which C04
// decides.
func (c *Ctx) encodings(e *Exec, whole map[*Term]bool) {
	e.hooks.after = map[string]func(k *Call, rs []Res){}
	for _, f := range c.pg.allFns {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != "gotor/p2p" || f.Name() != "Encode" || f.Signature.Recv() == nil {
			continue
		}
		if strings.Contains(f.Signature.Recv().Type().String(), "msgBase") {
			continue
		}
		e.hooks.after[fnName(f)] = func(k *Call, rs []Res) {
			for _, r := range rs {
				if len(r.vals) > 0 {
					whole[r.st.clone().sliceContent(r.vals[0])] = true
				}
			}
		}
	}
}

// cutSilent leaves out what cannot write to a connection and has loops of its
// own, unless it makes messages or bytes.
func (c *Ctx) cutSilent(e *Exec) {
	for _, f := range c.pg.allFns {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == "gotor/p2p" || !c.silent(f) {
			continue
		}
		loops := false
		for g := range c.pg.reachable(nil, f) {
			loops = loops || len(naturalLoops(g)) > 0
		}
		rs := f.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			t := rs.At(i).Type()
			if _, ok := t.Underlying().(*types.Slice); ok || strings.Contains(t.String(), "gotor/p2p.") || isString(t) {
				loops = false
			}
		}
		if loops {
			e.hooks.call[fnName(f)] = func(k *Call) ([]Res, bool) { return unknownCall(k), true }
		}
	}
}

// silent: nothing that the function may call sends anything.
func (c *Ctx) silent(f *ssa.Function) bool {
	for g := range c.pg.reachable(nil, f) {
		_, cs := c.pg.callees(g)
		for _, ci := range cs {
			n := callName(ci)
			if n == "dynamic" || strings.HasPrefix(n, "(net.Conn).") || strings.HasPrefix(n, "(io.") {
				return false
			}
		}
	}
	return true
}

// decodedHook: what decoding a buffer gives, as proved by C05.
func (c *Ctx) decodedHook(e *Exec) {
	e.hooks.call["gotor/p2p.DecodeAll"] = func(k *Call) ([]Res, bool) {
		t := k.fn.Signature.Results().At(0).Type()
		v := opaqueValue(Sym("own:msgs:"+k.site, t), t)
		a := resField(k.st, v, t, "Msgs")
		k.st.learn(App("elems:nonnil", nil, a))
		if a.k == KSlice {
			k.st.learn(App("elems:nonnil", nil, a.args[0]))
		}
		return k.ret(v), true
	}
}

var _ = types.Typ

func init() {
	register(&Prop{id: "C30", title: "Handlers send nothing but whole messages",
		rule: "every exported entry of a handler and every goroutine it starts is interpreted; the bytes given to each write must parse into whole messages of BEP 3",
		run:  runC30, min: map[string]int{"sent-whole": 1, "choke-sent": 1, "unchoke-sent": 1}})
}

package main

// The options of the command line.

import (
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tOpts = "gotor/utils.Opts"

// sizeParser finds what turns the text of a size option into a number.
func (c *Ctx) sizeParser() *ssa.Function {
	var out *ssa.Function
	for f := range c.pg.reachable(nil, c.anchor("gotor/utils.GetOpts")) {
		s := f.Signature
		if !c.pg.isRepo(f) || len(f.Blocks) == 0 || s.Params().Len() != 1 || s.Results().Len() != 2 || !isString(s.Params().At(0).Type()) {
			continue
		}
		if b, ok := s.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int64 || s.Results().At(1).Type().String() != "error" {
			continue
		}
		if out != nil {
			panic(undecided{"several functions parse sizes"})
		}
		out = f
	}
	if out == nil {
		panic(undecided{"nothing parses sizes"})
	}
	return out
}

var sizeUnits = map[byte]int64{'B': 1, 'K': 1 << 10, 'M': 1 << 20, 'G': 1 << 30}

// sizes: the text of a size stands for the number that it says.
func (c *Ctx) sizes() {
	c.guard("size", "size options", func() {
		f := c.sizeParser()
		where := c.pg.pos(f.Pos())
		d := &decoding{c: c}
		d.e = c.exec(f.RelString(nil))
		c.noPanics(d.e, "panic")
		d.e.paths, d.e.sc = true, 200
		d.e.hooks.call = map[string]func(k *Call) ([]Res, bool){}
		d.st = c.state()
		d.src = Sym("D", types.Typ[types.String])
		d.n, d.c0 = I(App("len", lenType, d.src)), IntC(0)
		d.st.learn(Ge0(d.n))
		d.rules()
		// where the text is changed to upper case, what follows is about that
		arg := d.src
		_, calls := c.pg.callees(f)
		for _, in := range calls {
			if callName(in) == "strings.ToUpper" && in.Common().Args[0] == f.Params[0] {
				arg = Sym("given", types.Typ[types.String])
			}
		}
		d.e.hooks.call["strings.ToUpper"] = func(k *Call) ([]Res, bool) {
			if s := asSeq(k.args[0]); arg == d.src || !eqSeqs(k.st, s, asSeq(arg)) {
				panic(undecided{"a part of the option is changed to upper case"})
			}
			k.st.ghost["upper"] = TTrue
			return k.ret(d.src), true
		}
		good := 0
		text := "a size is digits, with at most one '-' before and one of B, K, M, G after them, and stands for the number of bytes that it says"
		for _, o := range d.e.Run(d.st, f, []*Term{arg}, nil) {
			if o.panic != nil {
				continue
			}
			st := o.st
			is := func(i *Term, b byte) bool {
				return d.is(st, i, func(x *Term) bool { return st.holds(EqI(x, IntC(int64(b)))) })
			}
			not := func(i *Term, b byte) bool {
				return d.is(st, i, func(x *Term) bool { return st.never(EqI(x, IntC(int64(b)))) })
			}
			if st.holds(EqI(d.n, IntC(0))) {
				c.check(!st.isNil(o.vals[1]), "size:form", where, text, "of no characters")
				continue
			}
			if !is(IntC(0), '-') && !not(IntC(0), '-') {
				c.fail("size:accepts", where, "every size that fits is accepted", "whether it begins with '-' was not looked at", factsText(st))
				continue
			}
			for sign := int64(0); sign < 2; sign++ {
				st := o.st
				// told apart by whether there is a sign
				if sign == 1 && !is(IntC(0), '-') || sign == 0 && !not(IntC(0), '-') {
					continue
				}
				from, digs := "from"+itoa(int(sign)), "digits"+itoa(int(sign))
				start := IntC(sign)
				num := st.ghost["number"]
				if st.isNil(o.vals[1]) {
					good++
					if num == nil {
						c.fail("size:value", where, text, "no digits are read")
						continue
					}
					v := I(App("number", types.Typ[types.Int64], num))
					end := Add(start, seqLen(num))
					if sign == 1 {
						v = Neg(v)
					}
					ok := d.from(st, num, start, from) && d.digits(st, digs, start, end)
					var unit int64
					if st.holds(EqI(end, d.n)) {
						unit = 1
					} else if st.holds(EqI(AddC(end, 1), d.n)) {
						for b, u := range sizeUnits {
							if is(end, b) {
								unit = u
							} else if st.ghost["upper"] == nil && is(end, b+'a'-'A') {
								unit = u
							}
						}
					}
					c.check(ok && unit > 0, "size:form", where, text, "digits "+num.String(), factsText(st))
					if unit > 0 {
						c.check(st.holds(EqI(I(o.vals[0]), MulC(v, unit))), "size:value", where, text, "result "+o.vals[0].String(), factsText(st))
					}
					continue
				}
				// an error: not a number, nothing, something else after the
				// digits, or more than fits
				if st.ghost["notnumber"] != nil {
					c.ok("size:accepts", where, "every size that fits is accepted")
					continue
				}
				ok := false
				nondigit := func(x *Term) bool { return st.holds(Lt(x, IntC('0'))) || st.holds(Lt(IntC('9'), x)) }
				ends := []*Term{}
				if num != nil && d.from(st, num, start, from) && d.digits(st, digs, start, Add(start, seqLen(num))) {
					ends = append(ends, Add(start, seqLen(num)))
				}
				for _, end := range ends {
					foreign := d.is(st, end, func(x *Term) bool {
						for b := range sizeUnits {
							if !st.never(EqI(x, IntC(int64(b)))) || st.ghost["upper"] == nil && !st.never(EqI(x, IntC(int64(b+'a'-'A')))) {
								return false
							}
						}
						return nondigit(x)
					})
					ok = ok || foreign || d.is(st, end, nondigit) && st.holds(Lt(AddC(end, 1), d.n))
					v := I(App("number", types.Typ[types.Int64], num))
					if sign == 1 {
						v = Neg(v)
					}
					for b, u := range sizeUnits {
						fits := st.with(Le(IntC(math.MinInt64), MulC(v, u)))
						if fits != nil {
							fits = fits.with(Le(MulC(v, u), IntC(math.MaxInt64)))
						}
						ok = ok || (is(end, b) || st.ghost["upper"] == nil && is(end, b+'a'-'A')) && fits == nil
					}
				}
				c.check(ok, "size:accepts", where, "every size that fits is accepted", factsText(st))
			}
		}
		c.check(good > 0, "size:value", where, text, "none is accepted")
		c.done(d.e, "size")
	})
}

// optionValues: the options are those that were given.
func (c *Ctx) optionValues() {
	c.guard("options", "the options", func() {
		f := c.anchor("gotor/utils.GetOpts")
		where := c.pg.pos(f.Pos())
		e := c.exec(f.RelString(nil))
		e.paths, e.sc = true, 100
		st := c.state()
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		defaults := map[string]*Term{}
		seen := map[string]*Term{}
		flagVar := func(k *Call, pt types.Type, name, def *Term, ptr *Term) *Term {
			n, ok := seqLit(asSeq(name))
			if !ok {
				panic(undecided{"an option whose name is not a constant"})
			}
			t := pt.Underlying().(*types.Pointer).Elem()
			v := opaqueValue(Sym("flag:"+n, t), t)
			if ptr == nil {
				ptr = newObj("flag:"+n, &objInfo{typ: t, kind: "var"})
			}
			k.st.store(ptr, v, t)
			defaults[n], seen[n] = def, v
			return ptr
		}
		for _, t := range []string{"String", "Uint", "Int", "Uint64", "Int64", "Bool"} {
			h["flag."+t] = func(k *Call) ([]Res, bool) {
				return k.ret(flagVar(k, k.sig.Results().At(0).Type(), k.args[0], k.args[1], nil)), true
			}
			h["flag."+t+"Var"] = func(k *Call) ([]Res, bool) {
				flagVar(k, k.sig.Params().At(0).Type(), k.args[1], k.args[2], k.args[0])
				return k.ret(), true
			}
		}
		h["flag.Parse"] = func(k *Call) ([]Res, bool) {
			k.st.ghost["parsed"] = TTrue
			return k.ret(), true
		}
		parser := c.sizeParser()
		size := func(s *Term) *Term { return I(App("size", types.Typ[types.Int64], asSeq(s))) }
		h[fnName(parser)] = func(k *Call) ([]Res, bool) {
			if e.dry == 0 {
				c.check(k.st.ghost["parsed"] != nil, "options:parsed", k.pos(), "the options are looked at after they were read")
			}
			return []Res{{st: k.st.clone(), vals: []*Term{size(k.st.strSeq(k.args[0])), TNil}}, {st: k.st.clone(), vals: []*Term{IntC(0), k.newErr("size")}}}, true
		}
		n := 0
		text := "the options are those that were given on the command line"
		for _, o := range e.Run(st, f, nil, nil) {
			if o.panic != nil || o.st.ghost["parsed"] == nil { // they were read before
				continue
			}
			n++
			s := o.st
			get := func(name string) *Term { return e.getter(s, o.vals[0], "(*"+tOpts+")."+name) }
			str := func(m, fl string) {
				v := seen[fl]
				c.check(v != nil && eqSeqs(s, s.strSeq(get(m)), s.strSeq(v)), "options:"+m, where, text, m+" is "+get(m).String(), factsText(s))
			}
			str("Input", "i")
			str("WorkingDir", "w")
			str("Cmd", "cmd")
			for m, fl := range map[string]string{"UpLimit": "u", "DnLimit": "d"} {
				v := seen[fl]
				c.check(v != nil && s.holds(EqI(I(get(m)), size(s.strSeq(v)))), "options:"+m, where, text, m+" is "+get(m).String(), factsText(s))
			}
			if p := seen["p"]; c.check(p != nil, "options:Port", where, text, "there is no option for the port") {
				c.check(s.holds(EqI(I(get("Port")), I(p))), "options:Port", where, text, "Port is "+get("Port").String(), factsText(s))
			}
			c.check(s.never(EqT(get("Input"), mkLit(""))) || s.holds(Le(IntC(1), s.lenOf(get("Input"), types.Typ[types.String]))), "options:input", where, "a torrent file must be given", factsText(s))
			known := false
			for _, cmd := range []string{"swarm", "info"} {
				known = known || eqSeqs(s, s.strSeq(get("Cmd")), mkSeqLit(cmd)) || s.holds(EqT(get("Cmd"), mkSeqLit(cmd)))
			}
			c.check(known, "options:cmd", where, "a command that does not exist is refused", get("Cmd").String(), factsText(s))
			// the next one who asks gets the same
			for _, o2 := range e.Run(s, f, nil, nil) {
				c.check(o2.panic == nil && o2.st.f.find(o2.vals[0]) == o.st.f.find(o.vals[0]), "options:same", where, "the options are read once")
			}
		}
		c.check(n > 0, "options:parsed", where, "the options are looked at after they were read", "there are none")
		c.done(e, "options")
		for _, fl := range []string{"u", "d"} {
			s := ""
			if defaults[fl] != nil {
				s, _ = seqLit(asSeq(defaults[fl]))
			}
			c.check(strings.HasPrefix(s, "-") && len(s) > 1, "options:default:"+fl, where, "without an option there is no limit", s)
		}
	})
}

// commands: each command does what it says.
func (c *Ctx) commands() {
	c.guard("commands", "the commands", func() {
		f := c.anchor("gotor.main")
		where := c.pg.pos(f.Pos())
		for _, cmd := range []string{"swarm", "info"} {
			e := c.exec(f.RelString(nil))
			st := c.state()
			h := map[string]func(k *Call) ([]Res, bool){}
			e.hooks.call = h
			h["gotor/utils.GetOpts"] = c.fresh(tOpts)
			opt := map[string]*Term{}
			for _, m := range []string{"Input", "WorkingDir", "Cmd"} {
				m := m
				opt[m] = Sym("own:"+m, types.Typ[types.String])
				if m == "Cmd" {
					opt[m] = mkSeqLit(cmd)
				}
				h["(*"+tOpts+")."+m] = func(k *Call) ([]Res, bool) { return k.ret(opt[m]), true }
			}
			done := map[string]int{}
			h["gotor/swarm.NewSwarm"] = func(k *Call) ([]Res, bool) {
				if e.dry == 0 {
					c.check(mentions(k.st.f.find(k.args[0]), Sym("own:"+tOpts, types.NewPointer(c.typ(tOpts)))), "commands:options", k.pos(), "the swarm is that of the options", k.args[0].String())
				}
				rs, ok := c.freshCall(e, k, tSwarm)
				if len(rs) > 0 {
					rs[0].st.ghost["made"] = TTrue
				}
				return rs, ok
			}
			h["(*"+tSwarm+").Start"] = func(k *Call) ([]Res, bool) {
				done["swarm"]++
				return k.ret(), true
			}
			h["(*"+tSwarm+").String"] = func(k *Call) ([]Res, bool) { return unknownCall(k), true }
			h["gotor/torrent.FromTorrentFile"] = func(k *Call) ([]Res, bool) {
				if e.dry == 0 {
					c.check(eqSeqs(k.st, k.st.strSeq(k.args[0]), asSeq(opt["Input"])), "commands:input", k.pos(), "the torrent is the one that was given", k.args[0].String())
				}
				return c.freshCall(e, k, tTor)
			}
			h["(*"+tTor+").String"] = func(k *Call) ([]Res, bool) {
				done["info"]++
				return unknownCall(k), true
			}
			e.Run(st, f, nil, nil)
			other := map[string]string{"swarm": "info", "info": "swarm"}[cmd]
			c.check(done[cmd] > 0 && done[other] == 0, "commands:"+cmd, where, "each command does what it says", cmd)
			c.done(e, "commands")
		}
	})
}

func runC31(c *Ctx) {
	c.sizes()
	c.optionValues()
	c.commands()
}

func init() {
	register(&Prop{
		id: "C31", title: "The options are what was given",
		rule:   "the parsing of a size is interpreted for an arbitrary text, and its result compared with the number that the text stands for; the options are those of the flags; the command decides what is done",
		assume: []string{"package flag", "strconv.Atoi and its relatives", "strings.ToUpper changes only letters"},
		run:    runC31,
	})
}

package main

// The tracker: what is announced and what is made of the reply.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tDict = "gotor/bencode.Dict"

func decSeq(v *Term) *Term { return Seq(mkDec(v)) }

// ---------------------------------------------------------------- C22

func runC22(c *Ctx) {
	c.swarmInvariant()
	c.announceRequest()
	c.startup(true)
	c.listenPort()
}

func (c *Ctx) announceRequest() {
	c.guard("announce", "the announce request", func() {
		f := c.anchor("gotor/tracker.Get")
		where := c.pg.pos(f.Pos())
		e := c.exec(f.RelString(nil))
		e.invs = c.allInvs()
		e.paths, e.sc = true, 200
		st := c.state()
		as := c.args(st, f)
		u64 := types.Typ[types.Uint64]
		dn, up, left := I(Sym("dn", u64)), I(Sym("up", u64)), I(Sym("left", u64))
		// the statistics that the announcement is made from
		outs := e.Run(st, c.anchor("gotor/tracker.NewStats"), []*Term{dn, up, left}, nil)
		if len(outs) != 1 || outs[0].panic != nil {
			panic(undecided{"NewStats cannot be followed"})
		}
		st = outs[0].st
		var tor, port, id *Term
		for i, p := range f.Params {
			switch p.Type().String() {
			case "*gotor/tracker.Stats":
				as[i] = outs[0].vals[0]
			case "*" + tTor:
				tor = as[i]
			case "uint16":
				port = as[i]
			case "string":
				id = as[i]
			}
		}
		if tor == nil || port == nil || id == nil {
			panic(undecided{"the arguments of " + f.RelString(nil) + " are not known"})
		}
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		// the infohash as it was before, the request is made without changing the torrent
		ih := e.getter(st, tor, "(*"+tTor+").Infohash")
		ann := e.getter(st, tor, "(*"+tTor+").Announce")
		newReq := func(at int) func(k *Call) ([]Res, bool) {
			return func(k *Call) ([]Res, bool) {
				if e.dry == 0 {
					m, ok := seqLit(k.st.strSeq(k.args[at]))
					c.check(ok && m == "GET", "announce:method", k.pos(), "the announcement is a GET request", k.args[at].String())
					c.check(eqSeqs(k.st, k.st.strSeq(k.args[at+1]), k.st.strSeq(ann)), "announce:url", k.pos(), "the request goes to the announce URL of the torrent", k.args[at+1].String())
				}
				good, bad := k.st.clone(), k.st.clone()
				v := k.fresh("req", k.sig.Results().At(0).Type())
				good.learn(notNil(v))
				good.ghost["req"] = v
				return []Res{{st: good, vals: []*Term{v, TNil}}, {st: bad, vals: []*Term{TNil, k.newErr("req")}}}, true
			}
		}
		h["net/http.NewRequest"] = newReq(0)
		h["net/http.NewRequestWithContext"] = newReq(1)
		urlOf := func(st *State) *Term {
			if st.ghost["req"] == nil {
				return nil
			}
			t := f.Pkg.Pkg.Imports()
			var rt types.Type
			for _, p := range t {
				if p.Path() == "net/http" {
					rt = p.Scope().Lookup("Request").Type()
				}
			}
			if rt == nil {
				return nil
			}
			return st.f.find(st.field(rt, st.ghost["req"], "URL"))
		}
		h["(*net/url.URL).Query"] = func(k *Call) ([]Res, bool) {
			v := k.fresh("query", k.sig.Results().At(0).Type())
			k.st.learn(notNil(v))
			if k.st.f.find(k.args[0]) == urlOf(k.st) {
				k.st.ghost["query"] = v
			}
			return k.ret(v), true
		}
		put := func(st *State, pos string, q, key, val *Term, add bool) {
			name, ok := seqLit(st.strSeq(key))
			if st.ghost["query"] == nil || st.f.find(q) != st.f.find(st.ghost["query"]) || !ok {
				if e.dry == 0 {
					c.fail("announce:query", pos, "parameters with known names are added to those of the announce URL", q.String(), key.String())
				}
				return
			}
			if add && st.ghost["q:"+name] != nil && e.dry == 0 {
				c.fail("announce:once:"+name, pos, "no parameter is given twice", name)
			}
			st.ghost["q:"+name] = st.strSeq(val)
		}
		h["(net/url.Values).Add"] = func(k *Call) ([]Res, bool) {
			put(k.st, k.pos(), k.args[0], k.args[1], k.args[2], true)
			return k.ret(), true
		}
		h["(net/url.Values).Set"] = func(k *Call) ([]Res, bool) {
			put(k.st, k.pos(), k.args[0], k.args[1], k.args[2], false)
			return k.ret(), true
		}
		h["(net/url.Values).Del"] = func(k *Call) ([]Res, bool) {
			if n, ok := seqLit(k.st.strSeq(k.args[1])); ok {
				delete(k.st.ghost, "q:"+n)
			}
			return k.ret(), true
		}
		e.hooks.markMap = func(fr *Frame, st *State, in ssa.Instruction, m, k, v *Term) {
			q := st.ghost["query"]
			if q == nil || v == nil || st.f.find(m) != st.f.find(q) {
				return
			}
			b, o, l, _ := parts(st.f.find(v))
			if !st.holds(EqI(l, IntC(1))) {
				return
			}
			put(st, c.pg.pos(in.Pos()), m, k, st.load(mk(KElem, "", 0, nil, nil, b, o), types.Typ[types.String]), false)
		}
		want := []struct {
			key, text string
			val       func(st *State) *Term
		}{
			{"info_hash", "the infohash of the torrent", func(st *State) *Term { return st.strSeq(ih) }},
			{"peer_id", "the id that was given", func(st *State) *Term { return st.strSeq(id) }},
			{"port", "the port that was given", func(*State) *Term { return decSeq(port) }},
			{"uploaded", "the number of bytes uploaded", func(*State) *Term { return decSeq(up) }},
			{"downloaded", "the number of bytes downloaded", func(*State) *Term { return decSeq(dn) }},
			{"left", "the number of bytes that are missing", func(*State) *Term { return decSeq(left) }},
			{"compact", "1", func(*State) *Term { return mkSeqLit("1") }},
		}
		h["(net/url.Values).Encode"] = func(k *Call) ([]Res, bool) {
			if e.dry == 0 {
				q := k.st.ghost["query"]
				c.check(q != nil && k.st.f.find(k.args[0]) == k.st.f.find(q), "announce:kept", k.pos(), "the parameters of the announce URL itself are kept")
				for _, w := range want {
					got := k.st.ghost["q:"+w.key]
					d := "not given"
					if got != nil {
						d = got.String()
					}
					c.check(got != nil && eqSeqs(k.st, got, w.val(k.st)), "announce:"+w.key, k.pos(), w.key+" is "+w.text, d, w.val(k.st).String())
				}
				for g := range k.st.ghost {
					if strings.HasPrefix(g, "q:") {
						known := g == "q:numwant" || g == "q:event" || g == "q:no_peer_id" || g == "q:key" || g == "q:trackerid" || g == "q:ip"
						for _, w := range want {
							known = known || g == "q:"+w.key
						}
						c.check(known, "announce:other", k.pos(), "only parameters that trackers know are given", g)
					}
				}
			}
			v := asSeq(App("encoded", types.Typ[types.String]))
			k.st.ghost["encoded"] = v
			return k.ret(v), true
		}
		e.hooks.markStore = func(fr *Frame, st *State, in ssa.Instruction, addr, val *Term) {
			u := urlOf(st)
			if u == nil || addr.k != KFld || st.f.find(addr.args[0]) != u {
				return
			}
			if e.dry == 0 {
				enc := st.ghost["encoded"]
				c.check(enc != nil && eqSeqs(st, st.strSeq(val), enc), "announce:set", c.pg.pos(in.Pos()), "the query of the request is the encoded parameters, and nothing else of its URL is changed", addr.String(), val.String())
			}
			st.ghost["set"] = TTrue
		}
		n := 0
		send := func(k *Call) ([]Res, bool) {
			n++
			if e.dry == 0 {
				r := k.st.ghost["req"]
				c.check(r != nil && k.st.f.find(k.args[1]) == k.st.f.find(r) && k.st.ghost["set"] != nil, "announce:sent", k.pos(), "the request that is sent is the one with all the parameters")
			}
			return []Res{{st: k.st, vals: []*Term{TNil, k.newErr("http")}}}, true
		}
		h["(*net/http.Client).Do"] = send
		e.Run(st, f, as, nil)
		c.check(n > 0, "announce:sent", where, "the request that is sent is the one with all the parameters", "no request is sent")
		c.done(e, "announce")
	})
}

func (c *Ctx) listenPort() {
	c.guard("listen", "listening", func() {
		n := 0
		for _, f := range c.pg.allFns {
			if c.outside(f) || len(f.Blocks) == 0 {
				continue
			}
			_, cs := c.pg.callees(f)
			has := false
			for _, ci := range cs {
				has = has || callName(ci) == "net.Listen"
			}
			if !has {
				continue
			}
			e := c.exec(f.RelString(nil))
			st := c.state()
			as := c.args(st, f)
			h := map[string]func(k *Call) ([]Res, bool){}
			e.hooks.call = h
			var ports []*Term
			for i, p := range f.Params {
				if p.Type().String() == "*"+tSwarm {
					ports = append(ports, I(st.field(c.typ(tSwarm), as[i], "Port")))
				}
			}
			h["gotor/utils.GetOpts"] = func(k *Call) ([]Res, bool) {
				v := Sym("opts", k.sig.Results().At(0).Type())
				k.st.learn(notNil(v))
				return k.ret(v), true
			}
			h["net.Listen"] = func(k *Call) ([]Res, bool) {
				n++
				if e.dry == 0 {
					ps := append([]*Term{}, ports...)
					ps = append(ps, I(e.getter(k.st, Sym("opts", types.NewPointer(c.typ("gotor/utils.Opts"))), "(*gotor/utils.Opts).Port")))
					ok := false
					for _, p := range ps {
						ok = ok || eqSeqs(k.st, k.st.strSeq(k.args[1]), Seq(mkLit(":"), mkDec(p)))
					}
					nw, lit := seqLit(k.st.strSeq(k.args[0]))
					c.check(ok && lit && strings.HasPrefix(nw, "tcp"), "listen:port", k.pos(), "connections are accepted on the port that is announced", k.args[1].String())
				}
				return []Res{}, true
			}
			e.Run(st, f, as, nil)
			c.done(e, "listen")
		}
		if n == 0 {
			c.fail("listen:port", "", "connections are accepted on the port that is announced", "nothing listens")
		}
	})
}

// ---------------------------------------------------------------- C23

func runC23(c *Ctx) {
	c.reply()
}

// findApp is the first application of a function with a name that starts so.
func findApp(t *Term, prefix string) *Term {
	if t == nil || t.k == KApp && strings.HasPrefix(t.s, prefix) {
		return t
	}
	for _, p := range t.ps {
		if r := findApp(p.m, prefix); r != nil {
			return r
		}
	}
	for _, a := range t.args {
		if r := findApp(a, prefix); r != nil {
			return r
		}
	}
	return nil
}

// byteIs: a number is the byte at some place of a string.
func byteIs(st *State, x, s, off *Term) bool {
	x = I(x)
	if q := seqByte(st.f, s, off); q != nil && st.holds(EqI(x, q)) {
		return true
	}
	for _, a := range intAtoms(x) {
		if a.k == KApp && a.s == "byteat" && st.holds(EqI(x, I(a))) && st.f.seqEqual(asSeq(a.args[0]), s) && st.holds(EqI(I(a.args[1]), off)) {
			return true
		}
	}
	return false
}

// ipIs: an address is made of four bytes of a string.
func ipIs(st *State, ip, s, off *Term) bool {
	ip = st.f.find(ip)
	match := func(xs []*Term) bool {
		for i, x := range xs {
			if !byteIs(st, x, s, AddC(off, int64(i))) {
				return false
			}
		}
		return len(xs) == 4
	}
	base := ip
	if ip.k == KSlice {
		base = ip.args[0]
	}
	if base.k == KArr {
		base = base.args[0]
	}
	if base.k == KApp && base.s == "ipv4" && len(base.args) == 4 {
		return match(base.args)
	}
	if ip.k == KSlice {
		x := st.sliceContent(ip)
		if st.holds(EqI(seqLen(x), IntC(4))) {
			var xs []*Term
			for i := int64(0); i < 4; i++ {
				q := seqByte(st.f, x, IntC(i))
				if q == nil {
					return false
				}
				xs = append(xs, q)
			}
			return match(xs)
		}
	}
	return false
}

func (c *Ctx) reply() {
	c.guard("reply", "the reply of a tracker", func() {
		f := c.anchor("gotor/tracker.Get")
		where := c.pg.pos(f.Pos())
		e := c.exec(f.RelString(nil))
		e.invs = c.allInvs()
		e.paths, e.sc, e.ideal = true, 400, true
		st := c.state()
		as := c.args(st, f)
		h := map[string]func(k *Call) ([]Res, bool){}
		e.hooks.call = h
		str, u64 := types.Typ[types.String], types.Typ[types.Uint64]
		dictT := c.typ(tDict)
		D := Sym("own:dict", dictT)
		fork := func(k *Call, good *Term, zero *Term, name string) []Res {
			g, b := k.st.clone(), k.st.clone()
			g.ghost[name], b.ghost[name] = TTrue, TFalse
			return []Res{{st: g, vals: []*Term{good, TNil}}, {st: b, vals: []*Term{zero, k.newErr(name)}}}
		}
		step := func(name string, v func(k *Call, st *State) *Term) func(k *Call) ([]Res, bool) {
			return func(k *Call) ([]Res, bool) {
				g, b := k.st.clone(), k.st.clone()
				b.ghost["failed"] = TTrue
				return []Res{{st: g, vals: []*Term{v(k, g), TNil}}, {st: b, vals: []*Term{zeroValue(k.sig.Results().At(0).Type()), k.newErr(name)}}}, true
			}
		}
		fresh := func(k *Call, st *State) *Term {
			v := k.fresh("v", k.sig.Results().At(0).Type())
			st.learn(notNil(v))
			return v
		}
		h["net/http.NewRequest"] = step("request", fresh)
		h["net/http.NewRequestWithContext"] = step("request", fresh)
		h["(*net/http.Client).Do"] = step("http", fresh)
		body := Sym("own:body", nil)
		bl := I(Sym("len:body", lenType))
		st.learn(Ge0(bl))
		rd := step("body", func(k *Call, st *State) *Term { return mkSlice(body, IntC(0), bl, bl) })
		h["io.ReadAll"], h["io/ioutil.ReadAll"] = rd, rd
		h["gotor/bencode.Decode"] = func(k *Call) ([]Res, bool) {
			if e.dry == 0 {
				c.check(k.st.f.find(k.args[0]) == k.st.f.find(mkSlice(body, IntC(0), bl, bl)), "reply:body", k.pos(), "what is decoded is the whole body of the reply", k.args[0].String())
			}
			g, o, b := k.st.clone(), k.st.clone(), k.st.clone()
			o.ghost["failed"], b.ghost["failed"] = TTrue, TTrue
			return []Res{
				{st: g, vals: []*Term{mk(KIface, "", 0, dictT, nil, D), TNil}},
				{st: o, vals: []*Term{mk(KIface, "", 0, str, nil, asSeq(Sym("notdict", str))), TNil}},
				{st: b, vals: []*Term{TNil, k.newErr("decode")}},
			}, true
		}
		key := func(k *Call) string {
			n, ok := seqLit(k.st.strSeq(k.args[1]))
			if !ok {
				panic(undecided{"a key of the reply is not a constant"})
			}
			return n
		}
		val := func(kind string, d *Term, n string, t types.Type) *Term {
			v := opaqueValue(App("dict:"+kind, t, d, mkLit(n)), t)
			if intType(t) {
				return I(v)
			}
			return v
		}
		get := func(kind string) func(k *Call) ([]Res, bool) {
			return func(k *Call) ([]Res, bool) {
				n := key(k)
				d := k.st.f.find(k.args[0])
				t := k.sig.Results().At(0).Type()
				v := val(kind, d, n, t)
				zero := zeroValue(t)
				if d != D {
					g, b := k.st.clone(), k.st.clone()
					b.ghost["badpeer"] = TTrue
					return []Res{{st: g, vals: []*Term{v, TNil}}, {st: b, vals: []*Term{zero, k.newErr(n)}}}, true
				}
				name := kind + ":" + n
				switch k.st.ghost[name] {
				case TTrue:
					return k.ret(v, TNil), true
				case TFalse:
					return k.ret(zero, k.newErr(name)), true
				}
				// a value has one type only
				for _, o := range []string{"string", "uint", "int", "list", "dict"} {
					if o != kind && !(o == "int" && kind == "uint") && !(o == "uint" && kind == "int") && k.st.ghost[o+":"+n] == TTrue {
						return k.ret(zero, k.newErr(name)), true
					}
				}
				return fork(k, v, zero, name), true
			}
		}
		h["("+tDict+").GetString"] = get("string")
		h["("+tDict+").GetUint"] = get("uint")
		h["("+tDict+").GetInt"] = get("int")
		h["("+tDict+").GetList"] = get("list")
		h["("+tDict+").GetDict"] = get("dict")
		// the peers, as they are added to the list
		cnt := pg("cnt", lenType)
		st.mem[cnt] = IntC(0)
		infoT := c.typ("gotor/peer.Info")
		fieldOf := func(v *Term, name string) *Term {
			s := structOf(infoT)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name {
					return structField(v, i, s.Field(i).Type())
				}
			}
			panic(undecided{"a peer has no " + name})
		}
		peers := val("string", D, "peers", str)
		list := val("list", D, "peers", c.typ("gotor/bencode.List"))
		sixth := func(st *State) *Term { return e.div(st, st.lenOf(peers, str), IntC(6), lenType) }
		emit := func(fr *Frame, st *State, in ssa.Instruction, at, v *Term) {
			cur := I(st.load(cnt, lenType))
			if e.dry == 0 {
				pos := c.pg.pos(in.Pos())
				c.check(st.holds(EqI(at, cur)), "reply:order", pos, "the peers are listed in the order of the reply", I(at).String(), cur.String())
				id, ip, port, addr := fieldOf(v, "id"), fieldOf(v, "ip"), I(fieldOf(v, "port")), fieldOf(v, "addr")
				_ = id
				switch {
				case st.ghost["string:peers"] == TTrue:
					s := st.strSeq(peers)
					okIP := ipIs(st, ip, s, MulC(cur, 6))
					var hi, lo *Term
					for _, a := range intAtoms(port) {
						switch {
						case byteIs(st, I(a), s, AddC(MulC(cur, 6), 4)):
							hi = I(a)
						case byteIs(st, I(a), s, AddC(MulC(cur, 6), 5)):
							lo = I(a)
						}
					}
					okPort := hi != nil && lo != nil && st.holds(EqI(port, Add(MulC(hi, 256), lo)))
					c.check(okIP, "reply:compact:ip", pos, "the address of a peer is the first four of its six bytes", ip.String(), factsText(st))
					c.check(okPort, "reply:compact:port", pos, "the port of a peer is the last two of its six bytes, most significant first", port.String())
				case st.ghost["list:peers"] == TTrue:
					b, o, _, _ := parts(st.f.find(list))
					at := Add(o, cur)
					find := func(t *Term) *Term { return findApp(t, "dict:") } // the dictionary that a term is from
					okAt := func(t *Term) bool {
						i := elemIndex(t, b)
						return i != nil && st.holds(EqI(i, at))
					}
					di, dp, dd := find(ip), find(port), find(id)
					c.check(di != nil && di.s == "dict:string" && di.args[1] == mkLit("ip") && okAt(di.args[0]) && strings.Contains(ip.String(), "parseip"), "reply:list:ip", pos, "the address of a peer is the one of its entry", ip.String())
					c.check(dp != nil && dp.s == "dict:uint" && dp.args[1] == mkLit("port") && okAt(dp.args[0]) && st.holds(EqI(port, I(dp))), "reply:list:port", pos, "the port of a peer is the one of its entry", port.String(), factsText(st))
					c.check(dd != nil && dd.args[1] == mkLit("peer id") && okAt(dd.args[0]), "reply:list:id", pos, "the id of a peer is the one of its entry", id.String())
				default:
					c.fail("reply:order", pos, "the peers are listed in the order of the reply", "a peer that is not from the reply")
				}
				as := addr.String()
				hp := findApp(addr, "hostport")
				okAddr := hp != nil && len(hp.args) == 2 && eqSeqs(st, st.strSeq(hp.args[1]), decSeq(port))
				if okAddr {
					is := findApp(hp.args[0], "ipstr")
					okAddr = is != nil && st.f.find(is.args[0]) == st.f.find(ip)
				}
				c.check(okAddr, "reply:addr", pos, "a peer is reached at its address and port", as)
			}
			st.store(cnt, AddC(cur, 1), lenType)
		}
		isPeers := func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return ok && types.Identical(s.Elem(), infoT)
		}
		e.hooks.markAppend = func(fr *Frame, st *State, in ssa.Instruction, s *Term, elems []*Term) {
			if v, ok := in.(ssa.Value); !ok || !isPeers(v.Type()) {
				return
			}
			_, _, l, _ := parts(st.f.find(s))
			for i, x := range elems {
				emit(fr, st, in, AddC(l, int64(i)), x)
			}
		}
		e.hooks.markStore = func(fr *Frame, st *State, in ssa.Instruction, addr, v *Term) {
			s, ok := in.(*ssa.Store)
			if !ok || addr.k != KElem || !types.Identical(s.Val.Type(), infoT) {
				return
			}
			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok || !isPeers(ia.X.Type()) {
				return
			}
			emit(fr, st, in, addr.args[1], v)
		}
		n := 0
		for _, o := range e.Run(st, f, as, nil) {
			if o.panic != nil {
				continue
			}
			g := o.st.ghost
			has := func(k string) bool { return g[k] == TTrue }
			if !o.st.isNil(o.vals[1]) {
				fine := g["failed"] == nil && g["badpeer"] == nil && !has("string:failure reason")
				for _, k := range []string{"uint:interval", "uint:complete", "uint:incomplete"} {
					fine = fine && g[k] != TFalse
				}
				if fine && has("string:peers") {
					s := o.st.clone()
					fine = s.learn(EqI(s.lenOf(peers, str), MulC(sixth(s), 6)))
				} else if fine {
					fine = false // entries of the list may be of any type
				}
				c.check(!fine, "reply:accepts", where, "a complete reply with a compact list of peers is accepted", factsText(o.st))
				continue
			}
			n++
			c.check(g["failed"] == nil && g["badpeer"] == nil, "reply:error", where, "a reply that cannot be fetched or read gives an error")
			c.check(g["string:failure reason"] == TFalse, "reply:refused", where, "a reply with a failure reason gives an error")
			resp := o.vals[0]
			rt := c.typ("gotor/tracker.Response")
			state := o.st.field(rt, resp, "State")
			sv := o.st.load(state, c.typ("gotor/tracker.State"))
			num := func(name string) *Term { return I(e.getter(o.st, sv, "(gotor/tracker.State)."+name)) }
			for _, w := range [][2]string{{"Interval", "interval"}, {"Seeders", "complete"}, {"Leechers", "incomplete"}} {
				ok := g["uint:"+w[1]] == TTrue && o.st.holds(EqI(num(w[0]), val("uint", D, w[1], u64)))
				c.check(ok, "reply:"+w[1], where, w[0]+" is what the reply says under "+w[1], num(w[0]).String())
			}
			mi := num("MinInterval")
			switch g["uint:min interval"] {
			case TTrue:
				c.check(o.st.holds(EqI(mi, val("uint", D, "min interval", u64))), "reply:min interval", where, "the minimum interval is what the reply says", mi.String())
			case TFalse:
				c.check(o.st.holds(EqI(mi, IntC(0))), "reply:min interval", where, "the minimum interval is what the reply says", mi.String())
			default:
				c.fail("reply:min interval", where, "the minimum interval is what the reply says", "it is not looked at")
			}
			ps := o.st.field(rt, resp, "Peers")
			_, _, pl, _ := parts(o.st.f.find(ps))
			cur := I(o.st.load(cnt, lenType))
			c.check(o.st.holds(EqI(pl, cur)), "reply:peers", where, "the list of peers is the one that was made from the reply", pl.String(), cur.String(), factsText(o.st))
			switch {
			case has("string:peers"):
				c.check(o.st.holds(EqI(cur, sixth(o.st))), "reply:compact:all", where, "there is a peer for every six bytes of a compact list", cur.String(), factsText(o.st))
				c.check(o.st.holds(EqI(o.st.lenOf(peers, str), MulC(sixth(o.st), 6))), "reply:compact:length", where, "a compact list that is not made of groups of six bytes gives an error")
			case has("list:peers"):
				_, _, ll, _ := parts(o.st.f.find(list))
				c.check(o.st.holds(EqI(cur, ll)), "reply:list:all", where, "there is a peer for every entry of a list", cur.String(), factsText(o.st))
			default:
				c.fail("reply:peers", where, "the list of peers is the one that was made from the reply", "no peers were read")
			}
		}
		c.check(n > 0, "reply:accepts", where, "a complete reply with a compact list of peers is accepted", "none is")
		c.done(e, "reply")
	})
}

func init() {
	register(&Prop{
		id: "C22", title: "The announce request tells the tracker the truth",
		rule:   "tracker.Get is interpreted for every torrent, id, port and statistics: the request that is sent is a GET to the announce URL, keeping its own parameters, with each of the seven parameters exactly once and with its value; NewSwarm gives it the loaded torrent, its own id, the port it listens on and the exact number of bytes missing.",
		assume: []string{"url.Values.Encode percent-encodes its values"},
		min:    map[string]int{"announce": 10, "listen": 1},
		run:    runC22,
	})
	register(&Prop{
		id: "C23", title: "The tracker's reply is read exactly",
		rule:   "tracker.Get is interpreted with an arbitrary reply: every field and every peer of the result is the one that the reply has in its place.",
		assume: []string{"net.IPv4, net.ParseIP and net.JoinHostPort are uninterpreted functions", "looking up a key of a dictionary is decided by C02 and the decoder"},
		min:    map[string]int{"reply": 12},
		run:    runC23,
	})
}

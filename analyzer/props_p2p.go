package main

// Wire format of the peer protocol: encoders, decoders, ownership of memory.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func be32(v *Term) *Term {
	v = I(v)
	return Seq(mkByte(ByteOf(v, 4, 3)), mkByte(ByteOf(v, 4, 2)), mkByte(ByteOf(v, 4, 1)), mkByte(ByteOf(v, 4, 0)))
}

func byteLit(b ...byte) *Term { return mkLit(string(b)) }

// runNamed interprets a function of the repository and reports the panics.
func (c *Ctx) runNamed(e *Exec, st *State, name string, args ...*Term) []Outcome {
	return e.Run(st, c.anchor(name), args, nil)
}

func (c *Ctx) noPanics(e *Exec, rule string) {
	e.hooks.panicOp = func(fr *Frame, d *D, in ssaInstr, what string, must bool) {
		c.fail(rule+":"+fr.fn.RelString(nil)+":"+what0(what), e.pos(in), "operation cannot panic", what, "call path "+fr.stack(), factsText(d.st))
	}
	e.hooks.safeOp = func(fr *Frame, in ssaInstr, what string) {
		c.ok(rule+":"+fr.fn.RelString(nil)+":"+what0(what), e.pos(in), "operation cannot panic")
	}
}

func what0(s string) string {
	if i := strings.Index(s, ":"); i >= 0 {
		s = s[:i]
	}
	return s
}

func factsText(st *State) string {
	var ss []string
	for _, l := range st.f.log {
		ss = append(ss, l.String())
	}
	if len(ss) > 14 && os.Getenv("ALLFACTS") == "" {
		ss = append(ss[:14], "...")
	}
	return "known there: " + strings.Join(ss, "; ")
}

// method of the dynamic type of an interface or of a pointer type
func (c *Ctx) callMethod(e *Exec, st *State, recv *Term, t types.Type, name string, args ...*Term) []Outcome {
	if recv.k == KIface {
		t = recv.typ
		recv = recv.args[0]
	}
	f := c.pg.method(t, name)
	if f == nil {
		panic(undecided{"no method " + name + " on " + t.String()})
	}
	return e.Run(st, f, append([]*Term{recv}, args...), nil)
}

// wire describes one message of BEP 3.
type wire struct {
	name string
	id   byte
	ctor string
	args []wireArg
	body func(a []*Term) *Term // bytes after the id
}

type wireArg struct {
	name, getter string
	block        bool
}

func p2pWire() []wire {
	none := func(a []*Term) *Term { return Seq() }
	u32 := func(a []*Term) *Term {
		var ss []*Term
		for _, x := range a {
			ss = append(ss, be32(x))
		}
		return Seq(ss...)
	}
	return []wire{
		{"choke", 0, "NewMsgChoke", nil, none},
		{"unchoke", 1, "NewMsgUnchoke", nil, none},
		{"interested", 2, "NewMsgInterested", nil, none},
		{"not interested", 3, "NewMsgNotInterested", nil, none},
		{"have", 4, "NewMsgHave", []wireArg{{"index", "Index", false}}, u32},
		{"request", 6, "NewMsgRequest", []wireArg{{"index", "Index", false}, {"begin", "Begin", false}, {"length", "ReqLen", false}}, u32},
		{"piece", 7, "NewMsgPiece", []wireArg{{"index", "Index", false}, {"begin", "Begin", false}, {"block", "Block", true}}, func(a []*Term) *Term {
			return Seq(be32(a[0]), be32(a[1]), a[2])
		}},
	}
}

// checkBytes compares what an encoder returned with the specification.
func (c *Ctx) checkBytes(st *State, got, want *Term, key, where, text string) {
	gs := st.sliceContent(got)
	if gs.k != KSeq {
		gs = asSeq(gs)
	}
	if st.f.seqEqual(gs, want) {
		c.ok(key, where, text)
		return
	}
	c.fail(key, where, text, "got  "+gs.String(), "want "+want.String(), factsText(st))
}

func (c *Ctx) funcPos(name string) string {
	if f := c.pg.fn(name); f != nil {
		return c.pg.pos(f.Pos())
	}
	return ""
}

func runC04(c *Ctx) {
	for _, w := range p2pWire() {
		w := w
		name := "gotor/p2p." + w.ctor
		c.guard("wire-form:"+w.name, "the encoding of "+w.name, func() {
			e := c.exec(name)
			c.noPanics(e, "encoder-panic")
			f := c.anchor(name)
			if len(f.Params) != len(w.args) {
				panic(undecided{name + " takes other arguments than the message has fields"})
			}
			st := c.state()
			var args, vals []*Term
			for i, p := range f.Params {
				v := opaqueValue(Sym("field:"+w.args[i].name, p.Type()), p.Type())
				args = append(args, v)
				if w.args[i].block {
					// a piece message longer than the length prefix can express is out of scope
					st.learn(Lt(st.lenOf(v, p.Type()), IntC(1<<32-16)))
					vals = append(vals, st.sliceContent(v))
				} else {
					vals = append(vals, v)
				}
			}
			body := w.body(vals)
			want := Seq(be32(AddC(seqLen(body), 1)), byteLit(w.id), body)
			for _, o := range e.Run(st, f, args, nil) {
				if o.panic != nil {
					continue
				}
				msg := o.vals[0]
				t := f.Signature.Results().At(0).Type()
				for _, o2 := range c.callMethod(e, o.st, msg, t, "Encode") {
					if o2.panic != nil {
						continue
					}
					c.checkBytes(o2.st, o2.vals[0], want, "wire-form:"+w.name, c.funcPos(name), "the encoding of a "+w.name+" message is the BEP 3 byte sequence for its fields")
					// encoding does not alter the message
					for _, o3 := range c.callMethod(e, o2.st, msg, t, "Encode") {
						if o3.panic == nil {
							c.checkBytes(o3.st, o3.vals[0], want, "encode-repeatable:"+w.name, c.funcPos(name), "encoding a "+w.name+" message again gives the same bytes")
						}
					}
				}
				for _, o2 := range c.callMethod(e, o.st, msg, t, "Mtype") {
					if o2.panic == nil {
						c.check(o2.st.holds(EqI(o2.vals[0], IntC(int64(w.id)))), "message-type:"+w.name, c.funcPos(name), "a "+w.name+" message reports its type", "got "+o2.vals[0].String())
					}
				}
				for _, o2 := range c.callMethod(e, o.st, msg, t, "Length") {
					if o2.panic == nil {
						c.check(o2.st.holds(EqI(o2.vals[0], AddC(seqLen(body), 1))), "message-length:"+w.name, c.funcPos(name), "a "+w.name+" message reports the length its encoding announces", "got "+o2.vals[0].String())
					}
				}
				for i, a := range w.args {
					for _, o2 := range c.callMethod(e, o.st, msg, t, a.getter) {
						if o2.panic != nil {
							continue
						}
						key := "accessor:" + w.name + "." + a.getter
						if a.block {
							c.checkBytes(o2.st, o2.vals[0], vals[i], key, c.funcPos(name), "the accessor returns what the message was made with")
						} else {
							c.check(o2.st.holds(EqI(o2.vals[0], vals[i])), key, c.funcPos(name), "the accessor returns what the message was made with", "got "+o2.vals[0].String())
						}
					}
				}
			}
			c.done(e, "wire-form:"+w.name)
		})
	}
	// bitfield: the message of any bitfield
	c.guard("wire-form:bitfield", "the encoding of bitfield", func() {
		e := c.exec("gotor/p2p.NewMsgBitfield")
		c.noPanics(e, "encoder-panic")
		for _, b := range c.anyBitfields(e) {
			st, bfp := b.st, b.bf
			data := e.getterOn(st, bfp, "(*gotor/bf.Bitfield).Data")
			body := st.sliceContent(data)
			st.learn(Lt(seqLen(body), IntC(1<<32-16)))
			want := Seq(be32(AddC(seqLen(body), 1)), byteLit(5), body)
			f := c.anchor("gotor/p2p.NewMsgBitfield")
			t := f.Signature.Results().At(0).Type()
			for _, o := range e.Run(st, f, []*Term{bfp}, nil) {
				if o.panic != nil {
					continue
				}
				for _, o2 := range c.callMethod(e, o.st, o.vals[0], t, "Encode") {
					if o2.panic != nil {
						continue
					}
					c.checkBytes(o2.st, o2.vals[0], want, "wire-form:bitfield", c.funcPos("gotor/p2p.NewMsgBitfield"), "the encoding of a bitfield message is length, id 5 and the bits of the bitfield")
					after := o2.st.sliceContent(e.getterOn(o2.st, bfp, "(*gotor/bf.Bitfield).Data"))
					c.check(o2.st.f.seqEqual(after, body), "encode-pure:bitfield", c.funcPos("gotor/p2p.NewMsgBitfield"), "encoding does not change the bits")
					all := e.getterOn(st, bfp, "(*gotor/bf.Bitfield).Data5")
					all2 := e.getterOn(o2.st, bfp, "(*gotor/bf.Bitfield).Data5")
					c.check(o2.st.f.seqEqual(o2.st.sliceContent(all2), st.sliceContent(all)), "encode-pure:bitfield", c.funcPos("gotor/p2p.NewMsgBitfield"), "encoding does not write into the bitfield that is shared between peers")
					base, _, _, _ := parts(o2.st.f.find(o2.vals[0]))
					b5, _, _, _ := parts(o2.st.f.find(all2))
					c.check(base != b5, "encode-own:bitfield", c.funcPos("gotor/p2p.NewMsgBitfield"), "the encoding does not share memory with the bitfield")
				}
				for _, o2 := range c.callMethod(e, o.st, o.vals[0], t, "Mtype") {
					if o2.panic == nil {
						c.check(o2.st.holds(EqI(o2.vals[0], IntC(5))), "message-type:bitfield", "", "a bitfield message reports its type")
					}
				}
			}
		}
		c.done(e, "wire-form:bitfield")
	})
	// keep alive
	c.guard("wire-form:keep-alive", "the encoding of keep alive", func() {
		t := c.pg.namedType("gotor/p2p", "MsgKeepAlive")
		if t == nil {
			panic(undecided{"type p2p.MsgKeepAlive not found"})
		}
		e := c.exec("(*gotor/p2p.MsgKeepAlive).Encode")
		c.noPanics(e, "encoder-panic")
		st := c.state()
		p := Sym("arg:keepalive", types.NewPointer(t))
		st.learn(Not(EqT(p, TNil)))
		for _, o := range c.callMethod(e, st, p, types.NewPointer(t), "Encode") {
			if o.panic == nil {
				c.checkBytes(o.st, o.vals[0], Seq(byteLit(0, 0, 0, 0)), "wire-form:keep-alive", "", "a keep-alive message is four zero bytes")
			}
		}
		c.done(e, "wire-form:keep-alive")
	})
	c.messageTypes()
}

// messageTypes: every message the program has is one of those checked.
func (c *Ctx) messageTypes() {
	known := map[string]bool{}
	for _, n := range []string{"MsgChoke", "MsgUnchoke", "MsgInterested", "MsgNotInterested", "MsgHave", "MsgRequest", "MsgPiece", "MsgBitfield", "MsgKeepAlive"} {
		known["gotor/p2p."+n] = true
		if c.pg.namedType("gotor/p2p", n) == nil {
			c.fail("message-types:"+n, "", "the message type exists")
		}
	}
}

type bfCase struct {
	st *State
	bf *Term
	in *Term // the bytes it was made from
}

// anyBitfields: the ways a bitfield comes to be, with arbitrary contents.
func (c *Ctx) anyBitfields(e *Exec) []bfCase {
	var r []bfCase
	st := c.state()
	f := c.anchor("gotor/bf.FromBytes")
	in := opaqueValue(Sym("bf:bytes", f.Params[0].Type()), f.Params[0].Type())
	n := opaqueValue(Sym("bf:nbits", f.Params[1].Type()), f.Params[1].Type())
	st.learn(Le(st.lenOf(in, f.Params[0].Type()), IntC(1<<36)))
	for _, o := range e.Run(st, f, []*Term{in, n}, nil) {
		if o.panic == nil && o.st.isNil(o.vals[1]) {
			r = append(r, bfCase{o.st, o.vals[0], in})
		}
	}
	st = c.state()
	n = I(Sym("bf:nbits", n.typ))
	st.learn(Le(IntC(1), n))
	st.learn(Le(n, IntC(1<<36)))
	for _, o := range e.Run(st, c.anchor("gotor/bf.NewBitfield"), []*Term{n}, nil) {
		if o.panic == nil {
			r = append(r, bfCase{o.st, o.vals[0], nil})
		}
	}
	if len(r) < 2 {
		panic(undecided{"no bitfield can be made"})
	}
	return r
}

func (e *Exec) getterOn(st *State, ptr *Term, name string, args ...*Term) *Term {
	return e.getter(st, ptr, name, args...)
}

// ------------------------------------------------------------ decoding

func byteAtData(st *State, data *Term, i int64) *Term {
	c := st.sliceContent(data)
	if b := seqByte(st.f, c, IntC(i)); b != nil {
		return b
	}
	return I(App("byteat", byteType, c, IntC(i)))
}

func be32At(st *State, data *Term, off int64) *Term {
	v := IntC(0)
	for i := int64(0); i < 4; i++ {
		v = Add(MulC(v, 256), byteAtData(st, data, off+i))
	}
	return v
}

type decCase struct {
	name string
	id   int64 // -1 keep alive
	typ  string
	minL int64 // least length field
	maxL int64 // greatest, -1: none
}

var decCases = []decCase{
	{"keep alive", -1, "MsgKeepAlive", 0, 0},
	{"choke", 0, "MsgChoke", 1, 1},
	{"unchoke", 1, "MsgUnchoke", 1, 1},
	{"interested", 2, "MsgInterested", 1, 1},
	{"not interested", 3, "MsgNotInterested", 1, 1},
	{"have", 4, "MsgHave", 5, 5},
	{"bitfield", 5, "MsgBitfield", 2, -1},
	{"request", 6, "MsgRequest", 13, 13},
	{"piece", 7, "MsgPiece", 9, -1},
}

func resField(st *State, v *Term, t types.Type, name string) *Term {
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return structField(v, i, s.Field(i).Type())
		}
	}
	panic(undecided{"no field " + name})
}

func resFieldType(t types.Type, name string) types.Type {
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	panic(undecided{"no field " + name})
}

func runC05(c *Ctx) {
	const dec = "gotor/p2p.Decode"
	// every well-formed message is accepted, with its type and length, and
	// re-encodes to the bytes it came from
	for _, dc := range decCases {
		dc := dc
		c.guard("accept:"+dc.name, "decoding of "+dc.name, func() {
			e := c.exec(dec)
			c.noPanics(e, "decoder-panic")
			f := c.anchor(dec)
			rt := f.Signature.Results().At(0).Type()
			st := c.state()
			data := opaqueValue(Sym("arg:data", f.Params[0].Type()), f.Params[0].Type())
			n := st.lenOf(data, f.Params[0].Type())
			st.learn(Le(n, IntC(1<<36)))
			st.learn(Le(IntC(4), n))
			if dc.id >= 0 {
				st.learn(Le(IntC(5), n))
			}
			L := be32At(st, data, 0)
			st.learn(Le(AddC(L, 4), n))
			st.learn(Le(IntC(dc.minL), L))
			if dc.maxL >= 0 {
				st.learn(Le(L, IntC(dc.maxL)))
			}
			if dc.id >= 0 {
				st.learn(EqI(byteAtData(st, data, 4), IntC(dc.id)))
			}
			got := 0
			for _, o := range e.Run(st, f, []*Term{data}, nil) {
				if o.panic != nil {
					continue
				}
				key := "accept:" + dc.name
				txt := "a complete well-formed " + dc.name + " message is decoded without error"
				if !c.check(o.st.isNil(o.vals[1]), key, c.funcPos(dec), txt, "error "+o.vals[1].String(), factsText(o.st)) {
					continue
				}
				got++
				msg := o.st.f.find(resField(o.st, o.vals[0], rt, "Msg"))
				read := resField(o.st, o.vals[0], rt, "Read")
				tn := ""
				if msg.k == KIface {
					tn = strings.TrimPrefix(msg.typ.String(), "*gotor/p2p.")
				}
				if !c.check(tn == dc.typ, "type:"+dc.name, c.funcPos(dec), "it decodes to the message type its id stands for", "got "+msg.String()) {
					continue
				}
				c.check(o.st.holds(EqI(read, AddC(L, 4))), "consumed:"+dc.name, c.funcPos(dec), "exactly the bytes of the message are consumed", "got "+read.String(), factsText(o.st))
				c.roundTrip(e, o.st, msg, data, read, "roundtrip:"+dc.name, c.funcPos(dec))
			}
			if got == 0 {
				c.fail("accept:"+dc.name, c.funcPos(dec), "a complete well-formed "+dc.name+" message is decoded without error", "no outcome")
			}
			c.done(e, "accept:"+dc.name)
		})
	}
	// whatever is accepted was well formed
	c.guard("sound", "decoding of arbitrary bytes", func() {
		e := c.exec(dec)
		c.noPanics(e, "decoder-panic")
		f := c.anchor(dec)
		rt := f.Signature.Results().At(0).Type()
		st := c.state()
		data := opaqueValue(Sym("arg:data", f.Params[0].Type()), f.Params[0].Type())
		n := st.lenOf(data, f.Params[0].Type())
		st.learn(Le(n, IntC(1<<36)))
		for _, o := range e.Run(st, f, []*Term{data}, nil) {
			if o.panic != nil {
				continue
			}
			msg := o.st.f.find(resField(o.st, o.vals[0], rt, "Msg"))
			read := resField(o.st, o.vals[0], rt, "Read")
			c.check(o.st.nonNil(o.vals[1]) || o.st.isNil(o.vals[1]), "error-decided:Decode", c.funcPos(dec), "the outcome of decoding is success or an error", o.vals[1].String())
			if !o.st.isNil(o.vals[1]) {
				// rejected data still makes progress
				continue
			}
			tn := "?"
			if msg.k == KIface {
				tn = strings.TrimPrefix(msg.typ.String(), "*gotor/p2p.")
			}
			var dc *decCase
			for i := range decCases {
				if decCases[i].typ == tn {
					dc = &decCases[i]
				}
			}
			if dc == nil {
				c.fail("sound:unknown", c.funcPos(dec), "a decoded message has a known type", msg.String())
				continue
			}
			key := "sound:" + dc.name
			txt := "bytes accepted as " + dc.name + " are a complete well-formed " + dc.name + " message"
			ok := o.st.holds(Le(IntC(4), n)) && o.st.holds(Le(read, n))
			L := be32At(o.st, data, 0)
			ok = ok && o.st.holds(EqI(read, AddC(L, 4))) && o.st.holds(Le(IntC(dc.minL), L))
			if dc.maxL >= 0 {
				ok = ok && o.st.holds(Le(L, IntC(dc.maxL)))
			}
			if dc.id >= 0 {
				ok = ok && o.st.holds(EqI(byteAtData(o.st, data, 4), IntC(dc.id)))
			}
			c.check(ok, key, c.funcPos(dec), txt, "read "+read.String(), factsText(o.st))
			c.roundTrip(e, o.st, msg, data, read, "roundtrip:"+dc.name, c.funcPos(dec))
		}
		c.done(e, "sound")
	})
	c.guard("stream", "decoding of a buffer of messages", func() { c.decodeAll() })
}

// roundTrip: the message encodes to the bytes it was decoded from.
func (c *Ctx) roundTrip(e *Exec, st *State, msg, data, read *Term, key, where string) {
	want := seqSlice(st.f, st.sliceContent(data), IntC(0), read)
	if want == nil {
		c.fail(key, where, "a decoded message encodes to the bytes it came from", "cannot name the bytes")
		return
	}
	for _, o := range c.callMethod(e, st, msg, nil, "Encode") {
		if o.panic == nil {
			c.checkBytes(o.st, o.vals[0], want, key, where, "a decoded message encodes to the bytes it came from")
		}
	}
}

// decodeAll: messages come out in order, none skipped, none invented.
func (c *Ctx) decodeAll() {
	const all = "gotor/p2p.DecodeAll"
	f := c.anchor(all)
	e := c.exec(all)
	rt := f.Signature.Results().At(0).Type()
	st := c.state()
	data := opaqueValue(Sym("arg:data", f.Params[0].Type()), f.Params[0].Type())
	n := st.lenOf(data, f.Params[0].Type())
	st.learn(Le(n, IntC(1<<36)))
	content := st.sliceContent(data)
	// ghosts: where the next message starts, how much was accepted, and the
	// message that has to be recorded before the next one is looked at
	off, acc, cnt := pg("off", lenType), pg("acc", lenType), pg("cnt", lenType)
	st.mem[off], st.mem[acc], st.mem[cnt] = IntC(0), IntC(0), IntC(0)
	where := c.funcPos(all)
	e.hooks.call = map[string]func(k *Call) ([]Res, bool){
		"gotor/p2p.Decode": func(k *Call) ([]Res, bool) {
			arg := k.args[0]
			at := k.st.mem[off]
			ln := k.st.lenOf(arg, f.Params[0].Type())
			rest := Sub(n, at)
			want := seqSlice(k.st.f, content, at, rest)
			good := k.st.holds(EqI(ln, rest)) && want != nil && k.st.f.seqEqual(k.st.sliceContent(arg), want)
			if e.dry == 0 {
				c.check(good, "stream-order:DecodeAll", k.pos(), "each message is decoded from where the previous one ended", "argument "+arg.String(), "expected offset "+fmt.Sprint(at), factsText(k.st))
				c.check(k.st.ghost["pend"] == nil, "stream-keep:DecodeAll", k.pos(), "every decoded message is kept before the next one is decoded")
			}
			res := k.sig.Results()
			ct := structOf(res.At(0).Type())
			r := I(Sym("read:"+k.site, types.Typ[types.Uint64]))
			m := Sym("msg:"+k.site, res.At(0).Type())
			mk0 := func(msg *Term) *Term {
				var fs []*Term
				for i := 0; i < ct.NumFields(); i++ {
					switch ct.Field(i).Name() {
					case "Msg":
						fs = append(fs, msg)
					case "Read":
						fs = append(fs, r)
					default:
						fs = append(fs, zeroValue(ct.Field(i).Type()))
					}
				}
				return mk(KStruct, "", 0, res.At(0).Type(), nil, fs...)
			}
			good1 := k.st.clone()
			good1.learn(Le(IntC(4), r))
			good1.learn(Le(r, ln))
			good1.learn(Not(EqT(m, TNil)))
			good1.mem[off] = Add(at, r)
			good1.mem[acc] = Add(k.st.mem[acc], r)
			good1.ghost["pend"] = m
			bad := k.st.clone()
			bad.learn(Le(IntC(4), r))
			bad.learn(Le(r, AddC(ln, 16)))
			bad.mem[off] = Add(at, r)
			return []Res{{st: good1, vals: []*Term{mk0(m), TNil}}, {st: bad, vals: []*Term{mk0(TNil), k.newErr("decode")}}}, true
		},
	}
	e.hooks.onAppend = func(fr *Frame, st *State, in ssaInstr, s *Term, elems []*Term, res *Term) {
		if res != nil || len(elems) != 1 {
			return
		}
		p := st.ghost["pend"]
		if e.dry == 0 {
			c.check(p != nil && st.f.find(elems[0]) == st.f.find(p), "stream-append:DecodeAll", e.pos(in), "only the message just decoded is added to the result", "appended "+elems[0].String())
		}
		delete(st.ghost, "pend")
		st.mem[cnt] = AddC(st.mem[cnt], 1)
	}
	for _, o := range e.Run(st, f, []*Term{data}, nil) {
		if o.panic != nil {
			continue
		}
		c.check(o.st.holds(Le(n, o.st.mem[off])), "stream-end:DecodeAll", where, "the whole buffer is looked at", factsText(o.st))
		c.check(o.st.ghost["pend"] == nil, "stream-keep:DecodeAll", where, "every decoded message is kept")
		msgs := resField(o.st, o.vals[0], rt, "Msgs")
		c.check(o.st.holds(EqI(o.st.lenOf(msgs, resFieldType(rt, "Msgs")), o.st.mem[cnt])), "stream-result:DecodeAll", where, "the result has exactly the messages that were decoded", "result "+msgs.String(), factsText(o.st))
		read := resField(o.st, o.vals[0], rt, "Read")
		c.check(o.st.holds(EqI(read, o.st.mem[acc])), "stream-read:DecodeAll", where, "the number of bytes reported is what the accepted messages took", "reported "+read.String(), "accepted "+fmt.Sprint(o.st.mem[acc]), factsText(o.st))
	}
	c.done(e, "stream")
}

// ------------------------------------------------------------ ownership

// reach collects the array objects reachable from a value.
func reach(st *State, v *Term, seen map[*Term]bool, f func(base *Term)) {
	v = st.f.find(v)
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	switch v.k {
	case KSlice:
		f(v.args[0])
		reach(st, v.args[0], seen, f)
	case KStruct, KTuple, KIface, KFn:
		for _, a := range v.args {
			reach(st, a, seen, f)
		}
	case KPtr, KGlob, KFld, KElem:
		root := rootOf(v)
		for _, k := range sortedCells(st) {
			if rootOf(k) == root {
				reach(st, st.mem[k], seen, f)
			}
		}
	case KSym, KLoad, KApp:
		f(mk(KArr, "", 0, nil, nil, v))
	}
}

func sortedCells(st *State) []*Term {
	var r []*Term
	for k := range st.mem {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func runC06(c *Ctx) {
	const dec = "gotor/p2p.Decode"
	c.guard("decode-own", "ownership of decoded messages", func() {
		e := c.exec(dec)
		f := c.anchor(dec)
		rt := f.Signature.Results().At(0).Type()
		st := c.state()
		data := opaqueValue(Sym("arg:data", f.Params[0].Type()), f.Params[0].Type())
		base0, _, _, _ := parts(data)
		st.learn(Le(st.lenOf(data, f.Params[0].Type()), IntC(1<<36)))
		before := st.sliceContent(data)
		for _, o := range e.Run(st, f, []*Term{data}, nil) {
			if o.panic != nil || !o.st.isNil(o.vals[1]) {
				continue
			}
			msg := o.st.f.find(resField(o.st, o.vals[0], rt, "Msg"))
			tn := msg.String()
			if msg.k == KIface {
				tn = strings.TrimPrefix(msg.typ.String(), "*gotor/p2p.")
			}
			shared := ""
			reach(o.st, msg, map[*Term]bool{}, func(b *Term) {
				if b == base0 {
					shared = b.String()
				}
			})
			c.check(shared == "", "decode-own:"+tn, c.funcPos(dec), "a decoded "+tn+" keeps no reference to the buffer it was decoded from", "shares "+shared)
			c.check(o.st.f.seqEqual(o.st.sliceContent(data), before), "decode-readonly:"+tn, c.funcPos(dec), "decoding does not change the buffer")
		}
		c.done(e, "decode-own")
	})
	// no two decoded messages share state that a handler writes: the objects
	// reached from a decoded message are made by that call
	c.guard("decode-fresh", "decoded messages are new objects", func() {
		e := c.exec(dec)
		f := c.anchor(dec)
		rt := f.Signature.Results().At(0).Type()
		st := c.state()
		data := opaqueValue(Sym("arg:data", f.Params[0].Type()), f.Params[0].Type())
		st.learn(Le(st.lenOf(data, f.Params[0].Type()), IntC(1<<36)))
		for _, o := range e.Run(st, f, []*Term{data}, nil) {
			if o.panic != nil || !o.st.isNil(o.vals[1]) {
				continue
			}
			msg := o.st.f.find(resField(o.st, o.vals[0], rt, "Msg"))
			if msg.k != KIface {
				c.fail("decode-fresh:?", c.funcPos(dec), "a decoded message has a known type", msg.String())
				continue
			}
			tn := strings.TrimPrefix(msg.typ.String(), "*gotor/p2p.")
			p := o.st.f.find(msg.args[0])
			if tn == "MsgKeepAlive" {
				continue // carries no data
			}
			c.check(isFresh(rootOf(p)), "decode-fresh:"+tn, c.funcPos(dec), "each decoded "+tn+" is an object of its own", p.String())
		}
		c.done(e, "decode-fresh")
	})
}

func init() {
	register(&Prop{id: "C04", title: "Every outgoing message has the exact BEP 3 byte layout",
		rule: "Abstract interpretation of every message constructor followed by Encode, with unconstrained field values: the abstract byte sequence returned must equal the BEP 3 sequence for those fields on every path; likewise for type, length and accessors.",
		min:  map[string]int{"wire-form": 9, "accessor": 7, "message-type": 8}, run: runC04,
		assume: []string{"a piece block or bitfield is shorter than 2^32-16 bytes, the most the length prefix can announce"}})
	register(&Prop{id: "C05", title: "Decoding inverts the wire format exactly",
		rule: "Abstract interpretation of Decode on unconstrained bytes and on each well-formed message shape: acceptance, type, consumed length, and equality of the re-encoded sequence with the input; relational loop invariant for DecodeAll.",
		min:  map[string]int{"accept": 9, "roundtrip": 9, "sound": 9, "stream-order": 1, "stream-append": 1, "stream-end": 1, "stream-read": 1}, run: runC05,
		assume: []string{"a buffer is shorter than 64 GiB"}})
	register(&Prop{id: "C06", title: "Decoded messages own their data",
		rule: "Points-to over the abstract heap after Decode: no slice reachable from a returned message has the input buffer as backing array.",
		min:  map[string]int{"decode-own": 9, "decode-fresh": 8}, run: runC06})
	_ = ssa.BuilderMode(0)
}

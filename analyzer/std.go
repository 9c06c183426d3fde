package main

// Models of the standard library functions the repository uses (and a few a
// maintainer would reach for). Everything else: unknownCall.

import (
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Model func(c *Call) []Res

func stdModel(name string) Model {
	if m, ok := std[name]; ok {
		return m
	}
	return nil
}

func nop(c *Call) []Res {
	var vals []*Term
	for i, t := range resultTypes(c.sig) {
		vals = append(vals, c.fresh("r"+strconv.Itoa(i), t))
	}
	return c.ret(vals...)
}

// pure: an uninterpreted function of its arguments.
func pure(tag string) Model {
	return func(c *Call) []Res {
		t := c.sig.Results().At(0).Type()
		var as []*Term
		for _, a := range c.args {
			as = append(as, c.e.valueOf(c.st, a))
		}
		return c.ret(opaqueValue(App(tag, t, as...), t))
	}
}

// valueOf replaces byte slices by their content.
func (e *Exec) valueOf(st *State, a *Term) *Term {
	a = st.f.find(a)
	if a.k == KSlice {
		if a.args[0].k == KPtr && isByte(objs[a.args[0].n].typ) {
			return st.sliceContent(a)
		}
	}
	return a
}

func newErrModel(c *Call) []Res { return c.ret(c.newErr("new")) }

func newPtrModel(c *Call) []Res {
	t := c.sig.Results().At(0).Type()
	v := c.fresh("new", t)
	c.st.learn(Not(EqT(v, TNil)))
	return c.ret(v)
}

// okErr: (values..., error) or (error): forks, non-nil pointers on success.
func okErr(c *Call) []Res {
	rt := resultTypes(c.sig)
	return c.valErr(func(st *State) []*Term {
		var vs []*Term
		for i, t := range rt[:len(rt)-1] {
			v := c.fresh("r"+strconv.Itoa(i), t)
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Interface:
				st.learn(Not(EqT(v, TNil)))
			}
			vs = append(vs, v)
		}
		return vs
	})
}

func sbCell(a *Term) *Term { return App("gh:sb", nil, a) }

func (s *State) sbGet(a *Term) *Term {
	if v, ok := s.mem[sbCell(a)]; ok {
		return asSeq(v)
	}
	r := rootOf(a)
	if isFresh(r) && s.ep["O:"+strconv.FormatInt(r.n, 10)] == "" {
		return Seq()
	}
	return asSeq(Sym("sb:"+strconv.Itoa(a.id)+s.ep["*"], types.Typ[types.String]))
}

func (s *State) sbAdd(a, x *Term) {
	s.mem[sbCell(a)] = Seq(s.sbGet(a), x)
	addrTyp[sbCell(a)] = nil
}

func sbWrite(conv func(c *Call) *Term, nres int) Model {
	return func(c *Call) []Res {
		x := conv(c)
		c.st.sbAdd(c.args[0], x)
		switch nres {
		case 1:
			return c.ret(TNil)
		case 2:
			return c.ret(seqLen(x), TNil)
		}
		return c.ret()
	}
}

func argBytes(c *Call) *Term { return c.st.sliceContent(c.args[1]) }
func argStr(c *Call) *Term   { return c.st.strSeq(c.args[1]) }
func argByte(c *Call) *Term  { return Seq(mkByte(I(c.args[1]))) }

// freshBytes allocates a byte slice with a content.
func (c *Call) freshBytes(sub string, content *Term) *Term {
	n := seqLen(content)
	t := newObj(c.site+sub, &objInfo{typ: byteType, kind: "array", capT: n, pos: c.pos(), site: c.site})
	c.st.cnt["obj:"+strconv.FormatInt(t.n, 10)] = 1
	c.e.clearObj(c.st, t)
	c.st.mem[mk(KBArr, "", 0, nil, nil, t)] = content
	return mkSlice(t, IntC(0), n, n)
}

func binGet(n int, little bool) Model {
	return func(c *Call) []Res {
		b, o, l, _ := parts(c.st.f.find(c.args[1]))
		rs, ok := c.need("binary read of "+strconv.Itoa(n)+" bytes", Le(IntC(int64(n)), l))
		if !ok {
			return rs
		}
		v := IntC(0)
		for i := 0; i < n; i++ {
			x := c.st.load(mk(KElem, "", 0, nil, nil, b, AddC(o, int64(i))), byteType)
			sh := 8 * (n - 1 - i)
			if little {
				sh = 8 * i
			}
			v = Add(v, MulB(I(x), new(big.Int).Lsh(bigOne, uint(sh))))
		}
		return append(rs, c.ret(v)...)
	}
}

func beBytes(v *Term, n int, little bool) *Term {
	var segs []*Term
	for i := 0; i < n; i++ {
		k := n - 1 - i
		if little {
			k = i
		}
		segs = append(segs, mkByte(ByteOf(I(v), n, k)))
	}
	return Seq(segs...)
}

func binPut(n int, little bool) Model {
	return func(c *Call) []Res {
		b, o, l, _ := parts(c.st.f.find(c.args[1]))
		rs, ok := c.need("binary write of "+strconv.Itoa(n)+" bytes", Le(IntC(int64(n)), l))
		if !ok {
			return rs
		}
		x := beBytes(c.args[2], n, little)
		if c.e.hooks.onStore != nil && c.e.dry == 0 {
			c.e.hooks.onStore(c.fr, c.st, c.instr, mk(KElem, "", 0, nil, nil, b, o), x)
		}
		c.st.writeBytes(b, o, x)
		return append(rs, c.ret()...)
	}
}

func binAppend(n int) Model {
	return func(c *Call) []Res {
		s := c.st.f.find(c.args[1])
		x := beBytes(c.args[2], n, false)
		return c.ret(c.freshBytes("", Seq(c.st.sliceContent(s), x)))
	}
}

// fillSlice makes the bytes of a slice unknown: its content becomes src.
func (c *Call) fillSlice(s *Term, tag string) *Term {
	b, o, l, _ := parts(c.st.f.find(s))
	src := Sym(tag+":"+c.site, nil)
	if b.k != KNil {
		if c.e.hooks.onStore != nil && c.e.dry == 0 {
			c.e.hooks.onStore(c.fr, c.st, c.instr, mk(KElem, "", 0, nil, nil, b, o), Seq(mkSub(src, IntC(0), l)))
		}
		c.st.writeBytes(b, o, Seq(mkSub(src, IntC(0), l)))
	}
	return src
}

func hashWrite(c *Call) []Res {
	x := c.st.sliceContent(c.args[1])
	c.st.sbAdd(c.st.f.find(c.args[0]), x)
	return c.ret(seqLen(x), TNil)
}

// readLike: n, err := r.Read(buf); full: err == nil exactly when n == len(buf).
func readLike(buf int, full, write bool) Model {
	return func(c *Call) []Res {
		_, _, l, _ := parts(c.st.f.find(c.args[buf]))
		n := I(Sym("n:"+c.site, lenType))
		good, bad := *c, *c
		good.st, bad.st = c.st.clone(), c.st.clone()
		if !write {
			good.fillSlice(c.args[buf], "read")
			bad.fillSlice(c.args[buf], "readbad")
		}
		var rs []Res
		gn := n
		if full {
			gn = l
		} else {
			good.st.learn(Ge0(n))
			good.st.learn(Le(n, l))
		}
		rs = append(rs, Res{st: good.st, vals: []*Term{gn, TNil}})
		ok := bad.st.learn(Ge0(n)) && bad.st.learn(Le(n, l))
		if full && !write {
			ok = ok && bad.st.learn(Lt(n, l))
		}
		if ok {
			rs = append(rs, Res{st: bad.st, vals: []*Term{n, c.newErr("io")}})
		}
		return rs
	}
}

func lockModel(c *Call) []Res {
	c.st.havocHeap("L"+strconv.Itoa(mkLit(c.site).id)+".", nil)
	return c.ret()
}

// sprintf renders a literal format when it understands it.
func (c *Call) sprintf(format *Term, args *Term) *Term {
	f, ok := seqLit(c.st.strSeq(format))
	if !ok {
		return nil
	}
	vals := c.variadic(args)
	if vals == nil && strings.Contains(f, "%") {
		return nil
	}
	var segs []*Term
	ai := 0
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		if i+1 >= len(f) {
			return nil
		}
		i++
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if ai >= len(vals) {
			return nil
		}
		x := c.render(vals[ai], f[i])
		ai++
		if x == nil {
			return nil
		}
		segs = append(segs, mkLit(lit))
		lit = ""
		segs = append(segs, x)
	}
	segs = append(segs, mkLit(lit))
	return Seq(segs...)
}

func (c *Call) render(v *Term, verb byte) *Term {
	v = c.st.f.find(v)
	if v.k != KIface {
		return nil
	}
	t := v.typ
	if ms := c.e.pg.prog.MethodSets.MethodSet(t); ms.Len() > 0 {
		return nil
	}
	switch {
	case intType(t) && (verb == 'd' || verb == 'v'):
		return mkDec(I(v.args[0]))
	case isString(t) && (verb == 's' || verb == 'v'):
		return c.st.strSeq(v.args[0])
	case isByteSlice(t) && verb == 's':
		return c.st.sliceContent(v.args[0])
	}
	return nil
}

func mkDec(v *Term) *Term {
	if x, ok := I(v).constInt(); ok {
		return mkLit(x.String())
	}
	return mk(SDec, "", 0, nil, nil, I(v))
}

// variadic lists the elements of a variadic slice built at the call.
func (c *Call) variadic(s *Term) []*Term {
	s = c.st.f.find(s)
	b, o, l, _ := parts(s)
	n, ok := l.constI64()
	if !ok || n > 16 {
		return nil
	}
	vs := []*Term{}
	for i := int64(0); i < n; i++ {
		vs = append(vs, c.st.load(mk(KElem, "", 0, nil, nil, b, AddC(o, i)), types.Universe.Lookup("any").Type()))
	}
	return vs
}

func sprintfModel(c *Call) []Res {
	if s := c.sprintf(c.args[0], c.args[1]); s != nil {
		return c.ret(s)
	}
	return c.ret(asSeq(Sym("sprintf:"+c.site, types.Typ[types.String])))
}

func sprintModel(c *Call) []Res {
	vals := c.variadic(c.args[0])
	if len(vals) == 1 {
		if x := c.render(vals[0], 'v'); x != nil {
			return c.ret(Seq(x))
		}
	}
	return c.ret(asSeq(Sym("sprint:"+c.site, types.Typ[types.String])))
}

func strRes(c *Call) []Res { return c.ret(asSeq(Sym("str:"+c.site, types.Typ[types.String]))) }

func joinModel(c *Call) []Res {
	vals := c.variadicT(c.args[0], types.Typ[types.String])
	if vals == nil {
		return c.ret(asSeq(App("pathjoin", types.Typ[types.String], c.args[0])))
	}
	var as []*Term
	for _, v := range vals {
		if l, ok := seqLit(c.st.strSeq(v)); ok && l == "" {
			continue // Join ignores empty names
		}
		as = append(as, asSeq(v))
	}
	if len(as) == 0 {
		return c.ret(mkSeqLit(""))
	}
	return c.ret(asSeq(App("pathjoin", types.Typ[types.String], as...)))
}

func (c *Call) variadicT(s *Term, t types.Type) []*Term {
	s = c.st.f.find(s)
	b, o, l, _ := parts(s)
	n, ok := l.constI64()
	if !ok || n > 16 {
		return nil
	}
	vs := []*Term{}
	for i := int64(0); i < n; i++ {
		vs = append(vs, c.st.load(mk(KElem, "", 0, nil, nil, b, AddC(o, i)), t))
	}
	return vs
}

func parseModel(tag string) Model {
	return func(c *Call) []Res {
		t := c.sig.Results().At(0).Type()
		return c.valErr(func(st *State) []*Term {
			return []*Term{opaqueValue(App(tag, t, st.strSeq(c.args[0])), t)}
		})
	}
}

func fmin(max bool) Model {
	return func(c *Call) []Res {
		a, b := c.args[0], c.args[1]
		if a.k == KFloat && a.s == "i2f" && b.k == KFloat && b.s == "i2f" {
			var rs []Res
			x, y := a.args[0], b.args[0]
			if max {
				x, y = y, x
			}
			if s := c.st.with(Le(x, y)); s != nil {
				rs = append(rs, Res{st: s.clone(), vals: []*Term{a}})
			}
			if s := c.st.with(Lt(y, x)); s != nil {
				rs = append(rs, Res{st: s.clone(), vals: []*Term{b}})
			}
			return rs
		}
		return c.ret(mk(KFloat, "minmax", 0, nil, nil, a, b))
	}
}

var std map[string]Model

// popcount of a byte is the sum of its bits
func popcount(c *Call) []Res {
	x := I(c.args[0])
	n := 8
	if !c.st.holds(Lt(x, IntC(256))) || !c.st.holds(Ge0(x)) {
		return pure("popcount")(c)
	}
	r := IntC(0)
	for k := 0; k < n; k++ {
		r = Add(r, bitOf(c.st, x, IntC(int64(k))))
	}
	return c.ret(r)
}

func init() {
	std = map[string]Model{
		"math/bits.OnesCount8": popcount, "math/bits.OnesCount16": popcount, "math/bits.OnesCount32": popcount, "math/bits.OnesCount64": popcount, "math/bits.OnesCount": popcount,
		"fmt.Errorf": newErrModel, "errors.New": newErrModel,
		"fmt.Sprintf": sprintfModel, "fmt.Sprint": sprintModel, "fmt.Sprintln": strRes,
		"fmt.Printf": nop, "fmt.Println": nop, "fmt.Print": nop, "fmt.Fprintf": nop, "fmt.Fprintln": nop,
		"log.Printf": nop, "log.Println": nop, "log.Print": nop,
		"errors.Is":     pure("errors.Is"),
		"(error).Error": strRes,

		"(*strings.Builder).WriteString": sbWrite(argStr, 2),
		"(*strings.Builder).WriteByte":   sbWrite(argByte, 1),
		"(*strings.Builder).Write":       sbWrite(argBytes, 2),
		"(*strings.Builder).Grow":        nop,
		"(*strings.Builder).Len":         func(c *Call) []Res { return c.ret(seqLen(c.st.sbGet(c.args[0]))) },
		"(*strings.Builder).String":      func(c *Call) []Res { return c.ret(c.st.sbGet(c.args[0])) },
		"(*bytes.Buffer).WriteString":    sbWrite(argStr, 2),
		"(*bytes.Buffer).WriteByte":      sbWrite(argByte, 1),
		"(*bytes.Buffer).Write":          sbWrite(argBytes, 2),
		"(*bytes.Buffer).Grow":           nop,
		"(*bytes.Buffer).Len":            func(c *Call) []Res { return c.ret(seqLen(c.st.sbGet(c.args[0]))) },
		"(*bytes.Buffer).String":         func(c *Call) []Res { return c.ret(c.st.sbGet(c.args[0])) },
		"(*bytes.Buffer).Bytes":          func(c *Call) []Res { return c.ret(c.freshBytes("", c.st.sbGet(c.args[0]))) },

		"(encoding/binary.bigEndian).Uint16": binGet(2, false), "(encoding/binary.bigEndian).Uint32": binGet(4, false), "(encoding/binary.bigEndian).Uint64": binGet(8, false),
		"(encoding/binary.littleEndian).Uint16": binGet(2, true), "(encoding/binary.littleEndian).Uint32": binGet(4, true), "(encoding/binary.littleEndian).Uint64": binGet(8, true),
		"(encoding/binary.bigEndian).PutUint16": binPut(2, false), "(encoding/binary.bigEndian).PutUint32": binPut(4, false), "(encoding/binary.bigEndian).PutUint64": binPut(8, false),
		"(encoding/binary.littleEndian).PutUint16": binPut(2, true), "(encoding/binary.littleEndian).PutUint32": binPut(4, true), "(encoding/binary.littleEndian).PutUint64": binPut(8, true),
		"(encoding/binary.bigEndian).AppendUint16": binAppend(2), "(encoding/binary.bigEndian).AppendUint32": binAppend(4), "(encoding/binary.bigEndian).AppendUint64": binAppend(8),

		"io.ReadFull":      readLike(1, true, false),
		"io.ReadAtLeast":   readLike(1, false, false),
		"(io.Reader).Read": readLike(1, false, false),
		"(net.Conn).Read":  readLike(1, false, false),
		"(net.Conn).Write": readLike(1, true, true),
		"(io.Writer).Write": func(c *Call) []Res {
			if _, ok := c.st.mem[sbCell(c.st.f.find(c.args[0]))]; ok {
				return hashWrite(c) // never fails
			}
			return readLike(1, true, true)(c)
		},
		"(*os.File).Read":     readLike(1, false, false),
		"(*os.File).ReadAt":   readLike(1, true, false),
		"(*os.File).Write":    readLike(1, true, true),
		"(*os.File).WriteAt":  readLike(1, true, true),
		"(net.Conn).Close":    okErr0,
		"(io.Closer).Close":   okErr0,
		"(*os.File).Close":    okErr0,
		"(*os.File).Truncate": okErr0,
		"(*os.File).Sync":     okErr0,
		"(*os.File).Seek":     okErr,
		"(*os.File).Stat":     okErr,
		"(io/fs.FileInfo).Size": func(c *Call) []Res {
			t := c.sig.Results().At(0).Type()
			v := I(App("fsize", t, c.args[0]))
			c.st.learn(Ge0(v))
			return c.ret(v)
		},
		"(net.Conn).RemoteAddr":       newIfaceModel,
		"(net.Conn).SetReadDeadline":  okErr0,
		"(net.Conn).SetDeadline":      okErr0,
		"(net.Conn).SetWriteDeadline": okErr0,
		"(net.Addr).String":           strRes,
		"os.Open":                     okErr, "os.OpenFile": okErr, "os.Create": okErr,
		"os.MkdirAll": okErr0, "os.Mkdir": okErr0, "os.Remove": okErr0, "os.RemoveAll": okErr0, "os.Rename": okErr0,
		"os.Stat": okErr, "os.IsNotExist": pure("os.IsNotExist"), "os.IsExist": pure("os.IsExist"),
		"os.ReadFile": okBytes, "io.ReadAll": okBytes, "io/ioutil.ReadAll": okBytes, "io/ioutil.ReadFile": okBytes,
		"os.Getwd":  okErr,
		"os.Exit":   func(c *Call) []Res { return nil },
		"log.Fatal": func(c *Call) []Res { return nil }, "log.Fatalf": func(c *Call) []Res { return nil }, "log.Fatalln": func(c *Call) []Res { return nil },

		"(*sync.Mutex).Lock": lockModel, "(*sync.RWMutex).Lock": lockModel, "(*sync.RWMutex).RLock": lockModel,
		"(*sync.Mutex).Unlock": nop, "(*sync.RWMutex).Unlock": nop, "(*sync.RWMutex).RUnlock": nop,
		"(*sync.Mutex).TryLock": nop,
		"(*sync.WaitGroup).Add": nop, "(*sync.WaitGroup).Done": nop, "(*sync.WaitGroup).Wait": nop,
		"(*sync.Once).Do": func(c *Call) []Res {
			// an object of our own has run what the path says that it has run
			once := ""
			if o := c.st.f.find(c.args[0]); isFresh(rootOf(o)) {
				once = "once:" + strconv.Itoa(o.id)
				if c.st.ghost[once] != nil {
					return c.ret()
				}
				c.st.ghost[once] = TTrue
			}
			skip := c.st.clone()
			f := c.st.f.find(c.args[1])
			if f.k != KFn {
				return unknownCall(c)
			}
			rs := c.e.callFn(c.fr, &D{st: c.st.clone(), env: c.d.env}, f.obj.(*ssa.Function), nil, f.args, c.instr, c.sig, nil)
			out := []Res{{st: skip}}
			if once != "" {
				out = nil
			}
			for _, r := range rs {
				out = append(out, Res{st: r.st, panic: r.panic})
			}
			return out
		},
		"sync/atomic.AddInt64": func(c *Call) []Res {
			return c.ret(I(Sym("atomic:"+c.site, c.sig.Results().At(0).Type())))
		},
		"sync/atomic.LoadInt64": nop, "sync/atomic.LoadInt32": nop, "sync/atomic.LoadUint64": nop,
		"sync/atomic.StoreInt64": nop, "sync/atomic.StoreInt32": nop, "sync/atomic.StoreUint64": nop,
		"sync/atomic.AddInt32": nop, "sync/atomic.AddUint64": nop, "sync/atomic.CompareAndSwapInt64": nop, "sync/atomic.SwapInt64": nop,

		"time.Now": nop, "time.Sleep": nop, "time.Unix": nop, "time.Since": nop, "(time.Time).Add": nop, "(time.Time).UnixNano": nop, "time.After": nop,
		"(*time.Ticker).Stop": nop, "(time.Time).Sub": nop,
		"time.NewTicker": func(c *Call) []Res {
			rs, ok := c.need("ticker interval must be positive", Ge0(AddC(I(c.args[0]), -1)))
			if !ok {
				return rs
			}
			return append(rs, newPtrModel(c)...)
		},
		"time.NewTimer": newPtrModel,

		"strconv.Atoi": parseModel("atoi"), "strconv.ParseInt": parseModel("parseint"), "strconv.ParseUint": parseModel("parseuint"), "strconv.ParseFloat": okErr,
		"strconv.Itoa":      func(c *Call) []Res { return c.ret(Seq(mkDec(c.args[0]))) },
		"strconv.FormatInt": fmtInt, "strconv.FormatUint": fmtInt,
		"strconv.Quote": pureStr("quote"),

		"strings.Split": func(c *Call) []Res {
			v := App("split", c.sig.Results().At(0).Type(), c.st.strSeq(c.args[0]), c.st.strSeq(c.args[1]))
			c.st.learn(Ge0(AddC(I(App("len", lenType, v)), -1)))
			return c.ret(v)
		},
		"strings.ContainsAny": pure("strings.ContainsAny"), "strings.Contains": pure("strings.Contains"), "strings.HasPrefix": pure("strings.HasPrefix"), "strings.HasSuffix": pure("strings.HasSuffix"),
		"strings.IndexByte": pure("strings.IndexByte"), "strings.Index": pure("strings.Index"), "strings.ContainsRune": pure("strings.ContainsRune"), "strings.IndexAny": pure("strings.IndexAny"),
		"strings.ToUpper": pureStr("upper"), "strings.ToLower": pureStr("lower"), "strings.TrimSpace": pureStr("trim"), "strings.Repeat": pureStr("repeat"),
		"strings.Join": joinStr,
		"bytes.Equal": func(c *Call) []Res {
			return c.ret(EqT(c.st.sliceContent(c.args[0]), c.st.sliceContent(c.args[1])))
		},
		"bytes.Compare": nop,
		"sort.Strings": func(c *Call) []Res {
			b, _, _, _ := parts(c.st.f.find(c.args[0]))
			c.st.bumpObj(b, "s")
			return c.ret()
		},
		"math.Min": fmin(false), "math.Max": fmin(true),
		"math.Ceil": fceil(true), "math.Floor": fceil(false),

		"crypto/sha1.New": func(c *Call) []Res {
			v := Sym("sha1h:"+c.site, c.sig.Results().At(0).Type())
			c.st.mem[sbCell(v)] = Seq()
			c.st.learn(Not(EqT(v, TNil)))
			return c.ret(v)
		},
		"(hash.Hash).Write": hashWrite,
		"(hash.Hash).Sum": func(c *Call) []Res {
			h := Seq(mkSub(App("sha1", types.Typ[types.String], c.st.sbGet(c.args[0])), IntC(0), IntC(20)))
			pre := c.st.sliceContent(c.args[1])
			return c.ret(c.freshBytes("", Seq(pre, h)))
		},
		"(hash.Hash).Reset": func(c *Call) []Res { c.st.mem[sbCell(c.args[0])] = Seq(); return c.ret() },
		"(hash.Hash).Size":  func(c *Call) []Res { return c.ret(IntC(20)) },
		"crypto/sha1.Sum": func(c *Call) []Res {
			return c.ret(arrVal(Seq(mkSub(App("sha1", types.Typ[types.String], c.st.sliceContent(c.args[0])), IntC(0), IntC(20))), c.sig.Results().At(0).Type()))
		},
		"encoding/hex.EncodeToString": pureStr("hex"),

		"path/filepath.Join": joinModel, "path.Join": joinModel,
		"path/filepath.Dir": pureStr("dir"), "path/filepath.Base": pureStr("base"), "path/filepath.Clean": pureStr("clean"),
		"path/filepath.IsLocal": pure("islocal"), "path/filepath.IsAbs": pure("isabs"),

		"net.IPv4": pure("ipv4"), "(net.IP).String": pureStr("ipstr"), "net.ParseIP": pure("parseip"), "(net.IP).To4": pure("to4"),
		"net.JoinHostPort": pureStr("hostport"),
		"net.Dial":         okErr, "net.DialTimeout": okErr, "net.Listen": okErr,
		"(net.Listener).Accept": okErr, "(net.Listener).Close": okErr0,
		"net/http.NewRequest": okErr, "(*net/http.Client).Do": okErr, "net/http.Get": okErr, "(*net/http.Client).Get": okErr,
		"net/url.QueryEscape": pureStr("urlescape"), "net/url.PathEscape": pureStr("pathescape"),
		"(*net/url.URL).Query": newMapModel, "(net/url.Values).Add": nop, "(net/url.Values).Set": nop, "(net/url.Values).Get": strRes, "(net/url.Values).Encode": strRes,
		"math/rand.NewSource": newIfaceModel, "(math/rand.Source).Int63": func(c *Call) []Res {
			v := c.fresh("rnd", c.sig.Results().At(0).Type())
			c.st.learn(Ge0(I(v)))
			return c.ret(v)
		},
		"flag.Parse": nop, "flag.String": newPtrModel, "flag.Uint": newPtrModel, "flag.Int": newPtrModel, "flag.Bool": newPtrModel,
		"(*testing.common).Error": nop, "(*testing.common).Fatal": nop,
	}
	for _, n := range []string{"Printf", "Println", "Print"} {
		std["(*log.Logger)."+n] = nop
	}
}

func okErr0(c *Call) []Res {
	return []Res{{st: c.st.clone(), vals: []*Term{TNil}}, {st: c.st.clone(), vals: []*Term{c.newErr("fail")}}}
}

func okBytes(c *Call) []Res {
	return c.valErr(func(st *State) []*Term {
		v := Sym("data:"+c.site, c.sig.Results().At(0).Type())
		return []*Term{v}
	})
}

func newIfaceModel(c *Call) []Res { return newPtrModel(c) }
func newMapModel(c *Call) []Res   { return newPtrModel(c) }

func fmtInt(c *Call) []Res {
	if b, ok := I(c.args[1]).constI64(); ok && b == 10 {
		return c.ret(Seq(mkDec(c.args[0])))
	}
	return strRes(c)
}

func pureStr(tag string) Model {
	return func(c *Call) []Res {
		var as []*Term
		for i, a := range c.args {
			pi := i - (len(c.args) - c.sig.Params().Len())
			if pi >= 0 && isString(c.sig.Params().At(pi).Type()) {
				a = c.st.strSeq(a)
			} else {
				a = c.e.valueOf(c.st, a)
			}
			as = append(as, a)
		}
		return c.ret(asSeq(App(tag, types.Typ[types.String], as...)))
	}
}

func joinStr(c *Call) []Res {
	vals := c.variadicT(c.args[0], types.Typ[types.String])
	if vals == nil {
		return c.ret(asSeq(App("strjoin", types.Typ[types.String], c.st.f.find(c.args[0]), c.st.strSeq(c.args[1]))))
	}
	r := Seq()
	for i, v := range vals {
		if i > 0 {
			r = Seq(r, c.st.strSeq(c.args[1]))
		}
		r = Seq(r, asSeq(v))
	}
	return c.ret(r)
}

// fceil understands ceil(i2f(a)/i2f(b)) for non-negative a and positive b.
func fceil(up bool) Model {
	return func(c *Call) []Res {
		x := c.args[0]
		if x.k == KFloat && x.s == "i2f" {
			return c.ret(x)
		}
		if x.k == KFloat && x.s == "/" {
			a, b := x.args[0], x.args[1]
			if a.k == KFloat && a.s == "i2f" && b.k == KFloat && b.s == "i2f" && c.st.holds(Ge0(a.args[0])) && c.st.holds(Ge0(AddC(b.args[0], -1))) {
				n := a.args[0]
				if up {
					n = Add(n, AddC(b.args[0], -1))
				}
				return c.ret(FloatOfInt(c.e.div(c.st, n, b.args[0], lenType)))
			}
		}
		return c.ret(mk(KFloat, "ceil", 0, nil, nil, x))
	}
}

package main

// Preconditions of standard library functions that panic when they are not met.

import (
	"go/types"
	"strings"
	"unicode"
)

// leastArg: functions that need an integer argument of at least this much.
var leastArg = map[string]struct{ arg, least int }{
	"strings.Repeat": {1, 0}, "bytes.Repeat": {1, 0},
	"(*strings.Builder).Grow": {1, 0}, "(*bytes.Buffer).Grow": {1, 0}, "(*bytes.Buffer).Truncate": {1, 0},
	"slices.Grow":    {1, 0},
	"math/rand.Intn": {0, 1}, "math/rand.Int63n": {0, 1}, "math/rand.Int31n": {0, 1},
	"(*math/rand.Rand).Intn": {1, 1}, "(*math/rand.Rand).Int63n": {1, 1}, "(*math/rand.Rand).Int31n": {1, 1},
	"(*time.Ticker).Reset": {1, 1},
}

// panicky: functions that panic for values that can't be told from here.
var panicky = map[string]bool{
	"(net/netip.Addr).As4": true, "(net/netip.Addr).Prefix": false,
	"container/ring.New": false,
}

// precondition is checked before a standard library function is called. It
// returns false when the call can't be survived.
func (c *Call) precondition() ([]Res, bool) {
	if p, ok := leastArg[c.name]; ok && p.arg < len(c.args) {
		return c.need(c.name+" needs an argument that is not too small", Ge0(AddC(I(c.args[p.arg]), int64(-p.least))))
	}
	base := c.name[strings.LastIndexByte(c.name, '.')+1:]
	must := len(base) > 4 && strings.HasPrefix(base, "Must") && unicode.IsUpper(rune(base[4]))
	if must {
		for _, a := range c.args {
			a = c.st.f.find(a)
			if _, ok := seqLit(c.st.strSeq(a)); !ok {
				return c.need(c.name+" panics for values it does not accept", Sym("accepted:"+c.site, types.Typ[types.Bool]))
			}
		}
	}
	if panicky[c.name] {
		return c.need(c.name+" panics for values it does not accept", Sym("accepted:"+c.site, types.Typ[types.Bool]))
	}
	return nil, true
}

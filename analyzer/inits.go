package main

// The state a root starts in: what the package initialisers leave in the
// globals that nothing writes afterwards.

import (
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

func isInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Name() == "init" || f.Synthetic == "package initializer"
}

// valOnlyRead: the contents of a slice, map or array value are only read.
func valOnlyRead(v ssa.Value) bool {
	switch v.Type().Underlying().(type) {
	case *types.Basic, *types.Signature:
		return true
	}
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef, *ssa.BinOp, *ssa.Index, *ssa.Field:
		case *ssa.IndexAddr:
			if !addrOnlyRead(x, map[ssa.Value]bool{}) {
				return false
			}
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// constGlobals are the globals that only their initialiser writes; deep when
// what they refer to is only read as well.
func (pg *Program) constGlobals() (whole, deep map[string]bool) {
	whole, deep = map[string]bool{}, map[string]bool{}
	bad, shallow := map[string]bool{}, map[string]bool{}
	for _, f := range pg.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || isInit(f) {
						continue
					}
					name := g.RelString(nil)
					switch x := in.(type) {
					case *ssa.UnOp:
						if !valOnlyRead(x) {
							shallow[name] = true
						}
					case *ssa.DebugRef:
					case *ssa.IndexAddr:
						if !addrOnlyRead(x, map[ssa.Value]bool{}) {
							bad[name] = true
						}
					default:
						bad[name] = true
					}
				}
			}
		}
	}
	for _, p := range pg.pkgs {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				n := g.RelString(nil)
				if !bad[n] {
					whole[n] = true
					if !shallow[n] {
						deep[n] = true
					}
				}
			}
		}
	}
	return
}

// state is the initial state of a root.
func (c *Ctx) state() *State {
	if c.init == nil {
		c.init = c.pg.initState()
	}
	return c.init.clone()
}

func (pg *Program) initState() *State {
	st := newState()
	whole, deep := pg.constGlobals()
	for _, p := range pg.pkgs {
		f := p.Func("init")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		e := &Exec{pg: pg, hooks: &Hooks{}, limit: 1000000, sc: 24, unres: map[string]bool{}, loopBad: map[string]bool{}}
		e.hooks.call = map[string]func(c *Call) ([]Res, bool){}
		for _, q := range pg.pkgs {
			if g := q.Func("init"); g != nil {
				e.hooks.call[fnName(g)] = func(c *Call) ([]Res, bool) { return c.ret(), true }
			}
		}
		var outs []Outcome
		func() {
			defer func() { recover() }()
			outs = e.Run(newState(), f, nil, nil)
		}()
		// the path on which the package is really initialised
		var o *Outcome
		n := 0
		for i := range outs {
			if outs[i].panic == nil && len(outs[i].st.mem) > 1 {
				o = &outs[i]
				n++
			}
		}
		if n != 1 {
			continue
		}
		kept := map[*Term]bool{}
		for k, v := range o.st.mem {
			root := rootOf(k)
			if root.k != KGlob {
				continue
			}
			if k == root {
				if whole[root.s] {
					st.mem[k] = v
					if deep[root.s] {
						b := v
						if v.k == KSlice {
							b = v.args[0]
						}
						if b.k == KPtr {
							kept[b] = true
						}
					}
				}
				continue
			}
			if k.k == KFld && immutableSig[sigOf(k, nil)] || deep[root.s] && whole[root.s] {
				st.mem[k] = v
			}
		}
		for k, v := range o.st.mem {
			r := rootOf(k)
			if k.k == KApp && len(k.args) > 0 {
				r = k.args[0]
			}
			if kept[r] {
				st.mem[k] = v
			}
		}
		for k, v := range o.st.ep {
			for r := range kept {
				id, n := strconv.Itoa(r.id), strconv.FormatInt(r.n, 10)
				if k == "B:"+id || k == "O:"+n || k == "M:"+id {
					st.ep[k] = v
				}
			}
		}
	}
	return st
}

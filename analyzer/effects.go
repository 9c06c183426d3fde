package main

// Effects over the static call graph: what a function may do, through the
// functions it calls or mentions.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// callees: the functions of the program that a function calls or mentions,
// and the names of the other calls it makes.
func (pg *Program) callees(f *ssa.Function) ([]*ssa.Function, []ssa.CallInstruction) {
	var fs []*ssa.Function
	var cs []ssa.CallInstruction
	seen := map[*ssa.Function]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				cs = append(cs, ci)
			}
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if g, ok := (*op).(*ssa.Function); ok && !seen[g] && pg.isRepo(g) {
					seen[g] = true
					fs = append(fs, g)
				}
				if mc, ok := (*op).(*ssa.MakeClosure); ok {
					if g, ok := mc.Fn.(*ssa.Function); ok && !seen[g] {
						seen[g] = true
						fs = append(fs, g)
					}
				}
			}
			// a call through an interface may be any method of the program
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
				for _, g := range pg.implementations(ci.Common()) {
					if !seen[g] {
						seen[g] = true
						fs = append(fs, g)
					}
				}
			}
		}
	}
	return fs, cs
}

// implementations: the methods of the program an interface call may reach.
func (pg *Program) implementations(c *ssa.CallCommon) []*ssa.Function {
	var r []*ssa.Function
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for _, t := range pg.implementers(it) {
		if f := pg.method(t, c.Method.Name()); f != nil && pg.isRepo(f) && len(f.Blocks) > 0 {
			r = append(r, f)
		}
	}
	return r
}

// reachable: everything that may run because the roots are called.
func (pg *Program) reachable(stop func(f *ssa.Function) bool, roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var todo []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && (stop == nil || !stop(f)) {
			seen[f] = true
			todo = append(todo, f)
		}
	}
	for _, f := range roots {
		add(f)
	}
	for len(todo) > 0 {
		f := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		fs, _ := pg.callees(f)
		for _, g := range fs {
			add(g)
		}
	}
	return seen
}

func callName(ci ssa.CallInstruction) string {
	c := ci.Common()
	if c.IsInvoke() {
		return "(" + c.Value.Type().String() + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin:" + b.Name()
	}
	return "dynamic"
}

package main

// Loading of /repo/src, per-function CFG facts (loop nest, liveness), lookup.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	sccOf  map[*ssa.Function]int
	wmemo  map[*ssa.Function]map[string]bool
	sites  map[*ssa.Function][]ssa.CallInstruction
	taken  map[*ssa.Function]bool
	dir    string
	prog   *ssa.Program
	pkgs   []*ssa.Package
	infos  map[*ssa.Function]*fnInfo
	ids    map[ssa.Instruction]string
	fset   *token.FileSet
	byName map[string]*ssa.Function
	impls  map[string][]types.Type // concrete types converted to an interface in the repo
	allFns []*ssa.Function
}

type wtoElem struct {
	block  *ssa.BasicBlock
	loop   []*wtoElem // body including the head, when this is a loop
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	wto         []*wtoElem
	live        map[*ssa.BasicBlock]map[ssa.Value]bool // live on entry (after phis)
	liveOut     map[*ssa.BasicBlock]map[ssa.Value]bool
	recovery    []*ssa.Defer
	irreducible bool
	after       map[ssa.Instruction]map[ssa.Value]bool
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Dir: dir, Mode: packages.LoadSyntax, Tests: false,
		Env: append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod -buildvcs=false", "GOWORK=off")}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("package %s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, ps := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	pg := &Program{dir: dir, prog: prog, infos: map[*ssa.Function]*fnInfo{}, ids: map[ssa.Instruction]string{}, fset: prog.Fset,
		byName: map[string]*ssa.Function{}, impls: map[string][]types.Type{}}
	for _, p := range ps {
		if p != nil {
			pg.pkgs = append(pg.pkgs, p)
		}
	}
	all := ssautil.AllFunctions(prog)
	var fns []*ssa.Function
	for f := range all {
		if len(f.Blocks) > 0 && pg.isRepo(f) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].RelString(nil) < fns[j].RelString(nil) })
	pg.allFns = fns
	for _, f := range fns {
		pg.byName[f.RelString(nil)] = f
		if o := f.Origin(); o != nil {
			pg.byName[o.RelString(nil)] = f
		}
	}
	pg.wmemo = map[*ssa.Function]map[string]bool{}
	pg.computeImpls()
	pg.computeImmutable()
	return pg, nil
}

func (pg *Program) isRepo(f *ssa.Function) bool {
	g := f
	for g.Parent() != nil {
		g = g.Parent()
	}
	if o := g.Origin(); o != nil {
		g = o
	}
	if g.Pkg != nil {
		return isRepoPkg(g.Pkg.Pkg.Path())
	}
	if g.Object() != nil && g.Object().Pkg() != nil {
		return isRepoPkg(g.Object().Pkg().Path())
	}
	// wrappers, thunks, bounds
	if g.Signature.Recv() != nil {
		return isRepoType(g.Signature.Recv().Type())
	}
	return false
}

func isRepoType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return isRepoPkg(n.Obj().Pkg().Path())
	}
	return false
}

func (pg *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := pg.fset.Position(p)
	f := ps.Filename
	if r, err := filepath.Rel(filepath.Dir(pg.dir), f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (pg *Program) instrID(in ssa.Instruction) string {
	if s, ok := pg.ids[in]; ok {
		return s
	}
	b := in.Block()
	for i, x := range b.Instrs {
		pg.ids[x] = strconv.Itoa(b.Index) + "." + strconv.Itoa(i)
	}
	return pg.ids[in]
}

// fn finds a function by its full name, e.g. "gotor/p2p.Decode" or
// "(*gotor/bf.Bitfield).Get".
func (pg *Program) fn(name string) *ssa.Function { return pg.byName[name] }

func (pg *Program) pkg(path string) *ssa.Package {
	for _, p := range pg.pkgs {
		if p.Pkg.Path() == path {
			return p
		}
	}
	return nil
}

func (pg *Program) namedType(pkg, name string) types.Type {
	p := pg.pkg(pkg)
	if p == nil {
		return nil
	}
	if o := p.Pkg.Scope().Lookup(name); o != nil {
		return o.Type()
	}
	return nil
}

// method finds the function implementing a method on a type (also promoted).
func (pg *Program) method(t types.Type, name string) *ssa.Function {
	ms := pg.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return pg.prog.MethodValue(ms.At(i))
		}
	}
	if _, ok := t.(*types.Pointer); !ok {
		return pg.method(types.NewPointer(t), name)
	}
	return nil
}

func (pg *Program) computeImpls() {
	seen := map[string]bool{}
	for _, f := range pg.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeInterface); ok {
					t := m.X.Type()
					k := shortType(t)
					if !seen[k] {
						seen[k] = true
						pg.impls["*"] = append(pg.impls["*"], t)
					}
				}
			}
		}
	}
	sort.Slice(pg.impls["*"], func(i, j int) bool { return shortType(pg.impls["*"][i]) < shortType(pg.impls["*"][j]) })
}

func (pg *Program) implementers(iface *types.Interface) []types.Type {
	var r []types.Type
	for _, t := range pg.impls["*"] {
		if types.Implements(t, iface) {
			r = append(r, t)
		}
	}
	return r
}

// computeImmutable finds the struct fields that are only written while their
// object is being built: through the allocation itself, in the function that
// allocates it.
func (pg *Program) computeImmutable() {
	mut := map[string]bool{}
	all := map[string]bool{}
	for _, p := range pg.pkgs {
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				if s := structOf(t.Type()); s != nil {
					for i := 0; i < s.NumFields(); i++ {
						all["F:"+shortType(t.Type())+"."+strconv.Itoa(i)] = true
					}
				}
			}
		}
	}
	var wholly func(t types.Type)
	wholly = func(t types.Type) {
		if s := structOf(t); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				mut["F:"+shortType(t)+"."+strconv.Itoa(i)] = true
				wholly(s.Field(i).Type())
			}
		}
	}
	for _, f := range pg.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && structOf(st.Val.Type()) != nil && !pg.fromAlloc(st.Addr, map[ssa.Value]bool{}) && !isInit(f) {
					wholly(st.Val.Type())
				}
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				key := "F:" + shortType(fa.X.Type().Underlying().(*types.Pointer).Elem()) + "." + strconv.Itoa(fa.Field)
				if !addrOnlyRead(fa, map[ssa.Value]bool{}) && !pg.fromAlloc(fa.X, map[ssa.Value]bool{}) && !(isInit(f) && fromGlobal(fa.X)) {
					mut[key] = true
				}
			}
		}
	}
	whole, _ := pg.constGlobals()
	for g := range whole {
		immutableSig["G:"+g] = true
	}
	for k := range all {
		if !mut[k] {
			immutableSig[k] = true
		}
	}
}

func (pg *Program) fromAlloc(v ssa.Value, seen map[ssa.Value]bool) bool {
	if _, ok := v.(*ssa.Alloc); ok {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		// a variable that only ever points to objects that are being made
		if x.Op == token.MUL {
			return pg.onlyMade(x.X, seen)
		}
	case *ssa.Phi:
		for _, y := range x.Edges {
			if k, ok := y.(*ssa.Const); !(ok && k.IsNil()) && !pg.fromAlloc(y, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		return pg.returnsMade(x, 0, seen)
	case *ssa.Extract:
		if k, ok := x.Tuple.(*ssa.Call); ok {
			return pg.returnsMade(k, x.Index, seen)
		}
	case *ssa.FieldAddr:
		return pg.fromAlloc(x.X, seen)
	case *ssa.IndexAddr:
		return pg.fromAlloc(x.X, seen)
	case *ssa.Parameter:
		// a helper that is only called on objects that are being made
		f := x.Parent()
		if o, ok := f.Object().(*types.Func); !ok || o.Exported() {
			return false
		}
		i := -1
		for j, p := range f.Params {
			if p == x {
				i = j
			}
		}
		sites := pg.callSites()[f]
		if len(sites) == 0 || pg.taken[f] {
			return false
		}
		for _, s := range sites {
			if _, ok := s.(*ssa.Call); !ok || !pg.fromAlloc(s.Common().Args[i], seen) {
				return false
			}
		}
		return true
	}
	return false
}

// returnsMade: every result of the call is an object that the callee made.
func (pg *Program) returnsMade(k *ssa.Call, i int, seen map[ssa.Value]bool) bool {
	f := k.Common().StaticCallee()
	// an exported constructor hands out a finished object
	if f == nil || len(f.Blocks) == 0 || !pg.isRepo(f) || token.IsExported(f.Name()) {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Go); ok {
				return false
			}
		}
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		n++
		if c, ok := r.Results[i].(*ssa.Const); !(ok && c.IsNil()) && !pg.fromAlloc(r.Results[i], seen) {
			return false
		}
	}
	return n > 0
}

// onlyMade: what is stored in a local variable are objects that are being made.
func (pg *Program) onlyMade(v ssa.Value, seen map[ssa.Value]bool) bool {
	switch x := v.(type) {
	case *ssa.FreeVar:
		f := x.Parent()
		i := -1
		for j, y := range f.FreeVars {
			if y == x {
				i = j
			}
		}
		if f.Parent() == nil {
			return false
		}
		n := 0
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
					// not if the closure can run after its function is done
					for _, r := range *mc.Referrers() {
						switch r := r.(type) {
						case *ssa.DebugRef:
						case *ssa.Defer:
							if r.Call.Value != mc {
								return false
							}
						case *ssa.Call:
							if r.Call.Value != mc {
								return false
							}
						default:
							return false
						}
					}
					if n++; !pg.onlyMade(mc.Bindings[i], seen) {
						return false
					}
				}
			}
		}
		return n > 0
	case *ssa.Alloc:
		var fine func(v ssa.Value) bool
		fine = func(v ssa.Value) bool {
			for _, r := range *v.Referrers() {
				switch r := r.(type) {
				case *ssa.DebugRef:
				case *ssa.UnOp:
				case *ssa.Store:
					if k, ok := r.Val.(*ssa.Const); r.Addr != v || !(ok && k.IsNil()) && !pg.fromAlloc(r.Val, seen) {
						return false
					}
				case *ssa.MakeClosure:
					for i, y := range r.Bindings {
						if y == v && !fine(r.Fn.(*ssa.Function).FreeVars[i]) {
							return false
						}
					}
				default:
					return false
				}
			}
			return true
		}
		return fine(x)
	}
	return false
}

// callSites lists the static calls of every function; taken tells which
// functions are also used as values.
func (pg *Program) callSites() map[*ssa.Function][]ssa.CallInstruction {
	if pg.sites != nil {
		return pg.sites
	}
	pg.sites = map[*ssa.Function][]ssa.CallInstruction{}
	pg.taken = map[*ssa.Function]bool{}
	for _, f := range pg.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						pg.sites[g] = append(pg.sites[g], ci)
						if _, ok := ci.Common().Value.(*ssa.Function); ok {
							callee = &ci.Common().Value
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if op == callee {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						pg.taken[g] = true
					}
				}
			}
		}
	}
	return pg.sites
}

func fromGlobal(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Global:
		return true
	case *ssa.FieldAddr:
		return fromGlobal(x.X)
	case *ssa.IndexAddr:
		return fromGlobal(x.X)
	}
	return false
}

func addrOnlyRead(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			// the sub-field has its own key
			_ = x
		case *ssa.IndexAddr:
			if !addrOnlyRead(x, seen) {
				return false
			}
		case *ssa.Store:
			if x.Addr == v {
				return false
			}
			return false
		case ssa.CallInstruction:
			// methods of embedded values or mutexes: only pointer receivers of
			// standard library types are harmless
			cc := x.Common()
			c := cc.StaticCallee()
			if c == nil {
				return false
			}
			for i, a := range cc.Args {
				if a != v {
					continue
				}
				if p, ok := a.Type().Underlying().(*types.Pointer); ok && structOf(p.Elem()) != nil {
					// handled through the instructions of the callee, or the
					// method of a standard library type
					continue
				}
				if len(c.Blocks) > 0 && (c.Pkg == nil || isRepoPkg(c.Pkg.Pkg.Path())) {
					if i >= len(c.Params) || !addrOnlyRead(c.Params[i], seen) {
						return false
					}
				} else if !strings.HasPrefix(c.Name(), "Load") {
					return false
				}
			}
			if cc.Value == v {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// ------------------------------------------------------------ CFG facts

func (pg *Program) info(fn *ssa.Function) *fnInfo {
	if fi, ok := pg.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{after: map[ssa.Instruction]map[ssa.Value]bool{}}
	pg.infos[fn] = fi
	rpo := rpoOf(fn)
	loops := naturalLoops(fn)
	fi.wto = buildWTO(rpo, nil, loops)
	fi.computeLive(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if df, ok := in.(*ssa.Defer); ok {
				if c := df.Call.StaticCallee(); c != nil && callsRecover(c) {
					fi.recovery = append(fi.recovery, df)
				}
				if mc, ok := df.Call.Value.(*ssa.MakeClosure); ok && callsRecover(mc.Fn.(*ssa.Function)) {
					fi.recovery = append(fi.recovery, df)
				}
			}
		}
	}
	return fi
}

func callsRecover(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

func rpoOf(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

func naturalLoops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	loops := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := loops[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				loops[h] = body
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if body[x] {
					continue
				}
				body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return loops
}

func buildWTO(rpo []*ssa.BasicBlock, head *ssa.BasicBlock, loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool) []*wtoElem {
	var res []*wtoElem
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range rpo {
		if done[b] {
			continue
		}
		body := loops[b]
		if body == nil || b == head {
			done[b] = true
			res = append(res, &wtoElem{block: b})
			continue
		}
		var sub []*ssa.BasicBlock
		for _, x := range rpo {
			if body[x] {
				sub = append(sub, x)
				done[x] = true
			}
		}
		res = append(res, &wtoElem{block: b, loop: buildWTO(sub, b, loops), blocks: body})
	}
	return res
}

func (fi *fnInfo) computeLive(fn *ssa.Function) {
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	out := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
		out[b] = map[ssa.Value]bool{}
	}
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	if fn.Recover != nil {
		// values used by the recover block live everywhere
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			o := out[b]
			for _, s := range b.Succs {
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for v := range in[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					if !o[v] {
						o[v] = true
						ch = true
					}
				}
				for _, x := range s.Instrs {
					ph, ok := x.(*ssa.Phi)
					if !ok {
						break
					}
					if v := ph.Edges[pi]; track(v) && !o[v] {
						o[v] = true
						ch = true
					}
				}
			}
			cur := map[ssa.Value]bool{}
			for v := range o {
				cur[v] = true
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				x := b.Instrs[k]
				if v, ok := x.(ssa.Value); ok {
					if _, isPhi := x.(*ssa.Phi); !isPhi {
						delete(cur, v)
					}
				}
				if _, isPhi := x.(*ssa.Phi); isPhi {
					continue
				}
				var ops [10]*ssa.Value
				for _, op := range x.Operands(ops[:0]) {
					if *op != nil && track(*op) {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !in[b][v] {
					in[b][v] = true
					ch = true
				}
			}
		}
	}
	fi.live, fi.liveOut = in, out
	// the recover block may run at any time
	if fn.Recover != nil {
		for v := range in[fn.Recover] {
			for _, b := range fn.Blocks {
				fi.live[b][v] = true
				fi.liveOut[b][v] = true
			}
		}
	}
}

// liveAfter: values used after an instruction.
func (fi *fnInfo) liveAfter(in ssa.Instruction) map[ssa.Value]bool {
	if m, ok := fi.after[in]; ok {
		return m
	}
	b := in.Block()
	cur := map[ssa.Value]bool{}
	for v := range fi.liveOut[b] {
		cur[v] = true
	}
	for k := len(b.Instrs) - 1; k >= 0; k-- {
		x := b.Instrs[k]
		if x == in {
			break
		}
		if v, ok := x.(ssa.Value); ok {
			delete(cur, v)
		}
		var ops [10]*ssa.Value
		for _, op := range x.Operands(ops[:0]) {
			if *op == nil {
				continue
			}
			switch (*op).(type) {
			case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			default:
				cur[*op] = true
			}
		}
	}
	fi.after[in] = cur
	return cur
}

func trimPkg(s string) string { return strings.ReplaceAll(s, "gotor/", "") }

package main

import (
	"flag"
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

func (e *Exec) symArgs(fnName string) []*Term {
	f := e.pg.fn(fnName)
	var as []*Term
	for _, p := range f.Params {
		t := p.Type()
		as = append(as, opaqueValue(Sym("arg:"+p.Name(), t), t))
	}
	return as
}

func main() {
	if f := os.Getenv("GOTORLINT_PROFILE"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		time.AfterFunc(60*time.Second, func() { pprof.StopCPUProfile(); os.Exit(3) })
	}
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", ".", "where evidence goes")
	prop := flag.String("prop", "", "properties, comma separated")
	dbg := flag.String("fn", "", "debug: interpret one function")
	verbose := flag.Bool("v", false, "print every obligation")
	flag.Parse()
	debug.SetGCPercent(400)
	start := time.Now()
	pg, err := loadProgram(*repo + "/src")
	if err != nil {
		fmt.Println("cannot load the program:", err)
		for _, id := range strings.Split(*prop, ",") {
			fmt.Printf("VIOLATION property=%s replay=none\n", id)
		}
		os.Exit(1)
	}
	if *dbg != "" {
		debugFn(pg, *dbg)
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	code := 0
	for _, id := range strings.Split(*prop, ",") {
		p := props[id]
		if p == nil {
			fmt.Println("no such property", id)
			os.Exit(2)
		}
		if r := runProp(pg, p, *verif, tier, envInt("VERIF_SEED", 1), start, *verbose); r > code {
			code = r
		}
		start = time.Now()
	}
	os.Exit(code)
}

func debugFn(pg *Program, name string) {
	t0 := time.Now()
	c := &Ctx{pg: pg, p: &Prop{}}
	e := c.exec(name)
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				fmt.Println("UNDECIDED", u.msg)
				return
			}
			panic(r)
		}
	}()
	e.hooks.panicOp = func(fr *Frame, d *D, in ssaInstr, what string, must bool) {
		fmt.Println("PANIC", e.pos(in), fr.stack(), what, must)
	}
	e.hooks.onLoop = func(fr *Frame, h ssaBlock, rank string, ok bool, why string) {
		fmt.Println("LOOP", e.pg.pos(h.Instrs[0].Pos()), fr.fn, rank, ok, why)
	}
	f := pg.fn(name)
	if f == nil {
		fmt.Println("no such function")
		return
	}
	st := c.state()
	args := e.symArgs(name)
	for i, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			st.learn(Not(EqT(args[i], TNil)))
		}
	}
	outs := e.Run(st, f, args, nil)
	for i, o := range outs {
		fmt.Println("--- outcome", i)
		for _, v := range o.vals {
			fmt.Println("   val", v)
			b, _, _, _ := parts(v)
			if v.k == KIface && v.args[0].k == KPtr {
				b = v.args[0]
			}
			if b.k == KPtr {
				for k, x := range o.st.mem {
					if rootOf(k) == b {
						fmt.Println("      ", k, "=", x)
					}
				}
			}
		}
		for _, l := range o.st.f.log {
			fmt.Println("   fact", l)
		}
	}
	fmt.Println(len(outs), "outcomes", e.steps, "steps", EntailQueries, FMRuns, e.unres, time.Since(t0))
}

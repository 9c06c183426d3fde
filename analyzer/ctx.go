package main

// Properties, obligations, reports and evidence.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obl is one obligation: a rule instantiated at a construct.
type Obl struct {
	Key    string   `json:"key"`   // rule and construct, no line numbers
	Where  string   `json:"where"` // file:line, for the reader
	Text   string   `json:"text"`
	Failed bool     `json:"failed"`
	Detail []string `json:"detail,omitempty"`
	Known  bool     `json:"known,omitempty"`
	Count  int      `json:"visits"`
}

// Prop is a property and how it is decided.
type Prop struct {
	id, title string
	rule      string
	trusted   []string
	assume    []string
	min       map[string]int // least number of instances per rule
	run       func(c *Ctx)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.id] = p }

// Ctx is one run of one property.
type Ctx struct {
	pg       *Program
	p        *Prop
	tier     string
	seed     int
	obls     map[string]*Obl
	order    []string
	fns      map[*ssa.Function]bool
	steps    int
	roots    []string
	loops    map[string]string
	calls    map[string]bool
	notes    []string
	known    map[string]string
	init     *State
	nBuckets int64
	verbose  bool
}

func (c *Ctx) obl(key, where, text string) *Obl {
	o := c.obls[key]
	if o == nil {
		o = &Obl{Key: key, Where: where, Text: text}
		c.obls[key] = o
		c.order = append(c.order, key)
	}
	o.Count++
	return o
}

func (c *Ctx) ok(key, where, text string) { c.obl(key, where, text) }

func (c *Ctx) fail(key, where, text string, detail ...string) {
	o := c.obl(key, where, text)
	o.Failed = true
	if len(o.Detail) < 12 {
		o.Detail = append(o.Detail, detail...)
	}
}

func (c *Ctx) check(good bool, key, where, text string, detail ...string) bool {
	if good {
		c.ok(key, where, text)
	} else {
		c.fail(key, where, text, detail...)
	}
	return good
}

// guard runs part of a property; giving up fails the obligation of the part.
func (c *Ctx) guard(key, text string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if u, ok := r.(undecided); ok {
				msg = u.msg
			} else {
				msg += "\n" + string(debug.Stack())
			}
			c.fail("undecided:"+key, "", text+" could not be decided", msg)
		}
	}()
	f()
}

// anchor finds a function the property talks about.
func (c *Ctx) anchor(name string) *ssa.Function {
	f := c.pg.fn(name)
	if f == nil || len(f.Blocks) == 0 {
		panic(undecided{"anchor not found: " + name})
	}
	return f
}

func (c *Ctx) exec(root string) *Exec {
	e := &Exec{pg: c.pg, hooks: &Hooks{}, limit: 20000000, sc: 24, unres: map[string]bool{}, loopBad: map[string]bool{}, root: root}
	e.fnSeen = c.fns
	e.ctx = c
	c.roots = append(c.roots, root)
	return e
}

// done collects what a run could not resolve.
func (c *Ctx) done(e *Exec, key string) {
	c.steps += e.steps
	var us []string
	for u := range e.unres {
		us = append(us, u)
	}
	sort.Strings(us)
	if len(us) > 0 {
		c.fail("undecided:"+key, "", "every call and loop reached from "+e.root+" is resolved", us...)
	}
}

// ------------------------------------------------------------ driver

type knownFinding struct{ prop, key, text string }

func loadKnown(path string) []knownFinding {
	var r []knownFinding
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var k knownFinding
		rest := strings.TrimPrefix(l, "known: ")
		for {
			rest = strings.TrimSpace(rest)
			if strings.HasPrefix(rest, "property=") {
				f := strings.SplitN(rest, " ", 2)
				k.prop = strings.TrimPrefix(f[0], "property=")
				rest = f[1]
			} else if strings.HasPrefix(rest, "key=[") {
				i := strings.Index(rest, "] ")
				if i < 0 {
					break
				}
				k.key = rest[len("key=["):i]
				rest = rest[i+2:]
			} else {
				break
			}
		}
		k.text = rest
		r = append(r, k)
	}
	return r
}

func runProp(pg *Program, p *Prop, verif, tier string, seed int, start time.Time, verbose bool) int {
	c := &Ctx{pg: pg, p: p, tier: tier, seed: seed, obls: map[string]*Obl{}, fns: map[*ssa.Function]bool{},
		loops: map[string]string{}, calls: map[string]bool{}, known: map[string]string{}, verbose: verbose}
	for _, k := range loadKnown(filepath.Join(verif, "known_findings.txt")) {
		if k.prop == p.id {
			c.known[k.key] = k.text
		}
	}
	c.guard("whole", "the property", func() { p.run(c) })

	// a rule that matches nothing decides nothing
	n := map[string]int{}
	for _, k := range c.order {
		n[strings.SplitN(k, ":", 2)[0]]++
	}
	for _, r := range sortedKeys(p.min) {
		if n[r] < p.min[r] {
			c.fail("instances:"+r, "", fmt.Sprintf("rule %q has at least %d instances", r, p.min[r]), fmt.Sprintf("only %d found", n[r]))
		}
	}

	var bad, known []*Obl
	for _, k := range c.order {
		o := c.obls[k]
		if !o.Failed {
			continue
		}
		if t, ok := c.known[k]; ok {
			o.Known = true
			known = append(known, o)
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", p.id, t, k)
			continue
		}
		bad = append(bad, o)
	}
	wall := time.Since(start).Seconds()
	discharged := len(c.order) - len(bad) - len(known)
	perRule := map[string]int{}
	for r, x := range n {
		perRule[r] = x
	}
	var fns []string
	for f := range c.fns {
		fns = append(fns, f.RelString(nil))
	}
	sort.Strings(fns)
	var all []string
	for _, k := range c.order {
		o := c.obls[k]
		s := "ok"
		if o.Known {
			s = "known finding"
		} else if o.Failed {
			s = "FAILED"
		}
		all = append(all, fmt.Sprintf("%s | %s | %s | %s", s, k, o.Where, o.Text))
	}
	ev := map[string]interface{}{
		"property": p.id,
		"tier":     tier,
		"seed":     seed,
		"level":    "other",
		"coverage": map[string]interface{}{
			"explanation":              p.rule,
			"obligations":              len(c.order),
			"discharged":               discharged,
			"known_findings":           len(known),
			"obligations_by_rule":      perRule,
			"functions_analysed":       fns,
			"functions":                len(fns),
			"roots":                    c.roots,
			"instructions_interpreted": c.steps,
			"loops":                    c.loops,
			"entailment_queries":       EntailQueries,
			"fourier_motzkin_runs":     FMRuns,
			"checker_cmd":              "bash run.sh " + p.id,
			"trusted_base":             append([]string{"go/types and golang.org/x/tools/go/ssa (the program that is analysed is the SSA form of /repo/src as the compiler's front end types it)", "the analyzer in /verif/analyzer and its models of the standard library functions called"}, p.trusted...),
			"obligation_list":          all,
			"notes":                    c.notes,
		},
		"assumptions": p.assume,
		"wall_s":      wall,
		"violations":  len(bad),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 3
	}
	if verbose {
		for _, l := range all {
			fmt.Println(l)
		}
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d known findings, %d violated; %d functions, %d instructions interpreted, %.1fs\n", p.id, len(c.order), discharged, len(known), len(bad), len(fns), c.steps, wall)
	if len(bad) == 0 {
		return 0
	}
	rep := filepath.Join("evidence", p.id+".report.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %s\n%s\n\n", p.id, p.title, p.rule)
	for _, o := range bad {
		fmt.Fprintf(&sb, "VIOLATED %s\n  at %s\n  %s\n", o.Key, o.Where, o.Text)
		for _, d := range o.Detail {
			fmt.Fprintf(&sb, "    %s\n", strings.ReplaceAll(d, "\n", "\n    "))
		}
		sb.WriteString("\n")
	}
	os.WriteFile(filepath.Join(verif, rep), []byte(sb.String()), 0o644)
	for i, o := range bad {
		if i == 8 {
			fmt.Printf("  ... and %d more, see %s\n", len(bad)-8, rep)
			break
		}
		fmt.Printf("  %s: %s: %s\n", o.Where, o.Key, o.Text)
		for j, d := range o.Detail {
			if j < 3 {
				if len(d) > 600 {
					d = d[:600] + "..."
				}
				fmt.Printf("      %s\n", d)
			}
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, rep)
	return 1
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Violation is one construct that breaks a property.
type Violation struct {
	Rule   string `json:"rule"`
	Where  string `json:"where"`
	What   string `json:"what"`
	Detail string `json:"detail,omitempty"`
	Config string `json:"config"`
}

func (v Violation) key() string { return v.Rule + "|" + v.Where + "|" + v.What }

// Ctx is the context of one property check.
type Ctx struct {
	ID       string
	Tier     string
	P        *Program
	cfgs     []string
	viol     []Violation
	seen     map[string]bool
	counts   map[string]int // rule -> obligations discharged or examined
	funcs    map[string]bool
	npaths   int
	assume   []string
	notes    []string
	progs    map[string]*Program
	floors   map[string]int
	base     *State
	baseP    *Program
	executed map[token.Pos]bool
	decls    map[string]string
	apiOf    string
}

// Fail reports a violation.
func (c *Ctx) Fail(pos token.Pos, rule, format string, a ...any) {
	c.FailAt(c.P.Pos(pos), rule, "", format, a...)
}

func (c *Ctx) FailPath(pos token.Pos, rule string, s *State, format string, a ...any) {
	d := ""
	if s != nil {
		d = dumpFacts(s) + dumpEvents(c.P, s.events)
	}
	c.FailAt(c.P.Pos(pos), rule, d, format, a...)
}

func (c *Ctx) FailAt(where, rule, detail, format string, a ...any) {
	v := Violation{Rule: rule, Where: where, What: fmt.Sprintf(format, a...), Detail: detail, Config: c.P.Cfg.Name}
	k := v.key()
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.viol = append(c.viol, v)
}

// Count records obligations examined under a rule.
func (c *Ctx) Count(rule string, n int) { c.counts[rule] += n }

// Floor demands that a rule examined at least n instances: an analysis that
// finds nothing to examine proves nothing.
func (c *Ctx) Floor(rule string, n int) {
	if c.counts[rule] < n {
		c.FailAt("-", rule, "", "only %d instances of rule %q could be examined, at least %d expected: the code this property is about was not found", c.counts[rule], rule, n)
	}
}

func (c *Ctx) Assume(s string) {
	for _, x := range c.assume {
		if x == s {
			return
		}
	}
	c.assume = append(c.assume, s)
}

// Run analyses a function and records it as covered.
func (c *Ctx) Run(fn *ssa.Function, o Opts, ro RunOpt) []*State {
	if fn == nil {
		return nil
	}
	e := newEngine(c.P, o)
	paths, err := e.Run(fn, ro)
	if err != nil {
		c.Fail(fn.Pos(), "analysis", "%v", err)
		return nil
	}
	for f := range e.fnSeen {
		c.funcs[fnName(f)] = true
	}
	c.npaths += len(paths)
	return paths
}

// Cont continues a path with another call.
func (c *Ctx) Cont(s *State, fv *Term, args []*Term, ro RunOpt) []*State {
	e := newEngine(c.P, s.e.Opts)
	for t := range s.e.sharedAlloc {
		e.sharedAlloc[t] = true
	}
	paths, err := e.Cont(s, fv, args, ro)
	if err != nil {
		c.FailAt("-", "analysis", "", "%v", err)
		return nil
	}
	for f := range e.fnSeen {
		c.funcs[fnName(f)] = true
	}
	c.npaths += len(paths)
	return paths
}

// Need resolves an exported API function; its absence is a failure.
func (c *Ctx) Need(fn *ssa.Function, what string) *ssa.Function {
	if fn == nil {
		c.FailAt("-", "anchor", "", "%s is not there any more", what)
	}
	return fn
}

func (c *Ctx) Method(pkg, typ, name string) *ssa.Function {
	p := pkg
	if p == "" {
		p = "monkit"
	}
	return c.Need(c.P.Method(pkg, typ, name), p+"."+typ+"."+name)
}

func (c *Ctx) Func(pkg, name string) *ssa.Function {
	p := pkg
	if p == "" {
		p = "monkit"
	}
	return c.Need(c.P.Func(pkg, name), p+"."+name)
}

// ---- registry of checks ----

type checkDef struct {
	id    string
	title string
	rule  string // what is decided, for the evidence
	run   func(c *Ctx)
	quick []string // configurations
	deep  []string
	spec  bool // uses contract drivers
}

var checks = map[string]*checkDef{}

func register(d *checkDef) { checks[d.id] = d }

func verifDir() string {
	if d := os.Getenv("MONKIT_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func runCheck(id, tier string) (code int) {
	start := time.Now()
	d := checks[id]
	if d == nil {
		fmt.Printf("VIOLATION property=%s replay=-\nno such check\n", id)
		return 1
	}
	c := &Ctx{ID: id, Tier: tier, seen: map[string]bool{}, counts: map[string]int{}, funcs: map[string]bool{}, progs: map[string]*Program{}, floors: map[string]int{}}
	cfgs := d.quick
	if len(cfgs) == 0 {
		cfgs = []string{"default"}
	}
	if tier == "thorough" && len(d.deep) > 0 {
		cfgs = d.deep
	}
	if v := os.Getenv("MC_CFG"); v != "" {
		cfgs = strings.Split(v, ",")
	}
	c.cfgs = cfgs
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("MC_PANIC") != "" {
					panic(r)
				}
				if c.P == nil {
					c.P = &Program{Cfg: Config{Name: "?"}}
				}
				c.FailAt("-", "analysis", "", "the analysis could not be completed: %v", r)
			}
		}()
		for _, name := range cfgs {
			// terms and caches refer to one program
			tt = &termTable{m: map[string]*Term{}}
			fnInfos = map[*ssa.Function]*fnInfo{}
			typeByKey = map[string]types.Type{}
			summaries = map[*ssa.Function]*summary{}
			p, err := load(configs[name], d.spec)
			if err != nil {
				c.P = &Program{Cfg: configs[name], Dir: repoDir()}
				c.FailAt("-", "load", "", "%v", err)
				return
			}
			c.P = p
			p.orig = buildOrigins(p)
			if err := p.computeMutable(); err != nil {
				c.FailAt("-", "analysis", "", "%v", err)
				return
			}
			d.run(c)
		}
	}()
	known := loadKnown(id)
	var open []Violation
	for _, v := range c.viol {
		if w, ok := known[v.key()]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, w)
			continue
		}
		open = append(open, v)
	}
	replay := ""
	if len(open) > 0 {
		replay = filepath.Join(verifDir(), "evidence", id+".replay.txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property %s: %d violation(s); reproduce with: bash %s/run.sh %s %s\n\n", id, len(open), verifDir(), id, tier)
		for _, v := range open {
			fmt.Fprintf(&b, "[%s] %s: %s (build configuration %s)\n", v.Rule, v.Where, v.What, v.Config)
			if v.Detail != "" {
				d := v.Detail
				if len(d) > 20000 {
					d = d[:20000] + "...\n"
				}
				b.WriteString(d)
			}
			b.WriteString("\n")
		}
		os.MkdirAll(filepath.Dir(replay), 0o755)
		os.WriteFile(replay, []byte(b.String()), 0o644)
	}
	writeEvidence(c, d, open, time.Since(start).Seconds())
	for _, v := range open {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		fmt.Printf("  [%s] %s: %s (build configuration %s)\n", v.Rule, v.Where, v.What, v.Config)
	}
	if len(open) > 0 {
		return 1
	}
	var ks []string
	for k, n := range c.counts {
		ks = append(ks, fmt.Sprintf("%s=%d", k, n))
	}
	sort.Strings(ks)
	fmt.Printf("OK property=%s functions=%d paths=%d %s\n", id, len(c.funcs), c.npaths, strings.Join(ks, " "))
	return 0
}

func loadKnown(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C01 key=<rule|where|what> :: description
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+id+" key=")
		k, w, _ := strings.Cut(l, " :: ")
		m[k] = w
	}
	return m
}

func writeEvidence(c *Ctx, d *checkDef, open []Violation, wall float64) {
	level := "other"
	var fs []string
	for f := range c.funcs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	if c.assume == nil {
		c.assume = []string{}
	}
	ev := map[string]any{
		"property": c.ID,
		"tier":     c.Tier,
		"seed":     seedEnv(),
		"level":    level,
		"coverage": map[string]any{
			"explanation":     d.rule,
			"configurations":  c.cfgs,
			"functions":       fs,
			"path_partitions": c.npaths,
			"obligations":     c.counts,
			"notes":           c.notes,
		},
		"wall_s":      wall,
		"violations":  len(open),
		"assumptions": c.assume,
	}
	if len(open) > 0 {
		ev["violation_list"] = open
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644)
}

func seedEnv() int {
	n := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	configs["template"] = Config{Name: "template", Overlay: expandTemplate}
	all := []string{"default", "appengine", "tinygo", "windows", "darwin", "template"}
	register(&checkDef{id: "C32", spec: true, quick: all, deep: all,
		rule: "per build configuration: the exported declarations are those of the default one (documented platform parts of package environment aside); load, store, swap and compare-and-swap helpers, found by their signatures, touch the address once atomically or in one critical section and have their meaning; the contract drivers of the properties that rest on them hold for the alternative implementations; and the distributions the template expands to (macro expansion done here) satisfy the rules of the distributions", run: runC32})
}

// what rests on the alternative implementations
var variantRuns = map[string][]string{
	"appengine": {"C05", "C07", "C09", "C10", "C13", "C27"},
	"tinygo":    {"C05", "C20"},
}

var variantDeep = map[string][]string{
	"appengine": {"C04", "C06", "C08", "C15", "C16", "C19", "C28"},
	"tinygo":    {"C04", "C06", "C07", "C08", "C09", "C10", "C13", "C15", "C16", "C19", "C27", "C28"},
}

func runC32(c *Ctx) {
	cfg := c.P.Cfg.Name
	c.sameAPI("interface")
	c.Floor("interface", 50)
	if cfg == "template" || cfg == "default" {
		c.Assume("64-bit counters and sums do not overflow")
		for _, t := range distTypes {
			c11Dist(c, t)
			c17Dist(c, t)
		}
		c.drivers("C16", "template")
		c.Floor("dist", 20)
		c.Floor("read", 12)
		c.Floor("template", 10)
	}
	if cfg == "template" {
		return
	}
	if cfg == "windows" {
		c.monotime("clock")
		c.noOverflow("ticks")
	}
	c.casMeaning("meaning")
	if cfg == "default" || cfg == "appengine" {
		c.drivers("C20", "behaviour")
	}
	if cfg == "default" {
		c.drivers("C32", "same")
		c.Floor("same", 10)
	}
	for _, id := range variantRuns[cfg] {
		c.drivers(id, "behaviour")
	}
	if c.Tier == "thorough" {
		for _, id := range variantDeep[cfg] {
			c.drivers(id, "behaviour")
		}
	}
	if len(variantRuns[cfg]) > 0 {
		c.Floor("behaviour", 20)
	}
}

// drivers decides another property in this configuration, reported under this one.
func (c *Ctx) drivers(of, rule string) {
	id := c.ID
	c.base = nil
	switch of {
	case "C09":
		// the steps of the list differ by design; what they achieve does not
		c.ID = of
		c.SpecAll(rule, c.specOpts())
	case "C20":
		// names that are the same everywhere
		o := c.specOpts()
		o.Fresh = true
		m := o.Model
		o.Model = func(e *Engine, s *State, instr ssa.Instruction, fn *ssa.Function, args []*Term, cont contKind) bool {
			return !isErrNamer(fn) && m(e, s, instr, fn, args, cont)
		}
		c.Spec(rule, "Variant_ErrorNames", o)
		c.Spec(rule, "C20_Namer", o)
	case "C32":
		o := c.specOpts()
		o.Model = nil
		c.SpecAll(rule, o)
	default:
		n := 0
		for _, k := range c.counts {
			n -= k
		}
		c.ID = of
		checks[of].run(c)
		for _, k := range c.counts {
			n += k
		}
		c.Count(rule, n)
	}
	c.ID = id
	c.base = nil
}

// ---- the same interface everywhere ----

var platformParts = map[string]bool{"environment.OS": true, "environment.Rusage": true, "environment.Runtime": true, "environment.Process": true, "environment.Proc": true}

func exportedAPI(p *Program) map[string]string {
	m := map[string]string{}
	for path, sp := range p.SSAPkgs {
		if strings.HasSuffix(path, "/"+specPkg) || sp.Pkg.Name() == "main" {
			continue
		}
		q := func(o *types.Package) string { return o.Path() }
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			o := sc.Lookup(n)
			if !o.Exported() {
				continue
			}
			key := sp.Pkg.Name() + "." + n
			if platformParts[key] {
				continue
			}
			switch o := o.(type) {
			case *types.TypeName:
				desc := "type"
				switch u := o.Type().Underlying().(type) {
				case *types.Struct:
					for i := 0; i < u.NumFields(); i++ {
						if f := u.Field(i); f.Exported() {
							m[key+"."+f.Name()] = "field " + types.TypeString(f.Type(), q)
						}
					}
					desc = "struct type"
				default:
					desc = "type " + types.TypeString(u, q)
				}
				if o.IsAlias() {
					desc = "alias of " + types.TypeString(o.Type(), q)
				}
				m[key] = desc
				for _, t := range []types.Type{o.Type(), types.NewPointer(o.Type())} {
					ms := types.NewMethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := ms.At(i).Obj()
						if f.Exported() {
							k := key + "." + f.Name()
							if _, ptr := t.(*types.Pointer); ptr {
								k = "(*" + key + ")." + f.Name()
							}
							m[k] = types.TypeString(ms.At(i).Type(), q)
						}
					}
				}
			case *types.Const:
				m[key] = "const " + types.TypeString(o.Type(), q) + " = " + o.Val().ExactString()
			default:
				m[key] = types.TypeString(o.Type(), q)
			}
		}
	}
	return m
}

func (c *Ctx) sameAPI(rule string) {
	m := exportedAPI(c.P)
	c.Count(rule, len(m))
	if c.decls == nil {
		c.decls, c.apiOf = m, c.P.Cfg.Name
		return
	}
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	for k := range c.decls {
		if _, ok := m[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		a, b := c.decls[k], m[k]
		if a != b {
			if a == "" {
				a = "missing"
			}
			if b == "" {
				b = "missing"
			}
			c.FailAt("-", rule, "", "%s is %q here but %q in the %s configuration", k, b, a, c.apiOf)
		}
	}
}

// ---- what the helpers mean ----

// casMeaning finds the load, store, swap and compare-and-swap helpers by their
// signatures and shows each to do what it is called for, at once.
func (c *Ctx) casMeaning(rule string) {
	isPtrPtr := func(t types.Type) types.Type {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return nil
		}
		if _, ok := p.Elem().Underlying().(*types.Pointer); !ok {
			return nil
		}
		return p.Elem()
	}
	for _, fn := range c.P.Funcs {
		sg := fn.Signature
		if fn.Parent() != nil || sg.Recv() != nil || fn.Object() == nil || fn.Object().Exported() || isSpecFn(fn) {
			continue
		}
		ps, rs := sg.Params(), sg.Results()
		if ps.Len() < 1 || ps.Len() > 3 || rs.Len() > 1 {
			continue
		}
		el := isPtrPtr(ps.At(0).Type())
		if el == nil {
			continue
		}
		same := true
		for i := 1; i < ps.Len(); i++ {
			same = same && types.Identical(ps.At(i).Type(), el)
		}
		if !same {
			continue
		}
		kind := ""
		switch {
		case ps.Len() == 1 && rs.Len() == 1 && types.Identical(rs.At(0).Type(), el):
			kind = "load"
		case ps.Len() == 2 && rs.Len() == 0:
			kind = "store"
		case ps.Len() == 2 && rs.Len() == 1 && types.Identical(rs.At(0).Type(), el):
			kind = "swap"
		case ps.Len() == 3 && rs.Len() == 1 && isBoolType(rs.At(0).Type()):
			kind = "compare-and-swap"
		default:
			continue
		}
		// only what works on shared memory as a unit
		if !c.synchronises(fn) {
			continue
		}
		c.casFn(rule, fn, kind)
	}
}

// synchronises: the function (or one it calls statically in the repository)
// uses sync or sync/atomic.
func (c *Ctx) synchronises(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		if p := extPkg(f); p == "sync" || p == "sync/atomic" {
			return true
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && walk(ci.Common().StaticCallee()) {
					return true
				}
			}
		}
		return false
	}
	return walk(fn)
}

func (c *Ctx) casFn(rule string, fn *ssa.Function, kind string) {
	fail := func(s *State, f string, a ...any) {
		c.FailPath(fn.Pos(), rule, s, "%s, a %s: %s", fnName(fn), kind, fmt.Sprintf(f, a...))
	}
	returned := 0
	var params []*Term
	for i := range fn.Params {
		params = append(params, argOf(fn, i))
	}
	for _, s := range c.Run(fn, Opts{}, RunOpt{Args: params}) {
		if s.how != "return" {
			if s.how != "infeasible" {
				fail(s, "a path does not return")
			}
			continue
		}
		returned++
		c.Count(rule, 1)
		addr := params[0]
		var seen, put *Term
		var rd, wr *Event
		touches := 0
		for _, ev := range s.events {
			if ev.Addr != addr {
				if ev.Kind == "Write" && !ev.Local {
					fail(s, "it writes to %v", ev.Addr)
				}
				continue
			}
			switch ev.Kind {
			case "Read", "AtomicLoad":
				seen, rd = evVal(ev), ev
				touches++
			case "Write", "AtomicStore":
				put, wr = ev.Val, ev
				touches++
			case "AtomicSwap":
				seen, put, rd, wr = evVal(ev), ev.Val, ev, ev
				touches++
			case "AtomicCAS":
				touches++
				rd = ev
				if ev.OK {
					seen, put, wr = ev.Old, ev.Val, ev
				} else {
					seen = nil
				}
			}
		}
		if touches == 0 {
			fail(s, "a path does not touch the address")
			continue
		}
		// at once
		if rd != nil && wr != nil && rd != wr {
			ok := false
			a, b := sections(rd), sections(wr)
			for k := range a {
				ok = ok || b[k]
			}
			if !ok {
				fail(s, "reading and writing are not one step")
			}
		}
		for _, ev := range []*Event{rd, wr} {
			if ev != nil && !strings.HasPrefix(ev.Kind, "Atomic") && len(sections(ev)) == 0 {
				fail(s, "the address is touched without a lock")
			}
		}
		eq := func(a, b *Term) bool { return a != nil && b != nil && (a == b || eqv(s.facts, a, b)) }
		switch kind {
		case "load":
			if wr != nil {
				fail(s, "it writes")
			}
			if rd == nil || !eq(s.ret[0], seen) {
				fail(s, "it returns %v, not what is there", s.ret[0])
			}
		case "store":
			if wr == nil || !eq(put, params[1]) {
				fail(s, "a path does not store the value")
			}
		case "swap":
			if wr == nil || !eq(put, params[1]) {
				fail(s, "a path does not store the value")
			}
			if rd == nil || !eq(s.ret[0], seen) {
				fail(s, "it returns %v, not what was there", s.ret[0])
			}
		case "compare-and-swap":
			v, known := s.facts.truth(s.ret[0])
			casOf := rd != nil && rd.Kind == "AtomicCAS"
			if !known {
				fail(s, "it is not decided on the path whether it reports success")
				continue
			}
			if v != (wr != nil) {
				fail(s, "it returns %v but the address was%s written", v, map[bool]string{true: "", false: " not"}[wr != nil])
			}
			switch {
			case casOf:
				if !eq(rd.Old, params[1]) || !eq(rd.Val, params[2]) {
					fail(s, "it compares with %v and stores %v", rd.Old, rd.Val)
				}
			case v:
				if !eq(seen, params[1]) || !eq(put, params[2]) {
					fail(s, "it finds %v and stores %v", seen, put)
				}
			default:
				if t, k := s.facts.truth(mkEq(seen, params[1], params[1].Typ)); seen == nil || !k || t {
					fail(s, "it fails although it found what it compares with")
				}
			}
		}
	}
	if returned == 0 {
		fail(nil, "no path returns")
	}
}

// ---- the template of the distributions ----

var genLine = regexp.MustCompile(`(?m)^//go:generate\s+sh -c "m4 (.*) (\S+) > (\S+?)"\s*$`)
var genDef = regexp.MustCompile(`-D(\w+)=('((?:\\.|[^'])*)'|\S*)`)

// expandTemplate replaces the generated files by what their template expands
// to. Failing to understand the recipe is an error of the load.
func expandTemplate(dir string) (map[string][]byte, error) {
	out := map[string][]byte{}
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	for _, ent := range ents {
		if !strings.HasSuffix(ent.Name(), ".go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, ent.Name()))
		if err != nil {
			return nil, err
		}
		for _, m := range genLine.FindAllStringSubmatch(string(b), -1) {
			defs := map[string]string{}
			for _, d := range genDef.FindAllStringSubmatch(m[1], -1) {
				v := d[2]
				if strings.HasPrefix(v, "'") {
					v = d[3]
				}
				defs[d[1]] = strings.ReplaceAll(v, `\"`, `"`)
			}
			t, err := os.ReadFile(filepath.Join(dir, m[2]))
			if err != nil {
				return nil, err
			}
			x, err := m4(string(t), defs)
			if err != nil {
				return nil, fmt.Errorf("%s: %v", m[2], err)
			}
			out[filepath.Join(dir, m[3])] = []byte(x)
		}
	}
	if len(out) < 3 {
		return nil, fmt.Errorf("the recipes of the generated distributions were not found (%d of 3)", len(out))
	}
	return out, nil
}

// built-in macros that are only recognised before a parenthesis are those with
// arguments; nothing in a template may be one of them by accident.
var m4builtin = map[string]bool{"len": true, "index": true, "define": true, "undefine": true, "defn": true, "pushdef": true, "popdef": true,
	"ifdef": true, "ifelse": true, "incr": true, "decr": true, "eval": true, "substr": true, "translit": true, "format": true, "include": true,
	"sinclude": true, "syscmd": true, "esyscmd": true, "builtin": true, "indir": true, "patsubst": true, "regexp": true}
var m4always = map[string]bool{"dnl": true, "shift": true, "divert": true, "divnum": true, "undivert": true, "changequote": true, "changecom": true, "unix": true, "__file__": true, "__line__": true, "errprint": true, "m4exit": true, "m4wrap": true, "dumpdef": true, "traceon": true, "traceoff": true, "sysval": true, "maketemp": true, "mkstemp": true, "debugmode": true, "debugfile": true}

// m4 expands definitions without arguments in a text with `quotes'.
func m4(in string, defs map[string]string) (string, error) {
	var out strings.Builder
	word := func(b byte) bool {
		return b == '_' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9'
	}
	steps := 0
	for len(in) > 0 {
		if steps++; steps > 10_000_000 {
			return "", fmt.Errorf("the expansion does not end")
		}
		switch ch := in[0]; {
		case ch == '`':
			depth, i := 1, 1
			for ; i < len(in) && depth > 0; i++ {
				switch in[i] {
				case '`':
					depth++
				case '\'':
					depth--
				}
			}
			if depth > 0 {
				return "", fmt.Errorf("a quote is not closed")
			}
			out.WriteString(in[1 : i-1])
			in = in[i:]
		case ch == '#':
			i := strings.IndexByte(in, '\n')
			if i < 0 {
				i = len(in) - 1
			}
			out.WriteString(in[:i+1])
			in = in[i+1:]
		case word(ch) && !(ch >= '0' && ch <= '9'):
			i := 0
			for i < len(in) && word(in[i]) {
				i++
			}
			w := in[:i]
			in = in[i:]
			v, ok := defs[w]
			if !ok {
				if m4always[w] || m4builtin[w] && strings.HasPrefix(in, "(") {
					return "", fmt.Errorf("the built-in macro %s is used", w)
				}
				out.WriteString(w)
				continue
			}
			if strings.HasPrefix(in, "(") {
				return "", fmt.Errorf("the macro %s takes the parenthesis after it as its arguments", w)
			}
			in = v + in
		case ch >= '0' && ch <= '9':
			i := 0
			for i < len(in) && word(in[i]) {
				i++
			}
			out.WriteString(in[:i])
			in = in[i:]
		default:
			out.WriteByte(ch)
			in = in[1:]
		}
	}
	return out.String(), nil
}

package main

// The specification language: contracts, spec functions, lemmas, roles of
// callbacks and property configurations, read from text files.

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type sparam struct {
	name string
	sort string
}

// Clause is one labelled formula of a specification.
type Clause struct {
	facets []string
	expr   ast.Expr
	src    string
	at     string
	aux    string // name for effects and instances
}

// SpecFun is a specification function; recursive ones are uninterpreted and unfolded.
type SpecFun struct {
	name    string
	params  []sparam
	ret     string
	body    ast.Expr
	nilBody ast.Expr
	macro   bool
	facets  []string
}

// Lemma is a formula proved once (by induction over its first parameter if
// induct is set) and instantiated at trigger terms.
type Lemma struct {
	name     string
	params   []sparam
	requires []Clause
	ensures  []Clause
	induct   []string
	decr     ast.Expr
	triggers []ast.Expr
	ihs      [][]ast.Expr
	facets   []string
	opens    []ast.Expr
	only     map[string]bool
	hide     map[string]bool // functions whose definition stays out
	cases    []ast.Expr      // the proof goes case by case
	notes    []ast.Expr      // terms that get the proof going
	enum     []string        // or value by value of a parameter: name, from, to
}

// Role specifies a callback.
type Role struct {
	path     string
	params   []string
	results  []string
	requires []Clause
	ensures  []Clause
	modifies []string
	ghosts   []sparam
}

// IterSpec gives the relation a client keeps while its closure is applied to every node of a trie.
type IterSpec struct {
	callee string
	state  []string
	rel    []Clause
	pre    []Clause
	over   string
	ok     string
}

// LoopSpec gives an invariant for the (only) loop of a function.
type LoopSpec struct {
	fn   string
	inv  []Clause
	decr ast.Expr
	mods []string
}

// Contract specifies one function.
type Contract struct {
	name, variant string
	params        []string
	results       []string
	inline        bool // verified, but callers see the body
	ghosts        []sparam
	requires      []Clause
	ensures       []Clause
	cellInv       []Clause
	decreases     ast.Expr
	modifies      []string
	owned         map[string]bool
	roles         []*Role
	iters         []*IterSpec
	loops         []*LoopSpec
	panics        []Clause // panics exactly if
	mayPanic      bool
	insts         []Clause
	opens         []Clause
	facets        []string
	hide          map[string]bool
	at            string
	conforms      []conform
	sames         []sameAs
	resultRoles   []conform
	writes        []string
}

type conform struct {
	path, role string
	facets     []string
}

// PropCfg selects what a property needs.
type PropCfg struct {
	id         string
	facets     map[string]bool
	roots      []string
	variants   map[string]string
	bounded    []string // functions only covered by the bounded harness
	also       []string // further configurations that belong to the property
	concurrent bool     // with interference by other goroutines
	nopanic    bool
	include    []string
	limits     map[string][]string // function -> the only facets of its contract that count
	filtered   map[string]*Contract
}

// Spec is everything read for one package.
type Spec struct {
	w         *World
	funs      map[string]*SpecFun
	lemmas    []*Lemma
	contracts map[string]*Contract // name or name#variant
	invs      map[string][]Clause  // type name -> invariants over "x"
	ghostVars []sparam
	roles     map[string]*Role // shared roles by name
	props     map[string]*PropCfg
	consts    map[string]ast.Expr
}

func (p *PropCfg) on(facets []string) bool {
	if len(facets) == 0 {
		return true
	}
	for _, f := range facets {
		if p.facets[f] {
			return true
		}
	}
	return false
}

type specErr struct{ msg string }

func specFail(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

// ---- parsing

func parseExpr(s, at string) ast.Expr {
	e, err := parser.ParseExpr(s)
	if err != nil {
		specFail("%s: %v in %q", at, err, s)
	}
	return e
}

func loadSpec(dir, pkg string) (sp *Spec, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	sp = &Spec{funs: map[string]*SpecFun{}, contracts: map[string]*Contract{}, invs: map[string][]Clause{},
		roles: map[string]*Role{}, props: map[string]*PropCfg{}, consts: map[string]ast.Expr{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gspec"))
	sort.Strings(files)
	for _, f := range files {
		sp.readFile(f, pkg)
	}
	for _, p := range sp.props {
		for _, n := range p.include {
			g := sp.props[n]
			if g == nil {
				specFail("no group %s", n)
			}
			p.roots = append(p.roots, g.roots...)
			for f := range g.facets {
				p.facets[f] = true
			}
			for k, v := range g.variants {
				if _, ok := p.variants[k]; !ok {
					p.variants[k] = v
				}
			}
			for k, v := range g.limits {
				if _, ok := p.limits[k]; !ok {
					p.limits[k] = v
				}
			}
		}
	}
	return sp, nil
}

func indent(s string) int { return len(s) - len(strings.TrimLeft(s, " ")) }

func (sp *Spec) readFile(file, pkg string) {
	fh, err := os.Open(file)
	if err != nil {
		specFail("%v", err)
	}
	defer fh.Close()
	type line struct {
		s  string
		in int
		at string
	}
	var lines []line
	sc := bufio.NewScanner(fh)
	n := 0
	for sc.Scan() {
		n++
		s := sc.Text()
		if i := strings.Index(s, "#:"); i >= 0 {
			s = s[:i]
		}
		if strings.HasPrefix(strings.TrimSpace(s), "//") || strings.TrimSpace(s) == "" {
			continue
		}
		in := indent(s)
		t := strings.TrimSpace(s)
		if in >= 4 && len(lines) > 0 {
			lines[len(lines)-1].s += " " + t
			continue
		}
		lines = append(lines, line{t, in, fmt.Sprintf("%s:%d", filepath.Base(file), n)})
	}
	active := true
	for i := 0; i < len(lines); {
		j := i + 1
		for j < len(lines) && lines[j].in > 0 {
			j++
		}
		var body [][2]string
		for _, l := range lines[i+1 : j] {
			body = append(body, [2]string{l.s, l.at})
		}
		head := lines[i].s
		if strings.HasPrefix(head, "package ") {
			active = false
			for _, p := range strings.Fields(head)[1:] {
				if p == pkg {
					active = true
				}
			}
		} else if active {
			sp.block(head, lines[i].at, body)
		}
		i = j
	}
}

func splitWord(s string) (string, string) {
	s = strings.TrimSpace(s)
	i := strings.IndexAny(s, " \t")
	if i < 0 {
		return s, ""
	}
	return s[:i], strings.TrimSpace(s[i:])
}

// facetsOf strips a leading "[a,b]".
func facetsOf(s string) ([]string, string) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		i := strings.Index(s, "]")
		var out []string
		for _, f := range strings.Split(s[1:i], ",") {
			out = append(out, strings.TrimSpace(f))
		}
		return out, strings.TrimSpace(s[i+1:])
	}
	return nil, s
}

func clause(s, at string) Clause {
	f, r := facetsOf(s)
	return Clause{facets: f, expr: parseExpr(r, at), src: r, at: at}
}

func parseParams(s string) []sparam {
	s = strings.TrimSpace(s)
	s = strings.TrimSuffix(strings.TrimPrefix(s, "("), ")")
	var out []sparam
	for _, p := range strings.Split(s, ",") {
		a, b := splitWord(p)
		if a != "" {
			out = append(out, sparam{a, b})
		}
	}
	return out
}

func names(ps []sparam) []string {
	var out []string
	for _, p := range ps {
		out = append(out, p.name)
	}
	return out
}

// signature splits "Name(a, b) (c)" or "Name(a,b) rest".
func signature(s, at string) (name, params, rest string) {
	i := strings.Index(s, "(")
	if i < 0 {
		specFail("%s: no parameters in %q", at, s)
	}
	j := strings.Index(s[i:], ")") + i
	return strings.TrimSpace(s[:i]), s[i : j+1], strings.TrimSpace(s[j+1:])
}

func (sp *Spec) block(head, at string, body [][2]string) {
	fac, head2 := "", head
	kw, rest := splitWord(head2)
	_ = fac
	switch kw {
	case "ghostvar":
		sp.ghostVars = append(sp.ghostVars, parseParams(rest)...)
	case "const":
		n, e := splitWord(rest)
		sp.consts[n] = parseExpr(e, at)
	case "def", "fun":
		fs, rest := facetsOf(rest)
		name, ps, r := signature(rest, at)
		f := &SpecFun{name: name, params: parseParams(ps), macro: kw == "def", facets: fs}
		if i := strings.Index(r, "="); i >= 0 && kw == "def" {
			f.ret = strings.TrimSpace(r[:i])
			f.body = parseExpr(r[i+1:], at)
		} else {
			f.ret = r
		}
		for _, b := range body {
			k, e := splitWord(b[0])
			switch k {
			case "nil":
				f.nilBody = parseExpr(e, b[1])
			case "is":
				f.body = parseExpr(e, b[1])
			default:
				specFail("%s: unknown clause %q", b[1], k)
			}
		}
		if sp.funs[name] != nil {
			specFail("%s: %s redefined", at, name)
		}
		sp.funs[name] = f
	case "lemma":
		fs, rest := facetsOf(rest)
		name, ps, _ := signature(rest, at)
		l := &Lemma{name: name, params: parseParams(ps), facets: fs}
		for _, b := range body {
			k, e := splitWord(b[0])
			switch k {
			case "requires":
				l.requires = append(l.requires, clause(e, b[1]))
			case "ensures":
				l.ensures = append(l.ensures, clause(e, b[1]))
			case "trigger":
				l.triggers = append(l.triggers, parseExpr(e, b[1]))
			case "decreases":
				l.decr = parseExpr(e, b[1])
			case "ih": // ih (args) : an instance of the lemma itself on smaller arguments
				c := parseExpr("ih"+e, b[1]).(*ast.CallExpr)
				l.ihs = append(l.ihs, c.Args)
			case "open":
				l.opens = append(l.opens, parseExpr(e, b[1]))
			case "hide":
				if l.hide == nil {
					l.hide = map[string]bool{}
				}
				for _, n := range strings.Fields(e) {
					l.hide[n] = true
				}
			case "note":
				l.notes = append(l.notes, parseExpr(e, b[1]))
			case "enum":
				l.enum = strings.Fields(e)
			case "case":
				l.cases = append(l.cases, parseExpr(e, b[1]))
			case "uses":
				if l.only == nil {
					l.only = map[string]bool{}
				}
				for _, n := range strings.Fields(e) {
					l.only[n] = true
				}
			default:
				specFail("%s: unknown clause %q", b[1], k)
			}
		}
		sp.lemmas = append(sp.lemmas, l)
	case "invariant":
		t, e := splitWord(rest)
		sp.invs[t] = append(sp.invs[t], clause(e, at))
	case "role":
		r := sp.parseRole(rest, at, body)
		sp.roles[r.path] = r
	case "contract", "spec":
		fs, rest := facetsOf(rest)
		name, ps, r := signature(rest, at)
		c := &Contract{inline: kw == "spec", owned: map[string]bool{}, facets: fs, at: at}
		c.name = name
		if i := strings.Index(name, "#"); i >= 0 {
			c.name, c.variant = name[:i], name[i+1:]
		}
		c.params = names(parseParams(ps))
		if r != "" {
			c.results = names(parseParams(r))
		}
		for i := 0; i < len(body); i++ {
			k, e := splitWord(body[i][0])
			bat := body[i][1]
			switch k {
			case "requires":
				c.requires = append(c.requires, clause(e, bat))
			case "ensures":
				c.ensures = append(c.ensures, clause(e, bat))
			case "ghost":
				c.ghosts = append(c.ghosts, parseParams(e)...)
			case "decreases":
				c.decreases = parseExpr(e, bat)
			case "modifies":
				for _, m := range strings.Split(e, ",") {
					c.modifies = append(c.modifies, strings.TrimSpace(m))
				}
			case "owned":
				for _, m := range strings.Split(e, ",") {
					c.owned[strings.TrimSpace(m)] = true
				}
			case "panics":
				if e == "maybe" {
					c.mayPanic = true
				} else {
					c.panics = append(c.panics, clause(e, bat))
				}
			case "same": // same COND : call of a family function with the same outcome
				f := strings.SplitN(e, " : ", 2)
				cl := clause(f[0], bat)
				c.sames = append(c.sames, sameAs{cl, parseExpr(f[1], bat), f[1]})
			case "inst": // inst a = expr
				fs, e2 := facetsOf(e)
				n, x := splitWord(e2)
				x = strings.TrimSpace(strings.TrimPrefix(x, "="))
				c.insts = append(c.insts, Clause{facets: fs, expr: parseExpr(x, bat), src: x, at: bat, aux: n})
			case "hide": // functions whose definition stays out of the proof
				if c.hide == nil {
					c.hide = map[string]bool{}
				}
				for _, n := range strings.Fields(e) {
					c.hide[n] = true
				}
			case "open": // nodes to unfold in addition
				c.opens = append(c.opens, clause(e, bat))
			case "role": // role path = name
				n, x := splitWord(e)
				x = strings.TrimSpace(strings.TrimPrefix(x, "="))
				c.conforms = append(c.conforms, conform{n, x, nil})
			case "conforms": // what a function in the results acts as
				fs, e2 := facetsOf(e)
				n, x := splitWord(e2)
				x = strings.TrimSpace(strings.TrimPrefix(x, "="))
				c.resultRoles = append(c.resultRoles, conform{n, x, fs})
			case "writes": // shared variables that may be changed
				for _, m := range strings.Split(e, ",") {
					c.writes = append(c.writes, strings.TrimSpace(m))
				}
			case "loop":
				l := &LoopSpec{fn: e}
				for i+1 < len(body) {
					k, e := splitWord(body[i+1][0])
					switch k {
					case "invariant":
						l.inv = append(l.inv, clause(e, body[i+1][1]))
					case "measure":
						l.decr = parseExpr(e, body[i+1][1])
					case "havoc":
						l.mods = append(l.mods, strings.Fields(e)...)
					default:
						goto doneL
					}
					i++
				}
			doneL:
				c.loops = append(c.loops, l)
			case "iterate": // iterate callee over NODE ok NAME
				f := strings.Fields(e)
				it := &IterSpec{callee: f[0], over: f[2], ok: f[4]}
				for i+1 < len(body) {
					k, e := splitWord(body[i+1][0])
					switch k {
					case "state":
						it.state = append(it.state, strings.Fields(e)...)
					case "pre":
						it.pre = append(it.pre, clause(e, body[i+1][1]))
					case "rel":
						it.rel = append(it.rel, clause(e, body[i+1][1]))
					default:
						goto doneI
					}
					i++
				}
			doneI:
				c.iters = append(c.iters, it)
			default:
				specFail("%s: unknown clause %q", bat, k)
			}
		}
		if sp.contracts[name] != nil {
			specFail("%s: %s redefined", at, name)
		}
		for _, cl := range c.ensures {
			if !c.inline && mentions(cl.expr, map[string]bool{"anynode": true}) {
				specFail("%s: anynode cannot be assumed by callers", cl.at)
			}
		}
		sp.contracts[name] = c
	case "property", "group":
		p := &PropCfg{id: strings.TrimSpace(rest), facets: map[string]bool{}, variants: map[string]string{}, nopanic: true,
			limits: map[string][]string{}, filtered: map[string]*Contract{}}
		if q := sp.props[p.id]; q != nil {
			p = q
		}
		for _, b := range body {
			k, e := splitWord(b[0])
			switch k {
			case "facets":
				for _, f := range strings.Fields(e) {
					p.facets[f] = true
				}
			case "roots":
				p.roots = append(p.roots, strings.Fields(e)...)
			case "variant":
				f := strings.Fields(e)
				p.variants[f[0]] = f[1]
			case "also":
				p.also = append(p.also, strings.Fields(e)...)
			case "bounded":
				p.bounded = append(p.bounded, e)
			case "include":
				p.include = append(p.include, strings.Fields(e)...)
			case "limit": // limit FACETS : FUNCTIONS
				i := strings.Index(e, ":")
				if i < 0 {
					specFail("%s: limit needs a colon", b[1])
				}
				for _, f := range strings.Fields(e[i+1:]) {
					p.limits[f] = strings.Fields(e[:i])
				}
			case "concurrent":
				p.concurrent = true
			case "maypanic":
				p.nopanic = false
			default:
				specFail("%s: unknown clause %q", b[1], k)
			}
		}
		sp.props[p.id] = p
	default:
		specFail("%s: unknown block %q", at, kw)
	}
}

func (sp *Spec) parseRole(rest, at string, body [][2]string) *Role {
	name, ps, r := signature(rest, at)
	ro := &Role{path: name, params: names(parseParams(ps))}
	if r != "" {
		ro.results = names(parseParams(r))
	}
	for _, b := range body {
		k, e := splitWord(b[0])
		switch k {
		case "requires":
			ro.requires = append(ro.requires, clause(e, b[1]))
		case "ensures":
			ro.ensures = append(ro.ensures, clause(e, b[1]))
		case "ghost":
			ro.ghosts = append(ro.ghosts, parseParams(e)...)
		case "modifies":
			for _, m := range strings.Split(e, ",") {
				ro.modifies = append(ro.modifies, strings.TrimSpace(m))
			}
		default:
			specFail("%s: unknown clause %q", b[1], k)
		}
	}
	return ro
}

// ---- lookup

func fnKey(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Parent() != nil {
		n := fn.Name()
		if i := strings.LastIndex(n, "$"); i >= 0 {
			n = n[i:]
		}
		return fnKey(fn.Parent()) + n
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "." + fn.Name()
		}
	}
	return fn.Name()
}

func (sp *Spec) lookup(prop *PropCfg, name string) *Contract {
	c := sp.contracts[name]
	if v, ok := prop.variants[name]; ok {
		c = sp.contracts[name+"#"+v]
	}
	lim, ok := prop.limits[name]
	if c == nil || !ok {
		return c
	}
	if f := prop.filtered[name]; f != nil {
		return f
	}
	keep := func(cs []Clause) []Clause {
		var out []Clause
		for _, cl := range cs {
			on := len(cl.facets) == 0
			for _, a := range cl.facets {
				for _, b := range lim {
					on = on || a == b || b == "*"
				}
			}
			if on {
				out = append(out, cl)
			}
		}
		return out
	}
	f := *c
	f.requires, f.ensures, f.panics, f.insts = keep(c.requires), keep(c.ensures), keep(c.panics), keep(c.insts)
	f.opens = keep(c.opens)
	prop.filtered[name] = &f
	return &f
}

// contractFor returns the contract that replaces calls of fn.
func (sp *Spec) contractFor(x *Exec, fn *ssa.Function) *Contract {
	if fn.Pkg != nil && fn.Pkg != x.w.pkg {
		return nil
	}
	if fn.Parent() != nil {
		return nil
	}
	c := sp.lookup(x.prop, fnKey(fn))
	if c == nil || c.inline {
		return nil
	}
	return c
}

// ---- evaluation

// TV is a value in a specification together with its Go type, if it has one.
type TV struct {
	v   V
	typ types.Type
	lit *big.Int
}

// Env is an evaluation context.
type Env struct {
	x     *Exec
	w     *World
	sp    *Spec
	st    *State
	old   *State
	vars  map[string]TV
	ovars map[string]TV // values in the old state, if different
	depth int
}

func (e *Env) with(name string, v TV) *Env {
	n := *e
	n.vars = map[string]TV{}
	for k, x := range e.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

func (sp *Spec) sortOf(name string) Sort {
	switch name {
	case "node":
		return sNode
	case "addr":
		return bv(sp.w.w)
	case "u128":
		return bv(128)
	case "u64":
		return bv(64)
	case "u32", "len":
		return bv(32)
	case "u16":
		return bv(16)
	case "u8":
		return bv(8)
	case "bool":
		return sBool
	case "val":
		return sVal
	case "cls":
		return sCls
	case "int":
		return sInt
	case "str":
		return sStr
	case "world":
		return sWld
	}
	if strings.HasPrefix(name, "bv") {
		n, err := strconv.Atoi(name[2:])
		if err == nil {
			return bv(n)
		}
	}
	specFail("unknown sort %q", name)
	return Sort{}
}

// term converts a value to a single term, with literals taking the given sort.
func (e *Env) term(t TV, s Sort) *T {
	if t.lit != nil {
		if s == sInt {
			return mk("const", "", 0, 0, t.lit, sInt)
		}
		if !s.isBV() {
			specFail("literal %s used as %s", t.lit, s)
		}
		return bvc(t.lit, s.W)
	}
	switch v := t.v.(type) {
	case *T:
		return v
	case *VAgg:
		if p, ok := pack(v); ok {
			return p
		}
	case VNil:
		if s == sNode {
			return nilNode()
		}
		if s == sVal {
			return mkVar("nilVal", sVal)
		}
	case *VPtr:
		if o := e.st.heap[v.obj]; o != nil && len(v.path) == 0 && e.w.isNodeStruct(o.typ) {
			return e.x.freeze(e.st, v.obj)
		}
	case *VIface:
		if s == sVal {
			return e.x.asVal(e.st, v)
		}
	}
	unsup("specification uses %s as a term of sort %s", showV(t.v), s)
	return nil
}

func (e *Env) bool(x ast.Expr) *T {
	t := e.term(e.eval(x), sBool)
	if t.sort != sBool {
		specFail("%s is not boolean", exprString(x))
	}
	return t
}

func exprString(x ast.Expr) string { return types.ExprString(x) }

// pair makes two operands agree on a sort.
func (e *Env) pair(a, b TV) (*T, *T) {
	switch {
	case a.lit != nil && b.lit != nil:
		return mk("const", "", 0, 0, a.lit, sInt), mk("const", "", 0, 0, b.lit, sInt)
	case a.lit != nil:
		y := e.term(b, Sort{})
		return e.term(a, y.sort), y
	case b.lit != nil:
		x := e.term(a, Sort{})
		return x, e.term(b, x.sort)
	}
	if _, ok := a.v.(VNil); ok {
		y := e.term(b, sNode)
		return e.term(a, y.sort), y
	}
	x := e.term(a, sNode)
	y := e.term(b, x.sort)
	if x.sort != y.sort && x.sort.isBV() && y.sort.isBV() {
		// lengths come as uint32 and int; widen the narrower one
		if x.sort.W < y.sort.W {
			x = zext(x, y.sort.W-x.sort.W)
		} else {
			y = zext(y, x.sort.W-y.sort.W)
		}
	}
	return x, y
}

func isNilV(v V) bool { _, ok := v.(VNil); return ok }

func (e *Env) equal(a, b TV) *T {
	if a.lit == nil && b.lit == nil {
		if isNilV(b.v) && !isNilV(a.v) || isNilV(a.v) && !isNilV(b.v) {
			v := a.v
			if isNilV(a.v) {
				v = b.v
			}
			switch p := v.(type) {
			case *T:
				if p.sort == sNode {
					return eq(p, nilNode())
				}
				if p.sort == sVal {
					return eq(p, mkVar("nilVal", sVal))
				}
			case *VErr:
				return not(p.nonnil)
			case *VFunc:
				return p.isnil
			case *VISym:
				return not(p.nonnil)
			case *VSym:
				return p.isnil
			default:
				return mkFalse()
			}
		}
		if isNilV(a.v) && isNilV(b.v) {
			return mkTrue()
		}
		if x, ok := a.v.(*VAgg); ok {
			if y, ok := b.v.(*VAgg); ok && len(x.e) == len(y.e) {
				_, p1 := pack(x)
				_, p2 := pack(y)
				if !p1 || !p2 {
					var cs []*T
					for i := range x.e {
						cs = append(cs, e.equal(TV{v: x.e[i]}, TV{v: y.e[i]}))
					}
					return and(cs...)
				}
			}
		}
		if x, ok := a.v.(*VPtr); ok {
			if y, ok := b.v.(*VPtr); ok {
				return mkBool(x.obj == y.obj && samePath(x.path, y.path))
			}
		}
		if x, ok := a.v.(*VErr); ok {
			if y, ok := b.v.(*VErr); ok {
				return eq(x.nonnil, y.nonnil)
			}
		}
		if _, ok := a.v.(*VClosure); ok {
			return mkBool(sameV(a.v, b.v))
		}
		if _, ok := a.v.(*VFunc); ok {
			return mkBool(sameV(a.v, b.v))
		}
	}
	x, y := e.pair(a, b)
	if x.sort != y.sort {
		specFail("comparison of %s and %s", x.sort, y.sort)
	}
	return eq(x, y)
}

func (e *Env) eval(x ast.Expr) TV {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X)
	case *ast.BasicLit:
		if n.Kind == token.INT {
			v, ok := new(big.Int).SetString(n.Value, 0)
			if !ok {
				specFail("literal %s", n.Value)
			}
			return TV{lit: v}
		}
		if n.Kind == token.STRING {
			s, _ := strconv.Unquote(n.Value)
			return TV{v: strConst(s)}
		}
	case *ast.Ident:
		if v, ok := e.vars[n.Name]; ok {
			return v
		}
		switch n.Name {
		case "true":
			return TV{v: mkTrue()}
		case "false":
			return TV{v: mkFalse()}
		case "nil":
			return TV{v: VNil{}}
		case "WB": // bytes of an address
			return TV{lit: big.NewInt(int64(e.w.w / 8))}
		case "W":
			return TV{lit: big.NewInt(int64(e.w.w))}
		case "ones":
			return TV{v: bvc(maskBig(e.w.w), e.w.w)}
		case "none":
			return TV{v: mkVar("none", sCls)}
		case "zeroT":
			return TV{v: mkVar("zeroT", sVal)}
		case "nilVal":
			return TV{v: mkVar("nilVal", sVal)}
		}
		if c, ok := e.sp.consts[n.Name]; ok {
			return e.eval(c)
		}
		unsup("unknown name %q in specification", n.Name)
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return TV{v: not(e.bool(n.X))}
		case token.XOR:
			return TV{v: bvnot(e.term(e.eval(n.X), Sort{}))}
		case token.SUB:
			t := e.eval(n.X)
			if t.lit != nil {
				return TV{lit: new(big.Int).Neg(t.lit)}
			}
			return TV{v: bvneg(e.term(t, Sort{}))}
		}
	case *ast.BinaryExpr:
		return e.binary(n)
	case *ast.StarExpr:
		p := e.eval(n.X)
		if a, ok := p.v.(*VPtr); ok {
			return TV{v: e.x.selPath(e.st.heap[a.obj].v, a.path), typ: deref(p.typ)}
		}
		unsup("dereference of %s in specification", showV(p.v))
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok && id.Name == "g" {
			if t, ok := e.st.ghost["g."+n.Sel.Name]; ok {
				return TV{v: t}
			}
			specFail("unknown ghost variable %s", n.Sel.Name)
		}
		return e.field(e.eval(n.X), n.Sel.Name)
	case *ast.IndexExpr:
		a, i := e.eval(n.X), e.eval(n.Index)
		if i.lit == nil {
			unsup("symbolic index in specification")
		}
		k := int(i.lit.Int64())
		switch v := a.v.(type) {
		case *VSlice:
			if k >= v.hi-v.lo {
				unsup("index %d of a slice of length %d in specification", k, v.hi-v.lo)
			}
			return TV{v: e.st.heap[v.obj].v.(*VAgg).e[v.lo+k], typ: elemType(a.typ)}
		case *VAgg:
			return TV{v: v.e[k], typ: elemType(a.typ)}
		case *VSym:
			if k+v.off < len(v.elems) {
				return TV{v: v.elems[k+v.off]}
			}
		}
		unsup("index of %s in specification", showV(a.v))
	case *ast.CallExpr:
		return e.call(n)
	}
	specFail("unsupported expression %s", exprString(x))
	return TV{}
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

func (e *Env) field(t TV, name string) TV {
	v, typ := t.v, t.typ
	if f, ok := v.(*VIface); ok {
		v, typ = f.v, f.typ
	}
	if typ == nil {
		unsup("field %s of an untyped value in specification", name)
	}
	if p := deref(typ); p != nil {
		switch a := v.(type) {
		case *VPtr:
			v = e.x.selPath(e.st.heap[a.obj].v, a.path)
		case *T:
			if a.sort == sNode {
				v = e.w.nodeValue(a)
			}
		default:
			unsup("field %s of %s in specification", name, showV(v))
		}
		typ = p
	}
	s, ok := typ.Underlying().(*types.Struct)
	if !ok {
		unsup("field %s of %s in specification", name, typ)
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return TV{v: v.(*VAgg).e[i], typ: s.Field(i).Type()}
		}
	}
	unsup("no field %s in %s", name, typ)
	return TV{}
}

func (e *Env) binary(n *ast.BinaryExpr) TV {
	switch n.Op {
	case token.LAND:
		a := e.bool(n.X)
		if a.isFalse() {
			return TV{v: a}
		}
		return TV{v: and(a, e.bool(n.Y))}
	case token.LOR:
		a := e.bool(n.X)
		if a.isTrue() {
			return TV{v: a}
		}
		return TV{v: or(a, e.bool(n.Y))}
	}
	a, b := e.eval(n.X), e.eval(n.Y)
	switch n.Op {
	case token.EQL:
		return TV{v: e.equal(a, b)}
	case token.NEQ:
		return TV{v: not(e.equal(a, b))}
	}
	if a.lit != nil && b.lit != nil {
		r := new(big.Int)
		switch n.Op {
		case token.ADD:
			return TV{lit: r.Add(a.lit, b.lit)}
		case token.SUB:
			return TV{lit: r.Sub(a.lit, b.lit)}
		case token.MUL:
			return TV{lit: r.Mul(a.lit, b.lit)}
		case token.SHL:
			return TV{lit: r.Lsh(a.lit, uint(b.lit.Int64()))}
		}
	}
	if n.Op == token.SHL || n.Op == token.SHR {
		x := e.term(a, Sort{})
		var y *T
		if b.lit != nil {
			y = bvc(b.lit, x.sort.W)
		} else {
			y = shiftCount(e.term(b, Sort{}), x.sort.W)
		}
		if n.Op == token.SHL {
			return TV{v: bvbin("bvshl", x, y)}
		}
		return TV{v: bvbin("bvlshr", x, y)}
	}
	x, y := e.pair(a, b)
	if x.sort == sInt {
		switch n.Op {
		case token.ADD:
			return TV{v: intbin("+", x, y)}
		case token.SUB:
			return TV{v: intbin("-", x, y)}
		case token.MUL:
			return TV{v: intbin("*", x, y)}
		case token.LSS:
			return TV{v: intcmp("<", x, y)}
		case token.LEQ:
			return TV{v: intcmp("<=", x, y)}
		case token.GTR:
			return TV{v: intcmp("<", y, x)}
		case token.GEQ:
			return TV{v: intcmp("<=", y, x)}
		}
	}
	ops := map[token.Token]string{token.ADD: "bvadd", token.SUB: "bvsub", token.MUL: "bvmul", token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor"}
	if o, ok := ops[n.Op]; ok {
		return TV{v: bvbin(o, x, y)}
	}
	switch n.Op {
	case token.AND_NOT:
		return TV{v: bvbin("bvand", x, bvnot(y))}
	case token.LSS:
		return TV{v: bvcmp("bvult", x, y)}
	case token.LEQ:
		return TV{v: bvcmp("bvule", x, y)}
	case token.GTR:
		return TV{v: bvcmp("bvult", y, x)}
	case token.GEQ:
		return TV{v: bvcmp("bvule", y, x)}
	}
	specFail("operator %s", n.Op)
	return TV{}
}

// nodeFn returns the field function of a trie node by role.
func (w *World) nodeFn(kind string) nodeField {
	pos := map[string]string{"addr": "f.Prefix.addr.ui", "len": "f.Prefix.length", "data": "f.Data", "size": "f.size",
		"hgt": "f.h", "active": "f.isActive", "c0": "f.children.0", "c1": "f.children.1"}
	want := pos[kind]
	for _, f := range w.nodeFields() {
		if f.fn == want {
			return f
		}
	}
	unsup("the trie node has no field %s", want)
	return nodeField{}
}

func (e *Env) call(n *ast.CallExpr) TV {
	id, ok := n.Fun.(*ast.Ident)
	if !ok {
		specFail("call of %s", exprString(n.Fun))
	}
	arg := func(i int) TV { return e.eval(n.Args[i]) }
	switch id.Name {
	case "addr", "len", "active", "data", "size", "hgt", "c0", "c1":
		a := arg(0)
		if id.Name == "len" {
			switch v := a.v.(type) {
			case *VSlice:
				return TV{lit: big.NewInt(int64(v.hi - v.lo))}
			case *VSym:
				return TV{v: v.len}
			case VNil:
				if a.typ != nil {
					if _, ok := a.typ.Underlying().(*types.Slice); ok {
						return TV{lit: big.NewInt(0)}
					}
				}
			}
		}
		t := e.term(a, sNode)
		f := e.w.nodeFn(id.Name)
		return TV{v: app(f.fn, f.sort, t)}
	case "imp":
		a := e.bool(n.Args[0])
		if a.isFalse() {
			return TV{v: mkTrue()}
		}
		return TV{v: imp(a, e.bool(n.Args[1]))}
	case "ite":
		c := e.bool(n.Args[0])
		if c.isTrue() {
			return arg(1)
		}
		if c.isFalse() {
			return arg(2)
		}
		x, y := e.pair(arg(1), arg(2))
		return TV{v: ite(c, x, y)}
	case "old":
		o := *e
		if e.old == nil {
			specFail("old() has no meaning here")
		}
		o.st = e.old
		if e.ovars != nil {
			o.vars = e.ovars
		}
		return o.eval(n.Args[0])
	case "bit": // bit(a, i): the i-th bit from the top
		a := e.term(arg(0), Sort{})
		i := shiftCount(e.term(arg(1), bv(a.sort.W)), a.sort.W)
		return TV{v: eq(extract(a.sort.W-1, a.sort.W-1, bvbin("bvshl", a, i)), bvi(1, 1))}
	case "mask": // mask(l): l ones, then zeros
		w := e.w.w
		l := shiftCount(e.term(arg(0), bv(w)), w)
		return TV{v: bvbin("bvshl", bvc(maskBig(w), w), bvbin("bvsub", bvi(int64(w), w), l))}
	case "hostmask":
		w := e.w.w
		l := shiftCount(e.term(arg(0), bv(w)), w)
		return TV{v: bvbin("bvlshr", bvc(maskBig(w), w), l)}
	case "clz":
		return TV{v: clz(e.term(arg(0), Sort{}))}
	case "popcount":
		return TV{v: popcount(e.term(arg(0), Sort{}))}
	case "zx": // zx(x, w): resize, zero extending
		a, wd := e.eval(n.Args[0]), arg(1)
		if wd.lit == nil {
			specFail("zx needs a literal width")
		}
		k := int(wd.lit.Int64())
		if a.lit != nil {
			return TV{v: bvc(a.lit, k)}
		}
		return TV{v: resize(e.term(a, Sort{}), k, false)}
	case "sx":
		return TV{v: resize(e.term(arg(0), Sort{}), int(arg(1).lit.Int64()), true)}
	case "text": // text(a, b, …): strings joined
		var p []*T
		for i := range n.Args {
			p = append(p, e.term(arg(i), sStr))
		}
		return TV{v: catText(p...)}
	case "dec":
		return TV{v: decText(e.term(arg(0), bv(64)))}
	case "dotted":
		return TV{v: dottedText(e.term(arg(0), bv(32)))}
	case "colontext":
		return TV{v: colonText(e.term(arg(0), bv(128)))}
	case "tipok":
		return TV{v: tipOK(e.term(arg(0), sStr))}
	case "tipval":
		return TV{v: tipVal(e.term(arg(0), sStr))}
	case "hascolon":
		return TV{v: tipColon(e.term(arg(0), sStr))}
	case "tcidrok":
		return TV{v: tcidrOK(e.term(arg(0), sStr))}
	case "tcidrval":
		return TV{v: tcidrVal(e.term(arg(0), sStr))}
	case "tcidrlen":
		return TV{v: tcidrLen(e.term(arg(0), sStr))}
	case "slt":
		x, y := e.pair(arg(0), arg(1))
		return TV{v: bvcmp("bvslt", x, y)}
	case "sle":
		x, y := e.pair(arg(0), arg(1))
		return TV{v: bvcmp("bvsle", x, y)}
	case "b2i":
		return TV{v: ite(e.bool(n.Args[0]), intc(1), intc(0))}
	case "toint": // a bit vector as a natural number
		t := e.term(arg(0), Sort{})
		return TV{v: bv2int(t)}
	case "cls":
		return TV{v: app("cls", sCls, e.term(arg(0), sVal))}
	case "box":
		return TV{v: app("boxT", sVal, e.term(arg(0), sVal))}
	case "unbox":
		t := e.term(arg(0), sVal)
		return TV{v: ite(app("isT", sBool, t), app("unboxT", sVal, t), mkVar("zeroT", sVal))}
	case "comparable": // the dynamic type of an interface value can be compared
		return TV{v: app("comparable", sBool, e.term(arg(0), sVal))}
	case "isfam": // isfam(x, ipv4): the dynamic type of an interface value is one of that package
		i, ok := arg(0).v.(*VIface)
		if !ok {
			return TV{v: mkFalse()}
		}
		nt, ok := i.typ.(*types.Named)
		id, ok2 := n.Args[1].(*ast.Ident)
		return TV{v: mkBool(ok && ok2 && nt.Obj().Pkg().Path() == modPath+id.Name)}
	case "isT":
		return TV{v: app("isT", sBool, e.term(arg(0), sVal))}
	case "slen": // length of a slice
		return TV{v: sliceLen(arg(0).v)}
	case "elem": // element of a slice or array
		return e.eval(&ast.IndexExpr{X: n.Args[0], Index: n.Args[1]})
	case "be": // be(s[, n]): the first n (or address width) bytes of s as a big endian number
		k := e.w.w / 8
		if len(n.Args) > 1 {
			k = int(arg(1).lit.Int64())
		}
		bs, ok := e.x.byteSlice(e.st, arg(0).v)
		if !ok || len(bs.elems) < k {
			unsup("be(%s) of %d bytes", exprString(n.Args[0]), k)
		}
		return TV{v: bigEndian(bs.elems[:k])}
	case "cat": // concatenation of bit vectors
		var t *T
		for i := range n.Args {
			a := e.term(arg(i), Sort{})
			if t == nil {
				t = a
			} else {
				t = concat(t, a)
			}
		}
		return TV{v: t}
	case "packed": // a struct of integers as one bit vector
		t, ok := pack(arg(0).v)
		if !ok {
			unsup("cannot pack %s", exprString(n.Args[0]))
		}
		return TV{v: t}
	case "isnilv":
		return TV{v: e.equal(arg(0), TV{v: VNil{}})}
	case "same": // the same node, slice or pointer
		return TV{v: e.equal(arg(0), arg(1))}
	case "isnew": // a pointer to something that did not exist on entry
		p, ok := arg(0).v.(*VPtr)
		return TV{v: mkBool(ok && e.x.unit.pre != nil && e.x.unit.pre.heap[p.obj] == nil)}
	case "trieof": // the trie of something that can be converted to a set
		return TV{v: e.trieOf(arg(0))}
	case "prefixof":
		return e.prefixOf(arg(0))
	case "isptr":
		_, ok := arg(0).v.(*VPtr)
		return TV{v: mkBool(ok)}
	case "fin": // the node an owned parameter ended up as
		a := arg(0)
		if p, ok := a.v.(*VPtr); ok {
			return TV{v: e.x.freeze(e.st, p.obj), typ: a.typ}
		}
		return a
	case "conj":
		r := mkTrue()
		for _, a := range n.Args {
			r = and(r, e.bool(a))
		}
		return TV{v: r}
	case "anynode": // anynode(n, expr): for some node that occurs; only to be proved, never assumed
		r := mkFalse()
		for _, t := range e.st.nodes {
			r = or(r, e.with(n.Args[0].(*ast.Ident).Name, TV{v: t}).bool(n.Args[1]))
		}
		return TV{v: r}
	case "let": // let(name, value, body)
		return e.with(n.Args[0].(*ast.Ident).Name, arg(1)).eval(n.Args[2])
	}
	f, ok := e.sp.funs[id.Name]
	if !ok {
		specFail("unknown function %s", id.Name)
	}
	if len(n.Args) != len(f.params) {
		specFail("%s takes %d arguments", id.Name, len(f.params))
	}
	if f.macro {
		ne := *e
		ne.vars = map[string]TV{}
		if ne.depth++; ne.depth > 100 {
			specFail("definitions nest too deeply in %s", f.name)
		}
		for i, p := range f.params {
			v := arg(i)
			if p.sort != "" && p.sort != "any" {
				s := e.sp.sortOf(p.sort)
				t := e.term(v, s)
				if t.sort != s && t.sort.isBV() && s.isBV() {
					t = resize(t, s.W, false)
				}
				if t.sort != s {
					specFail("argument %d of %s has sort %s", i, f.name, t.sort)
				}
				v = TV{v: t}
			}
			ne.vars[p.name] = v
		}
		return ne.eval(f.body)
	}
	var as []*T
	for i, p := range f.params {
		s := e.sp.sortOf(p.sort)
		t := e.term(arg(i), s)
		if t.sort != s && t.sort.isBV() && s.isBV() {
			t = resize(t, s.W, false)
		}
		if t.sort != s {
			specFail("argument %d of %s has sort %s in %s", i, f.name, t.sort, exprString(n))
		}
		as = append(as, t)
	}
	return TV{v: e.sp.appFun(f, as)}
}

func (sp *Spec) appFun(f *SpecFun, as []*T) *T {
	if f.nilBody != nil && len(as) > 0 && as[0] == nilNode() {
		return sp.unfoldNil(f, as)
	}
	return app(f.name, sp.sortOf(f.ret), as...)
}

// unfold returns the body of a spec function at the given arguments.
func (sp *Spec) unfold(f *SpecFun, as []*T) *T {
	e := &Env{w: sp.w, sp: sp, vars: map[string]TV{}}
	for i, p := range f.params {
		e.vars[p.name] = TV{v: as[i]}
	}
	return e.term(e.eval(f.body), sp.sortOf(f.ret))
}

func (sp *Spec) unfoldNil(f *SpecFun, as []*T) *T {
	e := &Env{w: sp.w, sp: sp, vars: map[string]TV{}}
	for i, p := range f.params {
		e.vars[p.name] = TV{v: as[i]}
	}
	return e.term(e.eval(f.nilBody), sp.sortOf(f.ret))
}

// trieOf gives the trie behind a Set, Set_, SetI, or nil.
func (e *Env) trieOf(t TV) *T {
	switch v := t.v.(type) {
	case VNil:
		return nilNode()
	case *VISym:
		g, ok := v.ghost["Set"]
		if !ok {
			unsup("trieof an unknown interface value")
		}
		return e.term(TV{v: g.(*VAgg).e[0]}, sNode)
	case *VIface:
		return e.trieOf(TV{v: v.v, typ: v.typ})
	case *VAgg:
		if len(v.e) == 1 {
			switch p := v.e[0].(type) {
			case *VPtr: // Set_
				if a, ok := e.x.selPath(e.st.heap[p.obj].v, p.path).(*VAgg); ok && len(a.e) > 0 {
					return e.term(TV{v: a.e[0]}, sNode)
				}
			case VNil: // zero Set_
				return nilNode()
			case *VAgg: // Table, Table_
				return e.trieOf(TV{v: p})
			case *T:
				if p.sort == sNode {
					return p
				}
			}
		}
		if len(v.e) == 2 { // tableX
			return e.term(TV{v: v.e[0]}, sNode)
		}
	case *VPtr:
		return e.trieOf(TV{v: e.x.selPath(e.st.heap[v.obj].v, v.path), typ: deref(t.typ)})
	case *T:
		if v.sort == sNode {
			return v
		}
	}
	unsup("trieof %s", showV(t.v))
	return nil
}

func (e *Env) prefixOf(t TV) TV {
	pt := e.w.pkg.Type("Prefix").Type()
	switch v := t.v.(type) {
	case VNil:
		return TV{v: zeroVal(e.w, pt), typ: pt}
	case *VISym:
		if g, ok := v.ghost["Prefix"]; ok {
			return TV{v: g, typ: pt}
		}
	case *VIface:
		return e.prefixOf(TV{v: v.v, typ: v.typ})
	case *VAgg:
		if t.typ != nil && types.Identical(t.typ, pt) {
			return TV{v: v, typ: pt}
		}
	}
	unsup("prefixof %s", showV(t.v))
	return TV{}
}

// ---- counting bits

func clz(t *T) *T {
	w := t.sort.W
	if t.isConst() {
		return bvi(int64(w-t.val.BitLen()), w)
	}
	return app(fmt.Sprintf("clz%d", w), bv(w), t)
}

func popcount(t *T) *T {
	if t.isConst() {
		n := 0
		for i := 0; i < t.val.BitLen(); i++ {
			n += int(t.val.Bit(i))
		}
		return bvi(int64(n), t.sort.W)
	}
	return app(fmt.Sprintf("popcount%d", t.sort.W), bv(t.sort.W), t)
}

// bv2int is the number a bit vector stands for; the solvers see it as a function
// with the axioms of Query.intAxioms.
func bv2int(t *T) *T {
	if t.isConst() {
		return mk("const", "", 0, 0, t.val, sInt)
	}
	return app(fmt.Sprintf("toint%d", t.sort.W), sInt, t)
}

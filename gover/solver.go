package main

// From obligations to solver queries: instantiation of definitions, contracts
// of callees, lemmas and bit counting axioms; the solver portfolio.

import (
	"bytes"
	"context"
	"fmt"
	"go/ast"
	"math/big"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

const (
	maxRounds = 7
	maxInst   = 4000
)

// Query collects the assertions of one proof attempt.
type Query struct {
	x      *Exec
	list   []*T
	seen   map[*T]bool // asserted
	terms  map[*T]bool // visited subterms
	nodes  map[*T]bool
	queue  []*T
	done   map[string]bool
	lemmas []*Lemma
	n      int
	over   bool
	ints   map[int][]*T
	cmps   []*T
}

func (q *Query) assert(t *T) {
	if t.op == "and" {
		for _, a := range t.args {
			q.assert(a)
		}
		return
	}
	if t.isTrue() || q.seen[t] {
		return
	}
	q.n++
	q.seen[t] = true
	q.list = append(q.list, t)
	q.scan(t)
}

func (q *Query) scan(t *T) {
	if q.terms[t] {
		return
	}
	q.terms[t] = true
	for _, a := range t.args {
		q.scan(a)
	}
	switch t.op {
	case "app":
		q.queue = append(q.queue, t)
	case "bvult", "bvule":
		q.cmps = append(q.cmps, t)
	}
}

func (q *Query) isNode(n *T) bool { return q.nodes[n] }

// inst adds what is known about one application.
func (q *Query) inst(t *T) {
	sp := q.x.spec
	if l := q.x.unit.lemma; l != nil && l.hide[t.name] {
		return
	}
	if c := q.x.unit.c; c != nil && c.hide[t.name] {
		return
	}
	if f, ok := sp.funs[t.name]; ok && !f.macro {
		n := t.args[0]
		if n.sort == sNode && f.nilBody != nil {
			switch {
			case n.op == "ite":
				a := append([]*T{n.args[1]}, t.args[1:]...)
				b := append([]*T{n.args[2]}, t.args[1:]...)
				q.assert(eq(t, ite(n.args[0], sp.appFun(f, a), sp.appFun(f, b))))
			case q.isNode(n):
				q.assert(ite(eq(n, nilNode()), eq(t, sp.unfoldNil(f, t.args)), eq(t, sp.unfold(f, t.args))))
			default:
				q.assert(imp(eq(n, nilNode()), eq(t, sp.unfoldNil(f, t.args))))
			}
		} else if f.nilBody == nil && f.body != nil {
			q.assert(eq(t, sp.unfold(f, t.args)))
		}
	}
	switch {
	case strings.HasPrefix(t.name, "clz"):
		q.clzAxioms(t)
	case strings.HasPrefix(t.name, "popcount"):
		q.popAxioms(t)
	case strings.HasPrefix(t.name, "toint"):
		q.intAxioms(t)
	case strings.HasPrefix(t.name, "text"), strings.HasPrefix(t.name, "tip."), strings.HasPrefix(t.name, "tcidr."):
		q.textAxioms(t)
	case t.name == "cls":
		q.assert(neq(t, mkVar("none", sCls)))
	case t.name == "isT":
		q.assert(imp(eq(t.args[0], mkVar("nilVal", sVal)), not(t)))
	case t.name == "boxT":
		// a nil T of an interface type becomes a nil interface value, which holds no T
		q.assert(or(app("isT", sBool, t), eq(t.args[0], mkVar("zeroT", sVal))))
		q.assert(imp(app("isT", sBool, t), eq(app("unboxT", sVal, t), t.args[0])))
	}
}

func (q *Query) clzAxioms(t *T) {
	a := t.args[0]
	w := a.sort.W
	if t.name != fmt.Sprintf("clz%d", w) {
		return
	}
	wc := bvi(int64(w), w)
	q.assert(bvcmp("bvule", t, wc))
	q.assert(eq(eq(a, bvi(0, w)), eq(t, wc)))
	q.assert(or(eq(t, wc), eq(extract(w-1, w-1, bvbin("bvshl", a, t)), bvi(1, 1))))
	q.assert(eq(bvbin("bvlshr", a, bvbin("bvsub", wc, t)), bvi(0, w)))
}

func (q *Query) popAxioms(t *T) {
	a := t.args[0]
	w := a.sort.W
	if t.name != fmt.Sprintf("popcount%d", w) {
		return
	}
	wc := bvi(int64(w), w)
	q.assert(bvcmp("bvule", t, wc))
	z := clz(bvnot(a)) // leading ones
	// as many ones as leading ones: exactly the contiguous masks
	q.assert(bvcmp("bvule", z, t))
	q.assert(eq(eq(t, z), eq(bvbin("bvshl", a, z), bvi(0, w))))
	if w == 128 {
		q.assert(eq(t, bvbin("bvadd", zext(popcount(extract(127, 64, a)), 64), zext(popcount(extract(63, 0, a)), 64))))
	}
}

// intAxioms relates bit vectors to the numbers they stand for.
func (q *Query) intAxioms(t *T) {
	a := t.args[0]
	w := a.sort.W
	two := func(k int) *T { return mk("const", "", 0, 0, new(big.Int).Lsh(big.NewInt(1), uint(k)), sInt) }
	q.assert(intcmp("<=", intc(0), t))
	q.assert(intcmp("<", t, two(w)))
	for _, b := range q.ints[w] { // order
		q.assert(eq(bvcmp("bvule", a, b), intcmp("<=", t, bv2int(b))))
		q.assert(eq(bvcmp("bvule", b, a), intcmp("<=", bv2int(b), t)))
	}
	if q.ints == nil {
		q.ints = map[int][]*T{}
	}
	q.ints[w] = append(q.ints[w], a)
	switch a.op {
	case "bvadd":
		s := bv2int(a.args[0])
		var wrap []*T
		sum := a.args[0]
		for _, b := range a.args[1:] {
			sum = bvbin("bvadd", sum, b)
			s = intbin("+", s, bv2int(b))
			wrap = append(wrap, bvcmp("bvult", sum, b))
		}
		if len(a.args) == 2 && sum == a {
			q.assert(eq(t, ite(wrap[0], intbin("-", s, two(w)), s)))
		}
	case "bvsub":
		s := intbin("-", bv2int(a.args[0]), bv2int(a.args[1]))
		q.assert(eq(t, ite(bvcmp("bvult", a.args[0], a.args[1]), intbin("+", s, two(w)), s)))
	case "bvnot":
		q.assert(eq(t, intbin("-", intbin("-", two(w), intc(1)), bv2int(a.args[0]))))
	case "zero_extend":
		q.assert(eq(t, bv2int(a.args[0])))
	case "concat":
		if isZero(a.args[0]) {
			q.assert(eq(t, bv2int(a.args[1])))
		}
	case "ite":
		q.assert(eq(t, ite(a.args[0], bv2int(a.args[1]), bv2int(a.args[2]))))
	}
}

// intCompares carries comparisons over to the numbers that are spoken about.
func (q *Query) intCompares() {
	if len(q.ints) == 0 {
		return
	}
	has := map[*T]bool{}
	for _, l := range q.ints {
		for _, t := range l {
			has[t] = true
		}
	}
	for _, c := range append([]*T{}, q.cmps...) {
		a, b := c.args[0], c.args[1]
		if has[a] != has[b] && !a.isConst() && !b.isConst() {
			q.assert(eq(c, intcmp(map[string]string{"bvult": "<", "bvule": "<="}[c.op], bv2int(a), bv2int(b))))
		}
	}
}

// match binds the variables of a pattern.
func match(p, t *T, vars map[*T]bool, b map[*T]*T) bool {
	if vars[p] {
		if o, ok := b[p]; ok {
			return o == t
		}
		if p.sort != t.sort {
			return false
		}
		b[p] = t
		return true
	}
	if p == t {
		return true
	}
	if p.op != t.op || p.name != t.name || p.i != t.i || p.j != t.j || p.sort != t.sort || len(p.args) != len(t.args) || len(p.args) == 0 {
		return false
	}
	for i := range p.args {
		if !match(p.args[i], t.args[i], vars, b) {
			return false
		}
	}
	return true
}

type lemmaForm struct {
	vars     map[*T]bool
	order    []*T
	triggers []*T
	f        *T
}

// form returns a lemma as a formula over its parameters.
func (x *Exec) lemmaForm(l *Lemma) *lemmaForm {
	lf := &lemmaForm{vars: map[*T]bool{}}
	e := &Env{x: x, w: x.w, sp: x.spec, st: newState(), vars: map[string]TV{}}
	for _, p := range l.params {
		v := mkVar("?"+l.name+"."+p.name, x.spec.sortOf(p.sort))
		lf.vars[v] = true
		lf.order = append(lf.order, v)
		e.vars[p.name] = TV{v: v}
	}
	pre := mkTrue()
	for _, c := range l.requires {
		if x.prop.on(c.facets) {
			pre = and(pre, e.bool(c.expr))
		}
	}
	post := mkTrue()
	for _, c := range l.ensures {
		if x.prop.on(c.facets) {
			post = and(post, e.bool(c.expr))
		}
	}
	lf.f = imp(pre, post)
	for _, t := range l.triggers {
		lf.triggers = append(lf.triggers, e.term(e.eval(t), Sort{}))
	}
	return lf
}

func (q *Query) instLemma(l *Lemma, lf *lemmaForm, apps []*T) {
	q.instForm(l.name, lf, apps)
}

type schemaForm struct {
	name string
	lf   *lemmaForm
}

// schemaForms turns what callees ensure for all ghost values into formulas
// instantiated wherever one of their own terms is spoken about.
func schemaForms(scs []schema) []schemaForm {
	var out []schemaForm
	for i, sc := range scs {
		vars := map[*T]bool{}
		for _, v := range sc.vars {
			vars[v] = true
		}
		var pats []*T
		seen := map[*T]bool{}
		var walk func(t *T)
		walk = func(t *T) {
			if seen[t] {
				return
			}
			seen[t] = true
			for _, a := range t.args {
				walk(a)
			}
			if t.op == "app" {
				have := map[*T]bool{}
				plain := true
				for _, a := range t.args {
					if vars[a] {
						have[a] = true
					} else if hasVar(a, vars) {
						plain = false
					}
				}
				if plain && len(have) == len(vars) {
					pats = append(pats, t)
				}
			}
		}
		walk(sc.f)
		for _, p := range pats {
			out = append(out, schemaForm{fmt.Sprintf("schema%d", i), &lemmaForm{vars: vars, order: sc.vars, triggers: []*T{p}, f: sc.f}})
		}
	}
	return out
}

func hasVar(t *T, vars map[*T]bool) bool {
	if vars[t] {
		return true
	}
	for _, a := range t.args {
		if hasVar(a, vars) {
			return true
		}
	}
	return false
}

func (q *Query) instForm(name string, lf *lemmaForm, apps []*T) {
	var rec func(i int, b map[*T]*T)
	rec = func(i int, b map[*T]*T) {
		if q.n > maxInst {
			q.over = true
			return
		}
		if i == len(lf.triggers) {
			key := name
			for _, v := range lf.order {
				t, ok := b[v]
				if !ok {
					specFail("trigger of lemma %s doesn't bind every parameter", name)
				}
				key += fmt.Sprintf(",%d", t.id)
			}
			if q.done[key] {
				return
			}
			q.done[key] = true
			if !strings.HasPrefix(name, "schema") {
				q.x.unit.usedLemma(name)
			}
			q.assert(subst(lf.f, b, map[*T]*T{}))
			return
		}
		for _, t := range apps {
			c := map[*T]*T{}
			for k, v := range b {
				c[k] = v
			}
			if match(lf.triggers[i], t, lf.vars, c) {
				rec(i+1, c)
			}
		}
	}
	rec(0, map[*T]*T{})
}

// build makes the assertions whose unsatisfiability proves the obligation.
func (x *Exec) build(o *Oblig) []*T {
	q := &Query{x: x, seen: map[*T]bool{}, terms: map[*T]bool{}, nodes: map[*T]bool{}, done: map[string]bool{}}
	for _, n := range o.nodes {
		q.nodes[n] = true
	}
	for _, t := range o.pc {
		q.assert(t)
	}
	q.assert(not(o.goal))
	// facts about callees for the ghost values at hand
	for _, sc := range o.schemas {
		cands := make([][]*T, len(sc.vars))
		ok := true
		for i, n := range sc.names {
			if v, has := x.unit.env.vars[n]; has && x.unit.ghostNames[n] {
				if t, isT := v.v.(*T); isT && t.sort == sc.vars[i].sort {
					cands[i] = append(cands[i], t)
				}
			}
			for _, t := range o.insts[n] {
				if t.sort == sc.vars[i].sort {
					cands[i] = append(cands[i], t)
				}
			}
			ok = ok && len(cands[i]) > 0
		}
		if !ok {
			continue
		}
		var rec func(i int, m map[*T]*T)
		rec = func(i int, m map[*T]*T) {
			if i == len(sc.vars) {
				q.assert(subst(sc.f, m, map[*T]*T{}))
				return
			}
			for _, c := range cands[i] {
				n := map[*T]*T{}
				for k, v := range m {
					n[k] = v
				}
				n[sc.vars[i]] = c
				rec(i+1, n)
			}
		}
		rec(0, map[*T]*T{})
	}
	auto := schemaForms(o.schemas)
	lemmas := x.lemmasFor()
	var forms []*lemmaForm
	for _, l := range lemmas {
		forms = append(forms, x.lemmaForm(l))
	}
	for round := 0; round < maxRounds; round++ {
		work := q.queue
		q.queue = nil
		if len(work) == 0 && round > 0 {
			break
		}
		for _, t := range work {
			q.inst(t)
			if q.n > maxInst {
				q.over = true
			}
		}
		if q.over {
			break
		}
		q.intCompares()
		if len(lemmas) > 0 || len(auto) > 0 {
			var apps []*T
			for t := range q.terms {
				if t.op == "app" {
					apps = append(apps, t)
				}
			}
			sort.Slice(apps, func(i, j int) bool { return apps[i].id < apps[j].id })
			for i, l := range lemmas {
				q.instLemma(l, forms[i], apps)
			}
			for _, a := range auto {
				q.instForm(a.name, a.lf, apps)
			}
		}
	}
	return q.list
}

// parts splits a goal into goals that together imply it.
func (x *Exec) parts(o *Oblig) []*T {
	isN := map[*T]bool{}
	for _, n := range o.nodes {
		isN[n] = true
	}
	var out []*T
	var rec func(t *T, hyp []*T, depth int)
	emit := func(t *T, hyp []*T) {
		g := t
		for i := len(hyp) - 1; i >= 0; i-- {
			g = imp(hyp[i], g)
		}
		if !g.isTrue() {
			out = append(out, g)
		}
	}
	more := func(hyp []*T, h *T) []*T { return append(append([]*T{}, hyp...), h) }
	rec = func(t *T, hyp []*T, depth int) {
		if len(out) > 40 {
			emit(t, hyp)
			return
		}
		switch t.op {
		case "and":
			for _, a := range t.args {
				rec(a, hyp, depth)
			}
			return
		case "or":
			for i, a := range t.args {
				if a.op == "and" || a.op == "ite" || a.op == "app" && depth == 0 && x.spec.splittable(a) && isN[a.args[0]] {
					h := hyp
					for k, b := range t.args {
						if k != i {
							h = more(h, not(b))
						}
					}
					rec(a, h, depth)
					return
				}
			}
		case "ite":
			if t.sort == sBool {
				rec(t.args[1], more(hyp, t.args[0]), depth)
				rec(t.args[2], more(hyp, not(t.args[0])), depth)
				return
			}
		case "=":
			if t.args[0].sort == sBool {
				emit(t.args[1], more(hyp, t.args[0]))
				emit(t.args[0], more(hyp, t.args[1]))
				return
			}
		case "app":
			if depth == 0 && x.spec.splittable(t) && isN[t.args[0]] {
				f := x.spec.funs[t.name]
				n := t.args[0]
				rec(x.spec.unfoldNil(f, t.args), more(hyp, eq(n, nilNode())), 1)
				rec(x.spec.unfold(f, t.args), more(hyp, neq(n, nilNode())), 1)
				return
			}
		}
		emit(t, hyp)
	}
	rec(o.goal, nil, 0)
	return out
}

func (sp *Spec) splittable(t *T) bool {
	f, ok := sp.funs[t.name]
	return ok && !f.macro && f.nilBody != nil && t.sort == sBool && len(t.args) > 0 && t.args[0].sort == sNode
}

var buildLock sync.Mutex

// decide tries to prove an obligation as a whole and otherwise part by part.
func (x *Exec) decide(o *Oblig, script string, scale int, brief bool) (status, backend, output, last string) {
	st, be, out := solve(script, scale, brief, 0, 1)
	if st != "unknown" {
		return st, be, out, script
	}
	buildLock.Lock()
	ps := x.parts(o)
	var scripts []string
	if len(ps) > 1 {
		for _, p := range ps {
			q := *o
			q.goal = p
			scripts = append(scripts, smtScript(x.build(&q), nil))
		}
	}
	buildLock.Unlock()
	for i, s := range scripts {
		st, b, o2 := solve(s, scale, brief, 0, 99)
		if st != "unsat" {
			return st, b, fmt.Sprintf("part %d of %d: %s", i+1, len(scripts), o2), s
		}
		be = b
	}
	if len(scripts) > 1 {
		return "unsat", be, "", script
	}
	st, be, o2 := solve(script, scale, brief, 1, 99)
	return st, be, out + "; " + o2, script
}

// lemmasFor lists the lemmas a unit may use.
func (x *Exec) lemmasFor() []*Lemma {
	var out []*Lemma
	for _, l := range x.spec.lemmas {
		if x.unit.lemma == l {
			break // only earlier lemmas may be used to prove a lemma
		}
		if !x.prop.on(l.facets) {
			continue
		}
		if x.unit.lemma != nil && x.unit.lemma.only != nil && !x.unit.lemma.only[l.name] {
			continue
		}
		if x.unit.c != nil && x.unit.c.hide[l.name] {
			continue
		}
		out = append(out, l)
	}
	return out
}

// evalInsts evaluates the additional ghost values of the unit's contract.
func (x *Exec) evalInsts(st *State) map[string][]*T {
	out := map[string][]*T{}
	if x.unit == nil || x.unit.c == nil || x.unit.env == nil {
		return out
	}
	for _, c := range x.unit.c.insts {
		if !x.prop.on(c.facets) {
			continue
		}
		env := *x.unit.env
		env.st = st
		if x.unit.exitEnv != nil {
			env = *x.unit.exitEnv
		}
		if t := tryTerm(&env, c.expr, Sort{}); t != nil {
			out[c.aux] = append(out[c.aux], t)
		}
	}
	return out
}

// tryTerm evaluates an expression that may mention values that don't exist yet.
func tryTerm(e *Env, x ast.Expr, s Sort) (t *T) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case unsupported, specErr:
				t = nil
			default:
				panic(r)
			}
		}
	}()
	return e.term(e.eval(x), s)
}

// ---- solvers

type solverRun struct {
	name string
	args []string
	lim  time.Duration
}

var solverTime = struct {
	sync.Mutex
	ms    map[string]int64
	calls map[string]int
}{ms: map[string]int64{}, calls: map[string]int{}}

func runSolver(s solverRun, script string) string {
	ctx, cancel := context.WithTimeout(context.Background(), s.lim+2*time.Second)
	defer cancel()
	start := time.Now()
	cmd := exec.CommandContext(ctx, s.args[0], s.args[1:]...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	solverTime.Lock()
	solverTime.ms[s.name] += time.Since(start).Milliseconds()
	solverTime.calls[s.name]++
	solverTime.Unlock()
	return out.String()
}

func portfolio(quick bool, scale int) []solverRun {
	z := func(name, bin string, sec int, extra ...string) solverRun {
		d := time.Duration(sec*scale) * time.Second
		return solverRun{name, append([]string{bin, "-in", fmt.Sprintf("-T:%d", sec*scale), "-memory:3000"}, extra...), d}
	}
	c := func(sec int) solverRun {
		d := time.Duration(sec*scale) * time.Second
		return solverRun{"cvc5", []string{"cvc5", "--lang", "smt2", fmt.Sprintf("--tlimit=%d", sec*scale*1000), "-"}, d}
	}
	return []solverRun{
		z("z3-5", "z3-new", 10),
		z("z3-4.8", "z3", 10),
		z("z3-5", "z3-new", 30, "smt.random_seed=7", "smt.arith.solver=2"),
		c(30),
		z("z3-4.8", "z3", 60, "smt.random_seed=3"),
	}
}

func header(goal string) string {
	return "(set-option :produce-models true)\n(set-logic ALL)\n"
}

// solve decides one script: "unsat", "sat" or "unknown".
func solve(script string, scale int, brief bool, from, to int) (status, backend, output string) {
	body := header("") + script + "(check-sat)\n"
	var outs []string
	for i, s := range portfolio(true, scale) {
		if brief && i > 1 {
			break // something else has failed already
		}
		if i < from || i >= to {
			continue
		}
		out := strings.TrimSpace(runSolver(s, body))
		first := out
		if i := strings.IndexByte(out, '\n'); i >= 0 {
			first = out[:i]
		}
		switch first {
		case "unsat":
			return "unsat", s.name, ""
		case "sat":
			return "sat", s.name, ""
		}
		if len(first) > 200 {
			first = first[:200]
		}
		outs = append(outs, s.name+": "+first)
	}
	return "unknown", "", strings.Join(outs, "; ")
}

// model asks for values after a satisfiable query.
func getModel(script string, vars []modelVar) map[string]string {
	var b strings.Builder
	b.WriteString(header(""))
	b.WriteString(script)
	b.WriteString("(check-sat)\n")
	for _, v := range vars {
		fmt.Fprintf(&b, "(get-value (%s))\n", v.t.String())
	}
	out := runSolver(solverRun{"z3-5", []string{"z3-new", "-in", "-T:20"}, 20 * time.Second}, b.String())
	lines := strings.Split(strings.TrimSpace(out), "\n")
	m := map[string]string{}
	if len(lines) == 0 || lines[0] != "sat" {
		return m
	}
	lines = lines[1:]
	for i, v := range vars {
		if i < len(lines) {
			l := strings.TrimSuffix(strings.TrimPrefix(lines[i], "(("), "))")
			if k := strings.LastIndexAny(l, " "); k >= 0 {
				m[v.name] = l[k+1:]
			}
		}
	}
	return m
}

var quickCache = map[string]bool{}

// quickSat is a cheap satisfiability check; it may return true wrongly.
func quickSat(pc []*T) bool {
	script := smtScript(pc, nil)
	if r, ok := quickCache[script]; ok {
		return r
	}
	r := quickProc.check(script) != "unsat"
	quickCache[script] = r
	return r
}

// proc is a persistent solver process.
type proc struct {
	cmd *exec.Cmd
	in  interface{ Write([]byte) (int, error) }
	out chan string
}

var quickProc proc

func (p *proc) start() {
	p.cmd = exec.Command("z3-new", "-in")
	in, _ := p.cmd.StdinPipe()
	out, _ := p.cmd.StdoutPipe()
	p.in = in
	p.out = make(chan string, 100)
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	ch := p.out
	go func() {
		buf := make([]byte, 65536)
		var acc string
		for {
			n, err := out.Read(buf)
			acc += string(buf[:n])
			for {
				i := strings.IndexByte(acc, '\n')
				if i < 0 {
					break
				}
				ch <- acc[:i]
				acc = acc[i+1:]
			}
			if err != nil {
				close(ch)
				return
			}
		}
	}()
}

func (p *proc) check(script string) string {
	if p.cmd == nil {
		p.start()
	}
	start := time.Now()
	defer func() {
		solverTime.Lock()
		solverTime.ms["z3-5 (paths)"] += time.Since(start).Milliseconds()
		solverTime.calls["z3-5 (paths)"]++
		solverTime.Unlock()
	}()
	_, _ = p.in.Write([]byte("(reset)\n(set-option :timeout 250)\n(set-logic ALL)\n" + script + "(check-sat)\n(echo \"done\")\n"))
	res := ""
	t := time.After(5 * time.Second)
	for {
		select {
		case l, ok := <-p.out:
			if !ok {
				p.cmd = nil
				return "unknown"
			}
			l = strings.Trim(l, "\"")
			if l == "done" {
				return res
			}
			if res == "" {
				res = l
			}
		case <-t:
			_ = p.cmd.Process.Kill()
			_ = p.cmd.Wait()
			p.cmd = nil
			return "unknown"
		}
	}
}

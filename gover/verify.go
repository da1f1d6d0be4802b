package main

// Verification of functions under contract and of lemmas: symbolic parameters,
// preconditions, execution, postconditions; the closure of contracts a property
// depends on.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "gopkg.in/addrs.v1/"

// Unit is one proof task: a function with a choice of parameter shapes, or a lemma.
type Unit struct {
	c          *Contract
	lemma      *Lemma
	fn         *ssa.Function
	choices    []string
	env        *Env
	exitEnv    *Env
	pre        *State
	ghostNames map[string]bool
	measure    *T
	used       map[string]bool
	lemmas     map[string]bool
	trivial    int
	returns    int
	covers     []*Oblig
}

func (u *Unit) name() string {
	if u.lemma != nil {
		return "lemma " + u.lemma.name
	}
	n := u.c.key()
	if len(u.choices) > 0 {
		n += "{" + strings.Join(u.choices, ",") + "}"
	}
	return n
}

func (u *Unit) iters() []*IterSpec {
	if u.c == nil {
		return nil
	}
	return u.c.iters
}

func (u *Unit) usedLemma(n string) { u.lemmas[n] = true }

// ---- loading

func loadWorld(dir, short string, overlay map[string][]byte) (*World, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Overlay: overlay}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, pkgs := ssautil.AllPackages(pk, ssa.BuilderMode(0))
	w := &World{prog: prog, fns: map[string]*ssa.Function{}, scc: map[*ssa.Function]int{}, infos: map[string][]nodeField{},
		usedFn: map[*ssa.Function]bool{}, extern: map[string]bool{}}
	for _, p := range pkgs {
		if p != nil && strings.HasPrefix(p.Pkg.Path(), modPath) {
			p.Build()
			if p.Pkg.Name() == short {
				w.pkg = p
			}
		}
	}
	if w.pkg == nil {
		return nil, fmt.Errorf("no package %s", short)
	}
	w.w = map[string]int{"ipv4": 32, "ipv6": 128, "ip": 128}[short]
	if o := w.pkg.Pkg.Scope().Lookup("trieNode"); o != nil {
		if s, ok := o.Type().Underlying().(*types.Struct); ok {
			w.node = s
		}
	}
	w.all = map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || w.all[f] {
			return
		}
		w.all[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range w.pkg.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			n, ok := m.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				add(prog.FuncValue(n.Method(i)))
			}
		}
	}
	for f := range w.all {
		if f.Parent() == nil {
			w.fns[fnKey(f)] = f
		}
	}
	w.computeSCC()
	return w, nil
}

func (w *World) allFuncs() map[*ssa.Function]bool { return w.all }

func top(f *ssa.Function) *ssa.Function {
	if f.Origin() != nil {
		f = f.Origin()
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	return f
}

// computeSCC numbers the strongly connected components of the reference graph
// of the package; recursive components get a number, others zero.
func (w *World) computeSCC() {
	succ := map[*ssa.Function]map[*ssa.Function]bool{}
	for f := range w.all {
		t := top(f)
		if succ[t] == nil {
			succ[t] = map[*ssa.Function]bool{}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if g = top(g); w.all[g] {
							if g != t {
								succ[t][g] = true
							} else if c, isC := in.(ssa.CallInstruction); isC && c.Common().Value == *op && (*op).(*ssa.Function).Parent() == nil {
								succ[t][g] = true
							}
						}
					}
				}
			}
		}
	}
	index, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	n, comp := 0, 0
	var dfs func(f *ssa.Function)
	dfs = func(f *ssa.Function) {
		n++
		index[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		for g := range succ[f] {
			if index[g] == 0 {
				dfs(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && index[g] < low[f] {
				low[f] = index[g]
			}
		}
		if low[f] == index[f] {
			comp++
			var members []*ssa.Function
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				members = append(members, g)
				if g == f {
					break
				}
			}
			if len(members) > 1 || succ[f][f] {
				for _, g := range members {
					w.scc[g] = comp
				}
			}
		}
	}
	for f := range succ {
		if index[f] == 0 {
			dfs(f)
		}
	}
}

// ---- symbolic parameters

// chooser enumerates the combinations of parameter shapes.
type chooser struct {
	vec  []int
	max  []int
	pos  int
	lbls []string
}

func (c *chooser) pick(what string, opts ...string) int {
	if c.pos == len(c.vec) {
		c.vec = append(c.vec, 0)
		c.max = append(c.max, len(opts))
	}
	k := c.vec[c.pos]
	c.pos++
	c.lbls = append(c.lbls, what+"="+opts[k])
	return k
}

// next moves to the next combination.
func (c *chooser) next() bool {
	for len(c.vec) > 0 {
		i := len(c.vec) - 1
		c.vec[i]++
		if c.vec[i] < c.max[i] {
			c.pos, c.lbls = 0, nil
			return true
		}
		c.vec, c.max = c.vec[:i], c.max[:i]
	}
	return false
}

func (x *Exec) symParam(st *State, ch *chooser, c *Contract, name string, t types.Type) V {
	role := ""
	for _, cf := range c.conforms {
		if cf.path == name {
			role = cf.role
		}
	}
	if s, ok := x.w.scalarSort(t); ok {
		v := mkVar(name, s)
		if s.isBV() || s == sBool {
			x.model = append(x.model, modelVar{name, v})
		}
		return v
	}
	if n, wb, ok := isWords(t); ok {
		v := mkVar(name, bv(n*wb))
		x.model = append(x.model, modelVar{name, v})
		return unpackWords(v, n, wb)
	}
	if isError(t) {
		return &VErr{mkVar(name+".nonnil", sBool)}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &VAgg{}
		for i := 0; i < u.NumFields(); i++ {
			a.e = append(a.e, x.symParam(st, ch, c, name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return a
	case *types.Array:
		a := &VAgg{}
		for i := 0; i < int(u.Len()); i++ {
			a.e = append(a.e, x.symParam(st, ch, c, fmt.Sprintf("%s.%d", name, i), u.Elem()))
		}
		return a
	case *types.Pointer:
		if ch.pick(name, "nil", "ptr") == 0 {
			return VNil{}
		}
		v := x.symParam(st, ch, c, name+".*", u.Elem())
		id := x.newObj(st, u.Elem(), v)
		st.heap[id].cell = true
		st.heap[id].param = true
		return &VPtr{obj: id}
	case *types.Signature:
		if role == "" && (strings.HasSuffix(name, "eq") || strings.HasSuffix(name, "comparator")) {
			role = "eq"
		}
		return &VFunc{id: name, isnil: mkVar(name+".isnil", sBool), role: role, sig: u}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			s := &VSym{name: name, len: mkVar(name+".len", bv(64)), isnil: mkVar(name+".isnil", sBool)}
			st.assume(bvcmp("bvsle", bvi(0, 64), s.len))
			st.assume(bvcmp("bvsle", s.len, bvi(1<<48, 64))) // memory is finite
			st.assume(imp(s.isnil, eq(s.len, bvi(0, 64))))
			x.model = append(x.model, modelVar{name + ".len", s.len})
			for i := 0; i < 16; i++ {
				v := mkVar(fmt.Sprintf("%s[%d]", name, i), bv(8))
				s.elems = append(s.elems, v)
				x.model = append(x.model, modelVar{fmt.Sprintf("%s[%d]", name, i), v})
			}
			return s
		}
	case *types.Interface:
		n, ok := t.(*types.Named)
		if !ok {
			break
		}
		switch n.Obj().Name() {
		case "SetI", "PrefixI":
			if ch.pick(name, "nil", "value") == 0 {
				return VNil{}
			}
			m := u.Method(0)
			rt := m.Type().(*types.Signature).Results().At(0).Type()
			return &VISym{id: name, nonnil: mkTrue(), ghost: map[string]V{m.Name(): x.symParam(st, ch, c, name+"."+m.Name(), rt)}}
		}
		if x.w.pkg.Pkg.Name() == "ip" {
			var fams []types.Type
			opts := []string{"nil", "unknown"}
			for _, f := range []string{"ipv4", "ipv6"} {
				p := x.w.prog.ImportedPackage(modPath + f)
				if ty := p.Type(n.Obj().Name()); ty != nil {
					fams = append(fams, ty.Type())
					opts = append(opts, f)
				}
			}
			k := ch.pick(name, opts...)
			switch k {
			case 0:
				return VNil{}
			case 1:
				return &VISym{id: name, nonnil: mkTrue(), ghost: map[string]V{}}
			}
			return &VIface{fams[k-2], x.symParam(st, ch, c, name+"."+opts[k], fams[k-2])}
		}
	}
	unsup("parameter %s of type %s", name, t)
	return nil
}

// ---- verification of a contract

func newExec(w *World, sp *Spec, p *PropCfg, u *Unit) *Exec {
	return &Exec{w: w, spec: sp, prop: p, unit: u, inlined: map[string]bool{}}
}

func newUnit() *Unit {
	return &Unit{used: map[string]bool{}, lemmas: map[string]bool{}, ghostNames: map[string]bool{}}
}

func guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				msg = e.msg
			case specErr:
				msg = "specification: " + e.msg
			default:
				panic(r)
			}
		}
	}()
	f()
	return ""
}

// verifyContract generates the obligations of a function under contract.
func verifyContract(w *World, sp *Spec, p *PropCfg, c *Contract) (xs []*Exec, problem string) {
	fn := w.fns[c.name]
	if fn == nil {
		return nil, "function " + c.name + " doesn't exist"
	}
	ch := &chooser{}
	for {
		u := newUnit()
		u.c, u.fn = c, fn
		x := newExec(w, sp, p, u)
		msg := guard(func() { x.runContract(ch) })
		xs = append(xs, x)
		if msg != "" {
			return xs, u.name() + ": " + msg
		}
		if len(ch.vec) > 8 {
			return xs, u.name() + ": too many parameter shapes"
		}
		if !ch.next() {
			break
		}
	}
	return xs, ""
}

func (x *Exec) runContract(ch *chooser) {
	u, c, fn := x.unit, x.unit.c, x.unit.fn
	if len(c.params) != len(fn.Params) {
		unsup("the contract has %d parameters, the function %d", len(c.params), len(fn.Params))
	}
	rts := resultTypes(fn.Signature)
	if len(c.results) != 0 && len(c.results) != len(rts) {
		unsup("the contract has %d results, the function %d", len(c.results), len(rts))
	}
	st := newState()
	for _, g := range x.spec.ghostVars {
		st.ghost["g."+g.name] = mkVar("g0."+g.name, x.spec.sortOf(g.sort))
	}
	vars := map[string]TV{}
	var args []V
	owned := map[string]int{}
	for i, p := range fn.Params {
		var v V
		if c.owned[c.params[i]] && x.w.isNodePtr(p.Type()) {
			el := deref(p.Type())
			id := x.newObj(st, el, x.freshResult(st, c.params[i], el))
			v = &VPtr{obj: id}
			owned[c.params[i]] = id
			vars[c.params[i]] = TV{v: st.heap[id].v, typ: el}
		} else {
			v = x.symParam(st, ch, c, c.params[i], p.Type())
			vars[c.params[i]] = TV{v: v, typ: p.Type()}
		}
		if t, ok := v.(*T); ok && t.sort == sNode {
			st.addNode(t)
		}
		args = append(args, v)
	}
	u.choices = append([]string{}, ch.lbls...)
	for _, g := range c.ghosts {
		v := mkVar("ghost."+g.name, x.spec.sortOf(g.sort))
		vars[g.name] = TV{v: v}
		u.ghostNames[g.name] = true
		if v.sort.isBV() || v.sort == sBool {
			x.model = append(x.model, modelVar{"ghost " + g.name, v})
		}
	}
	u.env = &Env{x: x, w: x.w, sp: x.spec, st: st, vars: vars}
	for i, a := range args {
		if _, ok := owned[c.params[i]]; ok {
			continue
		}
		for _, l := range x.typeInvs(st, a, fn.Params[i].Type()) {
			st.assume(l.t)
		}
	}
	for _, r := range c.requires {
		if x.prop.on(r.facets) {
			st.assume(u.env.bool(r.expr))
		}
	}
	if st.isDead() || !x.feasible(st) {
		u.returns = -1 // this combination of shapes is excluded by the precondition
		return
	}
	if c.decreases != nil {
		u.measure = u.env.term(u.env.eval(c.decreases), bv(16))
	}
	u.pre = st.clone()
	u.env.st = u.pre
	x.applyOpens(st, &Env{x: x, w: x.w, sp: x.spec, st: st, vars: vars}, c)
	u.covers = append(u.covers, &Oblig{kind: "cover", label: "precondition", fn: u.name(), pc: st.pcTerms(), goal: mkFalse(), nodes: st.nodes, schemas: st.schemas})
	pre := st.clone()
	if x.prop.concurrent {
		x.startInterference(st)
	}
	outs := x.callFn(st, fn, args, nil)
	for _, o := range outs {
		x.finish(o, pre, vars, owned, rts)
	}
}

func (x *Exec) finish(o Outcome, pre *State, vars map[string]TV, owned map[string]int, rts []types.Type) {
	u, c := x.unit, x.unit.c
	st := o.st
	x.interfere = false
	if x.prop.concurrent {
		st, pre = x.atInstant(st, pre)
	}
	if o.panic {
		e := &Env{x: x, w: x.w, sp: x.spec, st: st, old: pre, vars: vars}
		for id := range pre.heap {
			if sw := st.ghost[cellKey("swapped", id)]; sw != nil {
				x.oblige(st, "atomic", o.why+": a write that panics changes nothing", u.fn.Pos(), not(sw))
			}
		}
		if c.mayPanic {
			return
		}
		allowed := mkFalse()
		if x.prop.concurrent {
			allowed = mkBool(len(c.writes) > 0) // a write may give up
		}
		for _, p := range c.panics {
			if x.prop.on(p.facets) {
				allowed = or(allowed, e.bool(p.expr))
			}
		}
		x.oblige(st, "nopanic", o.why, u.fn.Pos(), allowed)
		return
	}
	u.returns++
	rv := []V{o.ret}
	if len(rts) != 1 {
		rv = o.ret.(*VAgg).e
	}
	rv = append([]V{}, rv...)
	for i, t := range rts {
		if s, ok := x.w.scalarSort(t); ok {
			switch s {
			case sNode:
				rv[i] = x.asNode(st, rv[i])
			case sVal:
				rv[i] = x.asVal(st, rv[i])
			}
		}
	}
	e := &Env{x: x, w: x.w, sp: x.spec, st: st, old: pre, vars: map[string]TV{}}
	for k, v := range vars {
		e.vars[k] = v
	}
	for n, id := range owned {
		e.vars["fin_"+n] = TV{v: x.freeze(st, id)}
	}
	bindVars(e.vars, c.results, rv, rts)
	e.ovars = vars
	u.exitEnv = e
	defer func() { u.exitEnv = nil }()
	x.applyOpens(st, e, c)
	for _, cl := range c.panics {
		if x.prop.on(cl.facets) {
			x.oblige(st, "panics", "doesn't return if "+cl.src, u.fn.Pos(), not(e.bool(cl.expr)))
		}
	}
	for i, t := range rts {
		for _, l := range x.typeInvs(st, rv[i], t) {
			x.oblige(st, "ensures", "result: "+l.label, u.fn.Pos(), l.t)
		}
	}
	var ids []int
	for id, ob := range st.heap {
		if ob.param && pre.heap[id] != ob {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		for _, l := range x.typeInvs(st, st.heap[id].v, st.heap[id].typ) {
			x.oblige(st, "ensures", "shared variable: "+l.label, u.fn.Pos(), l.t)
		}
	}
	if len(ids) > 0 {
		for i, p := range c.params {
			if tv, ok := vars[p]; ok && tv.v != nil && i < len(u.fn.Params) {
				if _, ok := owned[p]; ok {
					continue
				}
				for _, l := range x.typeInvs(st, tv.v, u.fn.Params[i].Type()) {
					x.oblige(st, "ensures", "argument: "+l.label, u.fn.Pos(), l.t)
				}
			}
		}
	}
	for _, cl := range c.ensures {
		if x.prop.on(cl.facets) {
			x.oblige(st, "ensures", cl.src, u.fn.Pos(), e.bool(cl.expr))
		}
	}
	for _, cf := range c.resultRoles {
		if !x.prop.on(cf.facets) {
			continue
		}
		x.conformCheck(st, e, c, cf, u.fn.Pos())
	}
	for _, sa := range c.sames {
		if !x.prop.on(sa.cond.facets) {
			continue
		}
		x.sameAs(st, e, sa, rv, rts)
	}
	if x.prop.facets["cells"] {
		x.cellFrame(st, pre, e, ids)
	}
	u.covers = append(u.covers, &Oblig{kind: "cover", label: "return", fn: u.name(), pc: st.pcTerms(), goal: mkFalse(), nodes: st.nodes, schemas: st.schemas})
}

// cellFrame: shared variables are only changed where the contract says so.
func (x *Exec) cellFrame(st, pre *State, e *Env, ids []int) {
	u := x.unit
	ok := map[int]bool{}
	for _, w := range u.c.writes {
		if v, isP := x.pathValue(e, w).v.(*VPtr); isP {
			ok[v.obj] = true
		}
	}
	for _, id := range ids {
		if ok[id] {
			continue
		}
		x.oblige(st, "frame", "a shared variable keeps its value", u.fn.Pos(), x.sameV(st, st.heap[id].v, pre.heap[id].v, u.fn.Pos()))
	}
}

func (x *Exec) sameV(st *State, a, b V, pos token.Pos) *T {
	p, ok1 := a.(*VAgg)
	q, ok2 := b.(*VAgg)
	if ok1 && ok2 && len(p.e) == len(q.e) {
		r := mkTrue()
		for i := range p.e {
			r = and(r, x.sameV(st, p.e[i], q.e[i], pos))
		}
		return r
	}
	if a == b {
		return mkTrue()
	}
	if f, ok := a.(*VFunc); ok {
		g, ok := b.(*VFunc)
		return mkBool(ok && f.id == g.id)
	}
	if _, ok := a.(*VClosure); ok {
		return mkFalse()
	}
	return x.eqV(st, a, b, pos)
}

// verifyLemma generates the obligations of a lemma.
func verifyLemma(w *World, sp *Spec, p *PropCfg, l *Lemma) (*Exec, string) {
	u := newUnit()
	u.lemma = l
	x := newExec(w, sp, p, u)
	msg := guard(func() {
		if l.enum == nil {
			x.runLemma(l, "", nil)
			return
		}
		if len(l.enum) != 3 {
			specFail("lemma %s: enum NAME FROM TO", l.name)
		}
		e := &Env{x: x, w: w, sp: sp, st: newState(), vars: map[string]TV{}}
		var t *T
		for _, q := range l.params {
			v := mkVar(q.name, sp.sortOf(q.sort))
			e.vars[q.name] = TV{v: v}
			if q.name == l.enum[0] {
				t = v
			}
		}
		if t == nil || !t.sort.isBV() {
			specFail("lemma %s: no number %s", l.name, l.enum[0])
		}
		lo := e.term(e.eval(parseExpr(l.enum[1], l.name)), t.sort)
		hi := e.term(e.eval(parseExpr(l.enum[2], l.name)), t.sort)
		u.env = e
		for _, r := range l.requires {
			if p.on(r.facets) {
				e.st.assume(e.bool(r.expr))
			}
		}
		x.oblige(e.st, "lemma", "all cases", 0, and(bvcmp("bvule", lo, t), bvcmp("bvule", t, hi)))
		for v := new(big.Int).Set(lo.val); v.Cmp(hi.val) <= 0; v = new(big.Int).Add(v, big.NewInt(1)) {
			x.runLemma(l, l.enum[0], bvc(v, t.sort.W))
		}
	})
	if msg != "" {
		return x, u.name() + ": " + msg
	}
	return x, ""
}

// runLemma makes the obligations of a lemma, with one parameter fixed if given.
func (x *Exec) runLemma(l *Lemma, fixed string, value *T) {
	w, sp, p, u := x.w, x.spec, x.prop, x.unit
	st := newState()
	vars := map[string]TV{}
	var vs []*T
	label := ""
	for _, q := range l.params {
		v := mkVar(q.name, sp.sortOf(q.sort))
		if q.name == fixed && value != nil {
			v = value
			label = fmt.Sprintf("%s = %s: ", fixed, value.val)
		}
		vs = append(vs, v)
		vars[q.name] = TV{v: v}
		if v.sort == sNode {
			st.addNode(v)
		}
		if v.sort.isBV() && value == nil {
			x.model = append(x.model, modelVar{q.name, v})
		}
	}
	u.env = &Env{x: x, w: w, sp: sp, st: st, vars: vars}
	for _, r := range l.requires {
		if p.on(r.facets) {
			st.assume(u.env.bool(r.expr))
		}
	}
	for _, o := range l.opens {
		st.addNode(u.env.term(u.env.eval(o), sNode))
	}
	for _, n := range l.notes {
		t := u.env.term(u.env.eval(n), Sort{})
		st.assume(app("noted_"+sortTag(t.sort), sBool, t))
	}
	if value == nil {
		u.covers = append(u.covers, &Oblig{kind: "cover", label: "hypotheses", fn: u.name(), pc: st.pcTerms(), goal: mkFalse(), nodes: st.nodes})
	}
	var m *T
	if l.decr != nil {
		m = u.env.term(u.env.eval(l.decr), bv(16))
	}
	for _, ih := range l.ihs {
		if m == nil {
			specFail("lemma %s is inductive but has no measure", l.name)
		}
		args := make([]*T, len(vs))
		sub := map[string]TV{}
		ihs := newState()
		for i := range vs {
			if len(ih) != len(vs) {
				specFail("induction hypothesis of %s has %d arguments", l.name, len(ih))
			}
			args[i] = u.env.term(u.env.eval(ih[i]), vs[i].sort)
			sub[l.params[i].name] = TV{v: args[i]}
		}
		e := &Env{x: x, w: w, sp: sp, st: ihs, vars: sub}
		m2 := e.term(e.eval(l.decr), m.sort)
		pre, post := mkTrue(), mkTrue()
		for _, r := range l.requires {
			if p.on(r.facets) {
				pre = and(pre, e.bool(r.expr))
			}
		}
		for _, r := range l.ensures {
			if p.on(r.facets) {
				post = and(post, e.bool(r.expr))
			}
		}
		// the hypothesis is available where the measure decreases
		st.assume(imp(and(bvcmp("bvult", m2, m), pre), post))
	}
	for _, r := range l.ensures {
		if p.on(r.facets) {
			s2 := st.clone()
			for i, c := range l.cases {
				t := u.env.bool(c)
				s3 := s2.clone()
				s3.assume(t)
				x.oblige(s3, "lemma", fmt.Sprintf("%scase %d: %s", label, i+1, r.src), 0, u.env.bool(r.expr))
				s2.assume(not(t))
			}
			x.oblige(s2, "lemma", label+r.src, 0, u.env.bool(r.expr))
		}
	}
}

// ---- a property

// Result is the outcome of verifying one property in one package.
type Result struct {
	pkg       string
	obls      []*Oblig
	execs     []*Exec
	units     []string
	problems  []string // outside the subset or vacuous
	failed    []*Oblig
	trivial   int
	covers    int
	inlined   map[string]bool
	contracts map[string]bool
	lemmas    map[string]bool
	extern    []string
	scripts   map[*Oblig]string
}

// autoContract is the contract of an entry point without a specification of its own:
// it returns normally and keeps the invariants of its arguments and results.
func autoContract(fn *ssa.Function, k string) *Contract {
	c := &Contract{name: k, inline: true, owned: map[string]bool{}}
	for i, q := range fn.Params {
		n := q.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("p%d", i)
		}
		c.params = append(c.params, n)
	}
	return c
}

// verifyAll verifies a property in all its configurations.
func verifyAll(w *World, sp *Spec, p *PropCfg, only string, scale int) *Result {
	r := verifyProperty(w, sp, p, only, scale)
	for _, k := range p.also {
		q := sp.props[strings.TrimSuffix(k, "?")]
		if q == nil && strings.HasSuffix(k, "?") {
			continue // only in the other package
		}
		if q == nil {
			r.problems = append(r.problems, "no configuration "+k)
			continue
		}
		o := verifyAll(w, sp, q, only, scale)
		r.execs = append(r.execs, o.execs...)
		r.obls = append(r.obls, o.obls...)
		r.failed = append(r.failed, o.failed...)
		r.problems = append(r.problems, o.problems...)
		r.units = append(r.units, o.units...)
		r.trivial += o.trivial
		r.covers += o.covers
		r.extern = o.extern
		for _, m := range [][2]map[string]bool{{r.inlined, o.inlined}, {r.contracts, o.contracts}, {r.lemmas, o.lemmas}} {
			for k := range m[1] {
				m[0][k] = true
			}
		}
		for k, v := range o.scripts {
			r.scripts[k] = v
		}
	}
	return r
}

func verifyProperty(w *World, sp *Spec, p *PropCfg, only string, scale int) *Result {
	res := &Result{pkg: w.pkg.Pkg.Name(), inlined: map[string]bool{}, contracts: map[string]bool{}, lemmas: map[string]bool{}, scripts: map[*Oblig]string{}}
	var queue []string
	seen := map[string]bool{}
	push := func(k string) {
		if !seen[k] {
			seen[k] = true
			queue = append(queue, k)
		}
	}
	for _, r := range p.roots {
		if strings.HasSuffix(r, "?") { // only if the package has it
			r = strings.TrimSuffix(r, "?")
			if sp.lookup(p, r) == nil && w.fns[r] == nil {
				continue
			}
		}
		push(strings.Replace(r, "lemma:", "lemma ", 1))
	}
	type job struct {
		x *Exec
		o *Oblig
		s string
		e bool // a cover: must not be proved
	}
	var jobs []*job
	addExec := func(x *Exec) {
		res.execs = append(res.execs, x)
		for f := range x.inlined {
			res.inlined[f] = true
		}
		res.trivial += x.unit.trivial
		for _, o := range x.obls {
			if msg := guard(func() { jobs = append(jobs, &job{x: x, o: o, s: smtScript(x.build(o), nil)}) }); msg != "" {
				res.problems = append(res.problems, o.fn+": "+msg)
			}
		}
		if n := len(x.unit.covers); n > 0 {
			cs := x.unit.covers
			if n > 4 {
				cs = []*Oblig{cs[0], cs[1], cs[n/2], cs[n-1]}
			}
			for _, o := range cs {
				_ = guard(func() { jobs = append(jobs, &job{x: x, o: o, s: smtScript(x.build(o), nil), e: true}) })
			}
		}
		for k := range x.unit.used {
			if i := strings.Index(k, "#"); i >= 0 {
				k = k[:i]
			}
			push(k)
		}
		for k := range x.unit.lemmas {
			push("lemma " + k)
		}
	}
	if only != "" {
		queue = []string{only}
	}
	for len(queue) > 0 {
		k := queue[0]
		queue = queue[1:]
		t0 := time.Now()
		if strings.HasPrefix(k, "lemma ") {
			var l *Lemma
			for _, q := range sp.lemmas {
				if "lemma "+q.name == k {
					l = q
				}
			}
			if only == "" || only == k {
				x, msg := verifyLemma(w, sp, p, l)
				if msg != "" {
					res.problems = append(res.problems, msg)
				}
				addExec(x)
				res.lemmas[l.name] = true
			}
			continue
		}
		c := sp.lookup(p, k)
		if c == nil && w.fns[k] != nil {
			c = autoContract(w.fns[k], k)
		}
		if c == nil {
			res.problems = append(res.problems, "no contract for "+k)
			continue
		}
		if only != "" && only != k {
			continue
		}
		res.contracts[c.key()] = true
		deadline = time.Now().Add(150 * time.Second)
		xs, msg := verifyContract(w, sp, p, c)
		if msg != "" {
			res.problems = append(res.problems, msg)
		}
		rets := 0
		for _, x := range xs {
			if x.unit.returns >= 0 {
				res.units = append(res.units, x.unit.name())
				rets += x.unit.returns
			}
			addExec(x)
		}
		if rets == 0 && msg == "" && !c.mayPanic && len(c.panics) == 0 {
			res.problems = append(res.problems, k+": never returns")
		}
		if debug {
			fmt.Fprintf(os.Stderr, "%s: %v\n", k, time.Since(t0))
		}
	}
	// discharge
	sem := make(chan bool, 8)
	done := make(chan bool)
	var nfail int32
	for _, j := range jobs {
		go func(j *job) {
			sem <- true
			t0 := time.Now()
			if nf := atomic.LoadInt32(&nfail); !j.e && nf > 20 {
				// enough is known; do not spend the time limit on the rest
				j.o.status, j.o.output = "unknown", "not attempted after 20 failures"
				<-sem
				done <- true
				return
			}
			if j.e {
				out := runSolver(solverRun{"z3-5", []string{"z3-new", "-in", "-T:3", "-memory:3000"}, 3 * time.Second}, header("")+j.s+"(check-sat)\n")
				j.o.status = "ok"
				if strings.HasPrefix(strings.TrimSpace(out), "unsat") {
					j.o.status = "vacuous"
				}
			} else {
				st, be, out, last := j.x.decide(j.o, j.s, scale, atomic.LoadInt32(&nfail) > 0)
				j.s = last
				if st != "unsat" {
					atomic.AddInt32(&nfail, 1)
				}
				switch st {
				case "unsat":
					j.o.status = "proved"
				case "sat":
					j.o.status = "failed"
				default:
					j.o.status = "unknown"
				}
				j.o.backend, j.o.output = be, out
			}
			j.o.ms = time.Since(t0).Milliseconds()
			<-sem
			done <- true
		}(j)
	}
	for range jobs {
		<-done
	}
	vac := map[string]bool{}
	for _, j := range jobs {
		if j.e {
			res.covers++
			if j.o.status == "vacuous" && j.o.label != "return" {
				res.problems = append(res.problems, j.o.fn+": vacuous "+j.o.label)
			}
			if j.o.label == "return" {
				k := j.o.fn
				if _, ok := vac[k]; !ok {
					vac[k] = true
				}
				vac[k] = vac[k] && j.o.status == "vacuous"
			}
			continue
		}
		res.obls = append(res.obls, j.o)
		res.scripts[j.o] = j.s
		if j.o.status != "proved" {
			res.failed = append(res.failed, j.o)
		}
	}
	for k, v := range vac {
		if v {
			res.problems = append(res.problems, k+": no reachable return")
		}
	}
	for e := range w.extern {
		res.extern = append(res.extern, e)
	}
	sort.Strings(res.extern)
	return res
}

// byteSeq is a byte slice of known or unknown length; elems are its first bytes.
type byteSeq struct {
	len, isnil *T
	elems      []*T
	fixed      bool // the length is known, elems are all
}

func sliceLen(v V) *T {
	switch v := v.(type) {
	case *VSlice:
		return bvi(int64(v.hi-v.lo), 64)
	case *VSym:
		return v.len
	case VNil:
		return bvi(0, 64)
	}
	unsup("length of %s", showV(v))
	return nil
}

func (x *Exec) byteSlice(st *State, v V) (byteSeq, bool) {
	switch v := v.(type) {
	case VNil:
		return byteSeq{len: bvi(0, 64), isnil: mkTrue(), fixed: true}, true
	case *VSym:
		b := byteSeq{len: v.len, isnil: v.isnil}
		if v.off < len(v.elems) {
			b.elems = v.elems[v.off:]
		}
		return b, true
	case *VSlice:
		arr, ok := st.heap[v.obj].v.(*VAgg)
		if !ok {
			return byteSeq{}, false
		}
		b := byteSeq{len: bvi(int64(v.hi-v.lo), 64), isnil: mkFalse(), fixed: true}
		for _, e := range arr.e[v.lo:v.hi] {
			t, ok := e.(*T)
			if !ok || t.sort != bv(8) {
				return byteSeq{}, false
			}
			b.elems = append(b.elems, t)
		}
		return b, true
	}
	return byteSeq{}, false
}

func bigEndian(bs []*T) *T {
	var t *T
	for _, b := range bs {
		if t == nil {
			t = b
		} else {
			t = concat(t, b)
		}
	}
	return t
}

func bytesOf(t *T) []*T {
	var r []*T
	for w := t.sort.W; w > 0; w -= 8 {
		r = append(r, extract(w-1, w-8, t))
	}
	return r
}

// newBytes allocates a byte slice.
func (x *Exec) newBytes(st *State, bs []*T) V {
	a := &VAgg{}
	for _, b := range bs {
		a.e = append(a.e, b)
	}
	o := x.newObj(st, types.NewArray(types.Typ[types.Uint8], int64(len(bs))), a)
	return &VSlice{o, 0, len(bs)}
}

// netIntrinsic models the few functions of packages net and encoding/binary that are used, after their
// documentation.
func (x *Exec) netIntrinsic(st *State, name string, fn *ssa.Function, args []V, pos interface{}) ([]Outcome, bool) {
	fork := func(alts ...alt) ([]Outcome, bool) { return x.fork(st, alts...) }
	n64 := func(i int) *T { return bvi(int64(i), 64) }
	isCanon := func(m *T) *T {
		nm := bvnot(m)
		return eq(bvbin("bvand", nm, bvbin("bvadd", nm, bvi(1, m.sort.W))), bvi(0, m.sort.W))
	}
	switch name {
	case "net.IsPrivate", "net.IsLoopback", "net.IsMulticast", "net.IsUnspecified", "net.IsGlobalUnicast",
		"net.IsLinkLocalUnicast", "net.IsLinkLocalMulticast", "net.IsInterfaceLocalMulticast":
		// predicates of net.IP: either answer is taken to be possible
		if fn.Signature.Recv() != nil {
			return []Outcome{{st: st, ret: fresh("is", sBool)}}, true
		}
	case "net.Size": // (IPMask) Size() (ones, bits int)
		if len(args) != 1 {
			return nil, false
		}
		b, ok := x.byteSlice(st, args[0])
		if !ok {
			return nil, false
		}
		if fn.Signature.Recv() == nil || !strings.HasSuffix(fn.Signature.Recv().Type().String(), "net.IPMask") {
			return nil, false
		}
		// any other length: either not canonical or some number of ones
		ones, canon := fresh("ones", bv(64)), fresh("canon", sBool)
		bits := bvbin("bvshl", b.len, n64(3))
		st.assume(bvcmp("bvsle", n64(0), ones))
		st.assume(bvcmp("bvsle", ones, bits))
		st.assume(imp(not(canon), eq(ones, n64(0))))
		rb := ite(canon, bits, n64(0))
		for _, k := range []int{4, 16} {
			if len(b.elems) < k {
				continue
			}
			m := bigEndian(b.elems[:k])
			is := eq(b.len, n64(k))
			st.assume(imp(is, eq(canon, isCanon(m))))
			st.assume(imp(and(is, canon), eq(ones, resize(clz(bvnot(m)), 64, false))))
		}
		return []Outcome{{st: st, ret: &VAgg{[]V{ones, rb}}}}, true
	case "net.CIDRMask":
		ones, bits := args[0].(*T), args[1].(*T)
		if !bits.isConst() {
			return nil, false
		}
		k := int(bits.val.Int64())
		if k != 32 && k != 128 {
			return []Outcome{{st: st, ret: VNil{}}}, true
		}
		in := and(bvcmp("bvsle", n64(0), ones), bvcmp("bvsle", ones, n64(k)))
		return fork(alt{in, func(s *State) V {
			sh := bvbin("bvsub", bvi(int64(k), k), shiftCount(ones, k))
			return x.newBytes(s, bytesOf(bvbin("bvshl", bvc(maskBig(k), k), sh)))
		}}, alt{not(in), func(s *State) V { return VNil{} }})
	case "net.IPv4":
		bs := make([]*T, 0, 16)
		for i := 0; i < 10; i++ {
			bs = append(bs, bvi(0, 8))
		}
		bs = append(bs, bvi(255, 8), bvi(255, 8))
		for _, a := range args {
			bs = append(bs, a.(*T))
		}
		return []Outcome{{st: st, ret: x.newBytes(st, bs)}}, true
	case "net.To4", "net.To16":
		b, ok := x.byteSlice(st, args[0])
		if !ok {
			return nil, false
		}
		is4, is16 := eq(b.len, n64(4)), eq(b.len, n64(16))
		sub := func(off, k int) V {
			switch v := args[0].(type) {
			case *VSlice:
				return &VSlice{v.obj, v.lo + off, v.lo + off + k}
			case *VSym:
				n := *v
				n.off += off
				n.len = n64(k)
				n.isnil = mkFalse()
				return &n
			}
			return VNil{}
		}
		if name == "net.To16" {
			return fork(alt{is16, func(s *State) V { return sub(0, 16) }},
				alt{is4, func(s *State) V {
					bs := bytesOf(concat(bvi(0, 80), bvi(0xffff, 16)))
					return x.newBytes(s, append(bs, b.elems[:4]...))
				}},
				alt{and(not(is16), not(is4)), func(s *State) V { return VNil{} }})
		}
		mapped := mkFalse()
		if len(b.elems) >= 16 {
			mapped = and(is16, eq(bigEndian(b.elems[:12]), concat(bvi(0, 80), bvi(0xffff, 16))))
		}
		return fork(alt{is4, func(s *State) V { return sub(0, 4) }},
			alt{mapped, func(s *State) V { return sub(12, 4) }},
			alt{and(not(is4), not(mapped)), func(s *State) V { return VNil{} }})
	case "encoding/binary.Uint16", "encoding/binary.Uint32", "encoding/binary.Uint64":
		if len(args) != 2 || fn.Signature.Recv() == nil || !strings.HasSuffix(fn.Signature.Recv().Type().String(), "bigEndian") {
			return nil, false
		}
		k := map[string]int{"16": 2, "32": 4, "64": 8}[name[len(name)-2:]]
		b, ok := x.byteSlice(st, args[1])
		if !ok {
			return nil, false
		}
		x.oblige(st, "nopanic", "index out of range", pos.(token.Pos), bvcmp("bvsle", n64(k), b.len))
		if len(b.elems) < k {
			return []Outcome{{st: st, ret: fresh("bytes", bv(8*k))}}, true
		}
		return []Outcome{{st: st, ret: bigEndian(b.elems[:k])}}, true
	case "encoding/binary.PutUint16", "encoding/binary.PutUint32", "encoding/binary.PutUint64":
		if len(args) != 3 || fn.Signature.Recv() == nil || !strings.HasSuffix(fn.Signature.Recv().Type().String(), "bigEndian") {
			return nil, false
		}
		k := map[string]int{"16": 2, "32": 4, "64": 8}[name[len(name)-2:]]
		v, ok := args[1].(*VSlice)
		if !ok {
			return nil, false
		}
		x.oblige(st, "nopanic", "index out of range", pos.(token.Pos), mkBool(v.hi-v.lo >= k))
		if v.hi-v.lo < k {
			return nil, true
		}
		o := *st.heap[v.obj]
		a := &VAgg{append([]V{}, o.v.(*VAgg).e...)}
		for i, b := range bytesOf(args[2].(*T)) {
			a.e[v.lo+i] = b
		}
		o.v = a
		st.heap[v.obj] = &o
		return []Outcome{{st: st, ret: VNil{}}}, true
	}
	return nil, false
}

var _ = ast.NewIdent

package main

// Calls by contract, symbolic callbacks, models of external functions, loops
// with invariants and the iteration rule.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// schema is a formula for all values of its ghost variables.
type schema struct {
	names []string
	vars  []*T
	f     *T
}

// resultTypes lists the result types of a signature.
func resultTypes(sig *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, sig.Results().At(i).Type())
	}
	return out
}

// freshResult makes an unconstrained value of a type.
func (x *Exec) freshResult(st *State, name string, t types.Type) V {
	if s, ok := x.w.scalarSort(t); ok {
		v := fresh(name, s)
		if s == sNode {
			st.addNode(v)
		}
		return v
	}
	if isError(t) {
		return &VErr{fresh(name, sBool)}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &VAgg{}
		for i := 0; i < u.NumFields(); i++ {
			a.e = append(a.e, x.freshResult(st, name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return a
	case *types.Array:
		a := &VAgg{}
		for i := 0; i < int(u.Len()); i++ {
			a.e = append(a.e, x.freshResult(st, fmt.Sprintf("%s.%d", name, i), u.Elem()))
		}
		return a
	}
	unsup("result of type %s", t)
	return nil
}

// typeInvs returns the invariants of a value of the given type.
func (x *Exec) typeInvs(st *State, v V, t types.Type) []labelled {
	var out []labelled
	seen := 0
	var rec func(v V, t types.Type, path string)
	rec = func(v V, t types.Type, path string) {
		if seen++; seen > 200 {
			return
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			name := n.Obj().Name()
			if n.Obj().Pkg() != x.w.pkg.Pkg {
				name = n.Obj().Pkg().Name() + "." + name
			}
			if x.ours(n.Obj().Pkg()) {
				for _, c := range x.spec.invs[name] {
					if !x.prop.on(c.facets) {
						continue
					}
					e := &Env{x: x, w: x.w, sp: x.spec, st: st, vars: map[string]TV{"x": {v: v, typ: t}}}
					out = append(out, labelled{"invariant of " + name + path + ": " + c.src, e.bool(c.expr)})
				}
			}
		}
		if y, ok := v.(*VIface); ok {
			rec(y.v, y.typ, path)
			return
		}
		if y, ok := v.(*VISym); ok {
			if i, ok := t.Underlying().(*types.Interface); ok {
				for k := 0; k < i.NumMethods(); k++ {
					if g, ok := y.ghost[i.Method(k).Name()]; ok {
						rec(g, i.Method(k).Type().(*types.Signature).Results().At(0).Type(), path+"."+i.Method(k).Name())
					}
				}
			}
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			a, ok := v.(*VAgg)
			if !ok || x.w.isNodeStruct(t) {
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				rec(a.e[i], u.Field(i).Type(), path+"."+u.Field(i).Name())
			}
		case *types.Pointer:
			if p, ok := v.(*VPtr); ok && st.heap[p.obj] != nil && !x.w.isNodePtr(t) {
				rec(x.selPath(st.heap[p.obj].v, p.path), u.Elem(), path+".*")
			}
		case *types.Slice:
			if s, ok := v.(*VSlice); ok {
				for i := s.lo; i < s.hi; i++ {
					rec(st.heap[s.obj].v.(*VAgg).e[i], u.Elem(), fmt.Sprintf("%s[%d]", path, i-s.lo))
				}
			}
		}
	}
	rec(v, t, "")
	return out
}

type labelled struct {
	label string
	t     *T
}

// bind names values for a specification.
func bindVars(vars map[string]TV, names []string, vals []V, ts []types.Type) {
	for i, n := range names {
		if i < len(vals) {
			vars[n] = TV{v: vals[i], typ: ts[i]}
		}
	}
}

func paramTypes(fn *ssa.Function) []types.Type {
	var out []types.Type
	for _, p := range fn.Params {
		out = append(out, p.Type())
	}
	return out
}

func (x *Exec) sameSCC(fn *ssa.Function) bool {
	return x.unit.fn != nil && x.w.scc[fn] != 0 && x.w.scc[fn] == x.w.scc[x.unit.fn]
}

// callContract replaces a call by the contract of the callee.
func (x *Exec) callContract(st *State, c *Contract, fn *ssa.Function, args []V, pos token.Pos) []Outcome {
	if len(args) != len(c.params) {
		unsup("contract of %s has %d parameters, the function %d", c.name, len(c.params), len(args))
	}
	rts := resultTypes(fn.Signature)
	if len(c.results) != 0 && len(c.results) != len(rts) {
		unsup("contract of %s has %d results, the function %d", c.name, len(c.results), len(rts))
	}
	x.unit.used[c.key()] = true
	x.w.usedFn[fn] = true
	vars := map[string]TV{}
	pts := paramTypes(fn)
	var ownedObjs []int
	for i, a := range args {
		if x.w.isNodePtr(pts[i]) {
			if c.owned[c.params[i]] {
				p, ok := a.(*VPtr)
				if !ok || len(p.path) != 0 || st.heap[p.obj] == nil || st.heap[p.obj].frozen != nil {
					x.oblige(st, "frame", fmt.Sprintf("argument %s of %s must be a new node", c.params[i], c.name), pos, mkFalse())
					return nil
				}
				ownedObjs = append(ownedObjs, p.obj)
				vars[c.params[i]] = TV{v: a, typ: pts[i]}
				continue
			}
			t := x.asNode(st, a)
			vars[c.params[i]] = TV{v: t, typ: pts[i]}
			st.addNode(t)
			continue
		}
		if s, ok := x.w.scalarSort(pts[i]); ok && s == sVal {
			vars[c.params[i]] = TV{v: x.asVal(st, a), typ: pts[i]}
			continue
		}
		vars[c.params[i]] = TV{v: a, typ: pts[i]}
	}
	// ghost variables: bound by name if callbacks are involved, otherwise for all values
	direct := len(c.conforms) > 0
	var sc *schema
	if len(c.ghosts) > 0 && !direct {
		sc = &schema{}
		for _, g := range c.ghosts {
			v := fresh("?"+g.name, x.spec.sortOf(g.sort))
			sc.names = append(sc.names, g.name)
			sc.vars = append(sc.vars, v)
			vars[g.name] = TV{v: v}
		}
	} else {
		for _, g := range c.ghosts {
			v, ok := x.unit.env.vars[g.name]
			if !ok {
				unsup("%s needs a ghost variable %s", c.name, g.name)
			}
			vars[g.name] = v
		}
	}
	ownedPre := map[int]*VAgg{}
	for _, o := range ownedObjs {
		ownedPre[o] = st.heap[o].v.(*VAgg)
	}
	env := &Env{x: x, w: x.w, sp: x.spec, st: st, vars: vars}
	env.vars = x.ownedView(st, vars, c, nil)
	for _, r := range c.requires {
		if x.prop.on(r.facets) {
			x.oblige(st, "requires", fmt.Sprintf("%s requires %s", c.name, r.src), pos, env.bool(r.expr))
		}
	}
	for i, a := range args {
		for _, l := range x.typeInvs(st, a, pts[i]) {
			x.oblige(st, "requires", fmt.Sprintf("%s(%s): %s", c.name, c.params[i], l.label), pos, l.t)
		}
	}
	if x.sameSCC(fn) {
		if c.decreases == nil || x.unit.measure == nil {
			unsup("recursive call of %s without a measure", c.name)
		}
		m := env.term(env.eval(c.decreases), bv(16))
		n := x.unit.measure
		if m.sort != n.sort {
			w := m.sort.W
			if n.sort.W > w {
				w = n.sort.W
			}
			m, n = resize(m, w, false), resize(n, w, false)
		}
		x.oblige(st, "decreases", "the measure of "+c.name+" decreases", pos, bvcmp("bvult", m, n))
	}
	if st.isDead() {
		return nil
	}
	pre := st.clone()
	x.applyOpens(st, env, c)
	// callbacks
	for _, cf := range c.conforms {
		x.conformCheck(st, env, c, cf, pos)
	}
	if out, ok := x.iterate(st, env, c, fn, vars, pos); ok {
		return out
	}
	// havoc
	for _, m := range c.modifies {
		x.havocGhost(st, m)
	}
	fins := map[string]*T{}
	for _, o := range ownedObjs {
		for n, v := range vars {
			if p, ok := v.v.(*VPtr); ok && p.obj == o {
				f := fresh("fin", sNode)
				no := *st.heap[o]
				no.frozen = f
				st.heap[o] = &no
				st.assume(neq(f, nilNode()))
				st.addNode(f)
				fins[n] = f
			}
		}
	}
	var rv []V
	for i, t := range rts {
		n := fmt.Sprintf("r%d", i)
		if i < len(c.results) {
			n = c.results[i]
		}
		rv = append(rv, x.freshResult(st, n, t))
	}
	post := &Env{x: x, w: x.w, sp: x.spec, st: st, old: pre, vars: map[string]TV{}}
	for k, v := range env.vars {
		post.vars[k] = v
	}
	post.ovars = env.vars
	for k, f := range fins {
		post.vars["fin_"+k] = TV{v: f}
	}
	bindVars(post.vars, c.results, rv, rts)
	for i := range rv {
		for _, l := range x.typeInvs(st, rv[i], rts[i]) {
			st.assume(l.t)
		}
	}
	gnames := map[string]bool{}
	for _, g := range c.ghosts {
		gnames[g.name] = true
	}
	for _, cl := range c.ensures {
		if !x.prop.on(cl.facets) {
			continue
		}
		t := post.bool(cl.expr)
		if sc != nil && mentions(cl.expr, gnames) {
			s := *sc
			s.f = t
			st.schemas = append(st.schemas, s)
			continue
		}
		st.assume(t)
	}
	x.applyOpens(st, post, c)
	var ret V
	switch len(rv) {
	case 0:
		ret = &VAgg{}
	case 1:
		ret = rv[0]
	default:
		ret = &VAgg{rv}
	}
	return []Outcome{{st: st, ret: ret}}
}

func (x *Exec) applyOpens(st *State, env *Env, c *Contract) {
	later := map[string]bool{} // results aren't known on entry
	for _, r := range c.results {
		if _, ok := env.vars[r]; !ok {
			later[r] = true
		}
	}
	for _, o := range c.opens {
		if x.prop.on(o.facets) && !mentions(o.expr, later) {
			st.addNode(env.term(env.eval(o.expr), sNode))
		}
	}
}

func (c *Contract) key() string {
	if c.variant != "" {
		return c.name + "#" + c.variant
	}
	return c.name
}

// ownedView lets a specification read the fields of an owned node as they were on entry.
func (x *Exec) ownedView(st *State, vars map[string]TV, c *Contract, _ []int) map[string]TV {
	out := map[string]TV{}
	for k, v := range vars {
		out[k] = v
		if c.owned[k] {
			if p, ok := v.v.(*VPtr); ok {
				out[k] = TV{v: st.heap[p.obj].v, typ: deref(v.typ)}
			}
		}
	}
	return out
}

func mentions(e ast.Expr, names map[string]bool) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && names[id.Name] {
			found = true
		}
		return !found
	})
	return found
}

func (x *Exec) havocGhost(st *State, name string) {
	name = strings.TrimPrefix(name, "g.")
	old, ok := st.ghost["g."+name]
	if !ok {
		specFail("modifies unknown ghost variable %s", name)
	}
	st.ghost["g."+name] = fresh(name, old.sort)
}

// ---- callbacks

// callSym calls an unknown function according to its role.
func (x *Exec) callSym(st *State, f *VFunc, args []V, pos token.Pos) []Outcome {
	x.oblige(st, "nopanic", "call of a nil function "+f.id, pos, not(f.isnil))
	if st.isDead() {
		return nil
	}
	r := x.spec.roles[f.role]
	if r == nil && f.role == "" {
		return x.callAny(st, f, args)
	}
	if r == nil {
		unsup("callback %s has no role", f.id)
	}
	if len(r.params) != len(args) {
		unsup("role %s has %d parameters", r.path, len(r.params))
	}
	vars := map[string]TV{}
	for k, v := range x.unit.env.vars {
		if x.unit.ghostNames[k] {
			vars[k] = v
		}
	}
	for i, a := range args {
		t := f.sig.Params().At(i).Type()
		if x.w.isNodePtr(t) {
			n := x.asNode(st, a)
			st.addNode(n)
			a = n
		} else if s, ok := x.w.scalarSort(t); ok && s == sVal {
			a = x.asVal(st, a)
		}
		vars[r.params[i]] = TV{v: a, typ: t}
	}
	env := &Env{x: x, w: x.w, sp: x.spec, st: st, vars: vars}
	for _, c := range r.requires {
		if x.prop.on(c.facets) {
			x.oblige(st, "role", fmt.Sprintf("call of %s: %s", f.id, c.src), pos, env.bool(c.expr))
		}
	}
	pre := st.clone()
	x.havocReachable(st, f, args, map[int]bool{})
	for _, m := range r.modifies {
		x.havocGhost(st, m)
	}
	var rv []V
	rts := resultTypes(f.sig)
	for i, t := range rts {
		rv = append(rv, x.freshResult(st, fmt.Sprintf("cb%d", i), t))
	}
	post := &Env{x: x, w: x.w, sp: x.spec, st: st, old: pre, vars: vars}
	bindVars(post.vars, r.results, rv, rts)
	for _, c := range r.ensures {
		if x.prop.on(c.facets) {
			st.assume(post.bool(c.expr))
		}
	}
	var ret V
	switch len(rv) {
	case 0:
		ret = &VAgg{}
	case 1:
		ret = rv[0]
	default:
		ret = &VAgg{rv}
	}
	return []Outcome{{st: st, ret: ret}}
}

// callAny calls a function nothing is known about: it may do whatever is possible
// with what it is given and with every shared variable.
func (x *Exec) callAny(st *State, f *VFunc, args []V) []Outcome {
	cells := map[int]bool{}
	for id, o := range st.heap {
		if o.cell {
			cells[id] = true
		}
	}
	x.havocReachable(st, f, args, cells)
	for k, v := range st.ghost {
		if strings.HasPrefix(k, "g.") {
			st.ghost[k] = fresh(strings.TrimPrefix(k, "g."), v.sort)
		}
	}
	var rv []V
	for i, t := range resultTypes(f.sig) {
		v := x.freshResult(st, fmt.Sprintf("cb%d", i), t)
		for _, l := range x.typeInvs(st, v, t) {
			st.assume(l.t)
		}
		rv = append(rv, v)
	}
	switch len(rv) {
	case 0:
		return []Outcome{{st: st, ret: &VAgg{}}}
	case 1:
		return []Outcome{{st: st, ret: rv[0]}}
	}
	return []Outcome{{st: st, ret: &VAgg{rv}}}
}

// havocReachable gives the shared variables in cells, and all that can be reached
// from the arguments of a callback, arbitrary valid contents.
func (x *Exec) havocReachable(st *State, f *VFunc, args []V, cells map[int]bool) {
	var reach func(v V)
	seen := map[*VClosure]bool{}
	reach = func(v V) {
		switch a := v.(type) {
		case *VAgg:
			for _, e := range a.e {
				reach(e)
			}
		case *VIface:
			reach(a.v)
		case *VClosure:
			if !seen[a] {
				seen[a] = true
				for _, b := range a.binds {
					reach(b)
				}
			}
		case *VPtr:
			o := st.heap[a.obj]
			if x.w.isNodeStruct(o.typ) {
				return // nodes are never written by others
			}
			if _, ok := o.typ.Underlying().(*types.Struct); !ok {
				unsup("callback %s gets a pointer to %s", f.id, o.typ)
			}
			if !cells[a.obj] {
				cells[a.obj] = true
				reach(o.v)
			}
		case *VSlice:
			unsup("callback %s gets a %T", f.id, v)
		}
	}
	for _, a := range args {
		reach(a)
	}
	var ids []int
	for id := range cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		x.havocCell(st, id)
	}
}

// pathValue follows a dotted path from a parameter.
func (x *Exec) pathValue(env *Env, path string) TV {
	return env.eval(parseExpr(path, "role"))
}

// conformCheck proves that the function passed for a callback satisfies its role.
func (x *Exec) conformCheck(st *State, env *Env, c *Contract, cf conform, pos token.Pos) {
	tv := x.pathValue(env, cf.path)
	r := x.spec.roles[cf.role]
	if r == nil {
		specFail("unknown role %s", cf.role)
	}
	switch f := tv.v.(type) {
	case VNil:
		return // whether nil is allowed is up to the precondition
	case *VFunc:
		if f.role == cf.role {
			return
		}
	case *VClosure:
		for _, it := range x.unit.iters() {
			if it.callee == c.name {
				return // executed by the iteration rule instead
			}
		}
	default:
		unsup("callback %s is %T", cf.path, tv.v)
	}
	if x.inConform > 3 {
		unsup("callbacks nest too deeply")
	}
	x.inConform++
	defer func() { x.inConform-- }()
	sig, ok := tv.typ.Underlying().(*types.Signature)
	if !ok {
		unsup("callback type %s", tv.typ)
	}
	s2 := st.clone()
	for _, m := range r.modifies {
		x.havocGhost(s2, m)
	}
	vars := map[string]TV{}
	for k, v := range x.unit.env.vars {
		if x.unit.ghostNames[k] {
			vars[k] = v
		}
	}
	var args []V
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		a := x.freshResult(s2, r.params[i], t)
		args = append(args, a)
		vars[r.params[i]] = TV{v: a, typ: t}
		for _, l := range x.typeInvs(s2, a, t) {
			s2.assume(l.t)
		}
	}
	e1 := &Env{x: x, w: x.w, sp: x.spec, st: s2, vars: vars}
	for _, cl := range r.requires {
		if x.prop.on(cl.facets) {
			s2.assume(e1.bool(cl.expr))
		}
	}
	pre := s2.clone()
	s2.trail = append(s2.trail, "callback "+cf.path)
	if vf, ok := tv.v.(*VFunc); ok {
		s2.assume(not(vf.isnil))
	}
	for _, o := range x.callV(s2, tv.v, args, pos) {
		if o.panic {
			x.oblige(o.st, "nopanic", o.why, pos, mkFalse())
			continue
		}
		for k, ob := range pre.heap {
			if o.st.heap[k] != ob && !o.st.heap[k].param {
				unsup("callback %s writes captured variables", cf.path)
			}
		}
		e2 := &Env{x: x, w: x.w, sp: x.spec, st: o.st, old: pre, vars: map[string]TV{}}
		for k, v := range vars {
			e2.vars[k] = v
		}
		rts := resultTypes(sig)
		rv := []V{o.ret}
		if len(rts) != 1 {
			if a, ok := o.ret.(*VAgg); ok {
				rv = a.e
			}
		}
		for i := range rts {
			if s, ok := x.w.scalarSort(rts[i]); ok && s == sVal {
				rv[i] = x.asVal(o.st, rv[i])
			}
		}
		bindVars(e2.vars, r.results, rv, rts)
		for _, cl := range r.ensures {
			if x.prop.on(cl.facets) {
				x.oblige(o.st, "role", fmt.Sprintf("%s passed to %s acts as %s: %s", cf.path, c.name, cf.role, cl.src), pos, e2.bool(cl.expr))
			}
		}
		for g, v := range o.st.ghost {
			if !strings.HasPrefix(g, "g.") || pre.ghost[g] == v {
				continue
			}
			known := false
			for _, m := range r.modifies {
				known = known || "g."+strings.TrimPrefix(m, "g.") == g
			}
			if !known {
				unsup("callback %s changes ghost state %s", cf.path, g)
			}
		}
	}
}

// ---- the iteration rule

// iterate handles a call that applies a closure to every node of a trie in
// order, according to a relation declared by the caller and proved by
// induction over the trie.
func (x *Exec) iterate(st *State, env *Env, c *Contract, fn *ssa.Function, vars map[string]TV, pos token.Pos) ([]Outcome, bool) {
	var it *IterSpec
	for _, i := range x.unit.iters() {
		if i.callee == c.name {
			it = i
		}
	}
	if it == nil || c.variant != "walk" {
		return nil, false
	}
	f := x.pathValue(env, c.conforms[0].path)
	if _, ok := f.v.(*VClosure); !ok {
		return nil, false
	}
	root := env.term(env.eval(ast.NewIdent(it.over)), sNode)
	// the variables the closure may change
	cells := map[string]int{}
	caps := x.captured(st, f.v)
	claimed := map[int]bool{}
	var missing []string
	for _, name := range it.state {
		if strings.HasPrefix(name, "g.") {
			continue
		}
		for _, k := range caps {
			if k.name == strings.Split(name, ":")[0] && !claimed[k.id] {
				cells[name] = k.id
				claimed[k.id] = true
				break
			}
		}
		if cells[name] == 0 {
			missing = append(missing, name)
		}
	}
	// a variable of another name stands for a declared one if there is no doubt which
	for _, name := range missing {
		cand := 0
		many := false
		for _, k := range caps {
			if !claimed[k.id] && k.written && kindFits(name, st.heap[k.id].typ) {
				many = many || cand != 0 && cand != k.id
				cand = k.id
			}
		}
		if cand == 0 || many {
			unsup("the closure passed to %s captures no variable %s", c.name, strings.Split(name, ":")[0])
		}
		cells[name] = cand
		claimed[cand] = true
	}
	// the other variables it writes may have any value
	var extra []captive
	for _, k := range caps {
		if !claimed[k.id] && k.written {
			if _, ok := x.w.scalarSort(st.heap[k.id].typ); ok {
				extra = append(extra, k)
				claimed[k.id] = true
			}
		}
	}
	mkEnv := func(s, o *State, n *T, ok *T) *Env {
		e := &Env{x: x, w: x.w, sp: x.spec, st: s, old: o, vars: map[string]TV{}}
		for k, v := range x.unit.env.vars {
			e.vars[k] = v
		}
		e.vars["n"] = TV{v: n}
		if ok != nil {
			e.vars[it.ok] = TV{v: ok}
		}
		e.ovars = map[string]TV{}
		for k, v := range e.vars {
			e.ovars[k] = v
		}
		for name, id := range cells {
			b := strings.Split(name, ":")[0]
			e.vars[b] = TV{v: s.heap[id].v, typ: s.heap[id].typ}
			if o != nil {
				e.ovars[b] = TV{v: o.heap[id].v, typ: o.heap[id].typ}
			}
		}
		return e
	}
	// havoc returns the states in which the variables have arbitrary values
	havoc := func(s *State, tag string) []*State {
		outs := []*State{s}
		for _, k := range extra {
			ob := *s.heap[k.id]
			ob.v = x.freshResult(s, k.name+tag, ob.typ)
			s.heap[k.id] = &ob
		}
		for _, name := range it.state {
			if strings.HasPrefix(name, "g.") {
				for _, o := range outs {
					x.havocGhost(o, name)
				}
				continue
			}
			parts := strings.Split(name, ":")
			id := cells[name]
			if len(parts) == 1 || !strings.HasPrefix(parts[1], "slice") {
				for _, o := range outs {
					ob := *o.heap[id]
					ob.v = x.freshResult(o, parts[0]+tag, ob.typ)
					o.heap[id] = &ob
				}
				continue
			}
			// name:slice0,1 - a slice of one of these lengths
			var next []*State
			for _, ln := range strings.Split(strings.TrimPrefix(parts[1], "slice"), ",") {
				n := 0
				fmt.Sscanf(ln, "%d", &n)
				for _, o := range outs {
					o = o.clone()
					ob := *o.heap[id]
					el := ob.typ.Underlying().(*types.Slice).Elem()
					arr := types.NewArray(el, int64(n))
					av := &VAgg{}
					for i := 0; i < n; i++ {
						av.e = append(av.e, x.freshResult(o, fmt.Sprintf("%s%d%s", parts[0], i, tag), el))
					}
					aid := x.newObj(o, arr, av)
					ob.v = &VSlice{aid, 0, n}
					o.heap[id] = &ob
					for _, l := range x.typeInvs(o, ob.v, ob.typ) {
						o.assume(l.t)
					}
					next = append(next, o)
				}
			}
			outs = next
		}
		return outs
	}
	assumeRel := func(s, o *State, n, ok *T) {
		e := mkEnv(s, o, n, ok)
		for _, cl := range it.rel {
			if x.prop.on(cl.facets) {
				s.assume(e.bool(cl.expr))
			}
		}
	}
	// the slices are as long as the rule says, and their elements are valid
	proveShape := func(s *State, what string) {
		for _, name := range it.state {
			parts := strings.Split(name, ":")
			if len(parts) == 1 || strings.HasPrefix(name, "g.") || !strings.HasPrefix(parts[1], "slice") {
				continue
			}
			ob := s.heap[cells[name]]
			l := sliceLen(ob.v)
			one := mkFalse()
			for _, ln := range strings.Split(strings.TrimPrefix(parts[1], "slice"), ",") {
				n := 0
				fmt.Sscanf(ln, "%d", &n)
				one = or(one, eq(l, bvi(int64(n), l.sort.W)))
			}
			x.oblige(s, "iterate", what+": "+parts[0]+" has one of the declared lengths", pos, one)
			for _, l := range x.typeInvs(s, ob.v, ob.typ) {
				x.oblige(s, "iterate", what+": "+l.label, pos, l.t)
			}
		}
	}
	proveRel := func(s, o *State, n, ok *T, what string) {
		proveShape(s, what)
		e := mkEnv(s, o, n, ok)
		for _, cl := range it.rel {
			if x.prop.on(cl.facets) {
				x.oblige(s, "iterate", what+": "+cl.src, pos, e.bool(cl.expr))
			}
		}
	}
	assumePre := func(s *State, n *T) {
		e := mkEnv(s, nil, n, nil)
		for _, cl := range it.pre {
			if x.prop.on(cl.facets) {
				s.assume(e.bool(cl.expr))
			}
		}
	}
	provePre := func(s *State, n *T, what string) {
		proveShape(s, what)
		e := mkEnv(s, nil, n, nil)
		for _, cl := range it.pre {
			if x.prop.on(cl.facets) {
				x.oblige(s, "iterate", what+": "+cl.src, pos, e.bool(cl.expr))
			}
		}
	}
	wfPre := func(s *State, n *T) { // what walking a node requires of the node itself
		e := &Env{x: x, w: x.w, sp: x.spec, st: s, vars: map[string]TV{}}
		for k, v := range env.vars {
			e.vars[k] = v
		}
		e.vars[it.over] = TV{v: n}
		for _, r := range c.requires {
			if x.prop.on(r.facets) && mentions(r.expr, map[string]bool{it.over: true}) {
				s.assume(e.bool(r.expr))
			}
		}
	}
	// the relation holds for every trie, by induction
	base := st.clone()
	for _, s0 := range havoc(base, "") { // nil
		assumePre(s0, nilNode())
		proveRel(s0, s0.clone(), nilNode(), mkTrue(), "iterating over nothing")
	}
	n := fresh("it", sNode)
	step := st.clone()
	step.assume(neq(n, nilNode()))
	step.addNode(n)
	wfPre(step, n)
	wc := func(s *State, i int) *T {
		f := x.w.nodeFn(fmt.Sprintf("c%d", i))
		return app(f.fn, sNode, n)
	}
	for _, s0 := range havoc(step, "") {
		s0.addNode(wc(s0, 0))
		s0.addNode(wc(s0, 1))
		assumePre(s0, n)
		old := s0.clone()
		for _, o := range x.callV(s0, f.v, []V{n}, pos) {
			if o.panic {
				x.oblige(o.st, "nopanic", o.why, pos, mkFalse())
				continue
			}
			x.checkOnly(old, o.st, claimed, it)
			ok := o.ret.(*T)
			s1 := o.st
			sFalse := s1.clone()
			sFalse.assume(not(ok))
			if x.feasible(sFalse) {
				proveRel(sFalse, old, n, mkFalse(), "stopping at an element")
			}
			s1.assume(ok)
			if !x.feasible(s1) {
				continue
			}
			provePre(s1, wc(s1, 0), "before the first child")
			mid := s1.clone()
			for _, s2 := range havoc(s1, "") {
				ok1 := fresh("ok", sBool)
				assumeRel(s2, mid, wc(s2, 0), ok1)
				f2 := s2.clone()
				f2.assume(not(ok1))
				if x.feasible(f2) {
					proveRel(f2, old, n, mkFalse(), "stopping in the first child")
				}
				s2.assume(ok1)
				if !x.feasible(s2) {
					continue
				}
				provePre(s2, wc(s2, 1), "before the second child")
				mid2 := s2.clone()
				for _, s3 := range havoc(s2, "") {
					ok2 := fresh("ok", sBool)
					assumeRel(s3, mid2, wc(s3, 1), ok2)
					if x.feasible(s3) {
						proveRel(s3, old, n, ok2, "after the second child")
					}
				}
			}
		}
	}
	// and so for this one
	provePre(st, root, "before the iteration")
	if st.isDead() {
		return nil, true
	}
	old := st.clone()
	var outs []Outcome
	for _, s := range havoc(st, "") {
		ok := fresh("ok", sBool)
		assumeRel(s, old, root, ok)
		if x.feasible(s) {
			outs = append(outs, Outcome{st: s, ret: ok})
		}
	}
	return outs, true
}

// checkOnly makes sure that only the declared variables changed.
func (x *Exec) checkOnly(pre, post *State, allowed map[int]bool, it *IterSpec) {
	for k, ob := range pre.heap {
		if post.heap[k] != ob && !allowed[k] {
			if post.heap[k].frozen != nil && ob.frozen == nil {
				continue
			}
			unsup("the closure changes more than the declared variables")
		}
	}
	for g, v := range post.ghost {
		if pre.ghost[g] == v || !strings.HasPrefix(g, "g.") {
			continue
		}
		ok := false
		for _, s := range it.state {
			ok = ok || s == g
		}
		if !ok {
			unsup("the closure changes ghost state %s", g)
		}
	}
}

// captive is a variable captured by a closure.
type captive struct {
	name    string
	id      int
	written bool
}

// captured lists the variables that a closure, or one it captures, captures.
func (x *Exec) captured(st *State, v V) []captive {
	var out []captive
	seenC := map[V]bool{}
	seenO := map[int]bool{}
	at := map[int]int{}
	var walk func(v V)
	walk = func(v V) {
		switch c := v.(type) {
		case *VClosure:
			if seenC[c] {
				return
			}
			seenC[c] = true
			for i, fv := range c.fn.FreeVars {
				p, ok := c.binds[i].(*VPtr)
				if ok && len(p.path) == 0 && st.heap[p.obj] != nil && !st.heap[p.obj].param {
					k, ok := at[p.obj]
					if !ok {
						k = len(out)
						at[p.obj] = k
						out = append(out, captive{name: fv.Name(), id: p.obj})
					}
					out[k].written = out[k].written || writesTo(fv)
				}
				walk(c.binds[i])
			}
		case *VPtr:
			if o := st.heap[c.obj]; o != nil && !seenO[c.obj] {
				seenO[c.obj] = true
				walk(o.v)
			}
		case *VAgg:
			for _, e := range c.e {
				walk(e)
			}
		}
	}
	walk(v)
	return out
}

// writesTo tells whether a function, or a closure it makes, stores to a
// variable it has captured.
func writesTo(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.Store:
			if i.Addr == v {
				return true
			}
		case *ssa.MakeClosure:
			for k, b := range i.Bindings {
				if b == v && writesTo(i.Fn.(*ssa.Function).FreeVars[k]) {
					return true
				}
			}
		}
	}
	return false
}

// kindFits compares a declared state variable (name, name:sliceN or name:type)
// with the type of a captured one.
func kindFits(name string, t types.Type) bool {
	parts := strings.Split(name, ":")
	if len(parts) == 1 {
		return true
	}
	_, sl := t.Underlying().(*types.Slice)
	if strings.HasPrefix(parts[1], "slice") {
		return sl
	}
	return types.TypeString(t, nil) == parts[1]
}

// ---- loops

func isHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func (x *Exec) loopSpec(fn *ssa.Function) *LoopSpec {
	if x.unit == nil || x.unit.c == nil {
		return nil
	}
	for _, l := range x.unit.c.loops {
		if l.fn == fnKey(fn) {
			return l
		}
	}
	return nil
}

func (x *Exec) loopEnv(st *State, fr *Frame, b *ssa.BasicBlock, vals []V) *Env {
	e := &Env{x: x, w: x.w, sp: x.spec, st: st, old: fr.entry, vars: map[string]TV{}}
	for k, v := range x.unit.env.vars {
		e.vars[k] = v
	}
	for i, p := range fr.fn.Params {
		e.vars[p.Name()] = TV{v: fr.regs[p], typ: p.Type()}
		if i == 0 && fr.fn.Signature.Recv() != nil {
			e.vars["me"] = e.vars[p.Name()]
		}
	}
	for i, v := range vals {
		p := b.Instrs[i].(*ssa.Phi)
		e.vars[p.Comment] = TV{v: v, typ: p.Type()}
	}
	// it is the only loop variable, whatever it is called
	if len(vals) == 1 {
		p := b.Instrs[0].(*ssa.Phi)
		e.vars["it"] = TV{v: vals[0], typ: p.Type()}
	}
	return e
}

func phiVals(x *Exec, st *State, fr *Frame, b, prev *ssa.BasicBlock) []V {
	var out []V
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for k, e := range b.Preds {
			if e == prev {
				out = append(out, x.val(st, fr, p.Edges[k]))
				break
			}
		}
	}
	return out
}

func (x *Exec) loopEntry(st *State, fr *Frame, b, prev *ssa.BasicBlock) ([]Outcome, bool) {
	l := x.loopSpec(fr.fn)
	if l == nil || !isHeader(b) || b.Dominates(prev) {
		return nil, false
	}
	fr.entry = st.clone()
	vals := phiVals(x, st, fr, b, prev)
	e := x.loopEnv(st, fr, b, vals)
	for _, c := range l.inv {
		if x.prop.on(c.facets) {
			x.oblige(st, "invariant", "loop invariant on entry: "+c.src, fr.fn.Pos(), e.bool(c.expr))
		}
	}
	for _, m := range l.mods {
		x.havocGhost(st, m)
	}
	var nv []V
	k := 0
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := x.freshResult(st, p.Comment, p.Type())
		fr.regs[p] = v
		nv = append(nv, v)
		k++
	}
	e = x.loopEnv(st, fr, b, nv)
	for _, c := range l.inv {
		if x.prop.on(c.facets) {
			st.assume(e.bool(c.expr))
		}
	}
	if l.decr != nil {
		st.ghost["loop:"+fnKey(fr.fn)] = e.term(e.eval(l.decr), bv(64))
	}
	return x.instrs(st, fr, b, k), true
}

func (x *Exec) loopInvariant(st *State, fr *Frame, b, prev *ssa.BasicBlock) ([]Outcome, bool) {
	l := x.loopSpec(fr.fn)
	if l == nil || !isHeader(b) {
		return nil, false
	}
	e := x.loopEnv(st, fr, b, phiVals(x, st, fr, b, prev))
	for _, c := range l.inv {
		if x.prop.on(c.facets) {
			x.oblige(st, "invariant", "loop invariant is kept: "+c.src, fr.fn.Pos(), e.bool(c.expr))
		}
	}
	if l.decr == nil {
		unsup("loop without a measure")
	}
	x.oblige(st, "decreases", "the loop terminates", fr.fn.Pos(),
		bvcmp("bvult", e.term(e.eval(l.decr), bv(64)), st.ghost["loop:"+fnKey(fr.fn)]))
	return nil, true
}

// ---- models of external functions

func (x *Exec) intrinsic(st *State, fn *ssa.Function, args []V, pos token.Pos) ([]Outcome, bool) {
	one := func(v V) ([]Outcome, bool) { return []Outcome{{st: st, ret: v}}, true }
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	if strings.HasPrefix(pkg, modPath) {
		return nil, false
	}
	x.w.extern[pkg+"."+fn.Name()] = true
	switch pkg + "." + fn.Name() {
	case "fmt.Errorf", "errors.New":
		return one(&VErr{mkTrue()})
	case "math/bits.LeadingZeros32", "math/bits.LeadingZeros64", "math/bits.LeadingZeros8", "math/bits.LeadingZeros16":
		return one(resize(clz(args[0].(*T)), 64, false))
	case "math/bits.OnesCount32", "math/bits.OnesCount64", "math/bits.OnesCount8", "math/bits.OnesCount16":
		return one(resize(popcount(args[0].(*T)), 64, false))
	case "math/bits.Len32", "math/bits.Len64":
		t := args[0].(*T)
		return one(bvbin("bvsub", bvi(int64(t.sort.W), 64), resize(clz(t), 64, false)))
	case "strings.WriteString": // (*strings.Builder).WriteString: the text is not modelled
		if fn.Signature.Recv() != nil {
			return one(&VAgg{[]V{fresh("n", bv(64)), &VErr{mkFalse()}}})
		}
	case "strings.String":
		if fn.Signature.Recv() != nil {
			return one(fresh("text", sStr))
		}
	case "math.Pow":
		b, ok1 := args[0].(*VFloat)
		e, ok2 := args[1].(*VFloat)
		if ok1 && ok2 && b.form == "const" && b.c == 2 && e.form == "uint" {
			return one(&VFloat{form: "pow2", t: e.t})
		}
	case "sync/atomic.CompareAndSwapPointer":
		return x.cas(st, args, pos), true
	case "sync/atomic.LoadPointer":
		return one(x.load(st, args[0], pos))
	case "sync/atomic.StorePointer":
		x.store(st, args[0], args[1], pos)
		return one(&VAgg{})
	case "sync/atomic.SwapPointer":
		v := x.load(st, args[0], pos)
		x.store(st, args[0], args[1], pos)
		return one(v)
	}
	if out, ok := x.textIntrinsic(st, pkg+"."+fn.Name(), fn, args, pos); ok {
		return out, true
	}
	if out, ok := x.netIntrinsic(st, pkg+"."+fn.Name(), fn, args, pos); ok {
		return out, true
	}
	return nil, false
}

// cas is an atomic compare and swap of a cell.
func (x *Exec) cas(st *State, args []V, pos token.Pos) []Outcome {
	p, ok := args[0].(*VPtr)
	if !ok {
		unsup("compare and swap on %T", args[0])
	}
	o := st.heap[p.obj]
	if o == nil {
		unsup("compare and swap on an unknown object")
	}
	if o.frozen != nil {
		x.frameFail(st, pos)
		return nil
	}
	cur := x.asNode(st, x.load(st, p, pos))
	old := x.asNode(st, args[1])
	nw := x.asNode(st, args[2])
	fail := st.clone()
	st.assume(eq(cur, old))
	fail.assume(neq(cur, old))
	var outs []Outcome
	if x.feasible(st) {
		st.addNode(cur)
		st.addNode(nw)
		if sw := st.ghost[cellKey("swapped", p.obj)]; sw != nil {
			x.oblige(st, "atomic", "an operation takes effect at one instant", pos, not(sw))
			st.ghost[cellKey("swapped", p.obj)] = mkTrue()
			st.ghost[cellKey("before", p.obj)] = cur
			st.ghost[cellKey("after", p.obj)] = nw
		}
		no := *st.heap[p.obj]
		no.v = x.setPath(st, no.v, p.path, nw)
		st.heap[p.obj] = &no
		outs = append(outs, Outcome{st: st, ret: mkTrue()})
	}
	if x.feasible(fail) {
		outs = append(outs, Outcome{st: fail, ret: mkFalse()})
	}
	return outs
}

// Concurrency. With interference on, every access of a shared cell finds some valid content that another
// goroutine may just have put there. The content last read and the contents before and after a successful swap
// are kept as ghost state: an operation must do what its specification says to the content at one instant, the
// one of its swap or else the one of its last read.

func cellKey(what string, obj int) string { return fmt.Sprintf("%s:%d", what, obj) }

func (x *Exec) startInterference(st *State) {
	x.interfere = true
	for id, o := range st.heap {
		if !o.cell {
			continue
		}
		r := rootTerm(o.v)
		if r == nil {
			continue
		}
		st.ghost[cellKey("swapped", id)] = mkFalse()
		for _, k := range []string{"seen", "before", "after"} {
			st.ghost[cellKey(k, id)] = r
		}
	}
}

// atInstant gives the states before and after, as of the instant at which an operation took effect.
func (x *Exec) atInstant(st, pre *State) (*State, *State) {
	st, pre = st.clone(), pre.clone()
	for id := range pre.heap {
		sw := st.ghost[cellKey("swapped", id)]
		if sw == nil {
			continue
		}
		seen := st.ghost[cellKey("seen", id)]
		set := func(s *State, t *T) {
			o := *s.heap[id]
			if rootTerm(o.v) == t {
				return
			}
			o.v = withRoot(o.v, t)
			s.heap[id] = &o
		}
		set(pre, ite(sw, st.ghost[cellKey("before", id)], seen))
		set(st, ite(sw, st.ghost[cellKey("after", id)], seen))
	}
	return st, pre
}

// rootTerm finds the root of the trie in the content of a cell.
func rootTerm(v V) *T {
	switch a := v.(type) {
	case *T:
		if a.sort == sNode {
			return a
		}
	case *VAgg:
		for _, e := range a.e {
			if r := rootTerm(e); r != nil {
				return r
			}
		}
	}
	return nil
}

func withRoot(v V, t *T) V {
	switch a := v.(type) {
	case *T:
		if a.sort == sNode {
			return t
		}
	case *VAgg:
		n := &VAgg{e: append([]V{}, a.e...)}
		for i, e := range a.e {
			if rootTerm(e) != nil {
				n.e[i] = withRoot(e, t)
				return n
			}
		}
	}
	return v
}

// havocCell gives a shared cell an arbitrary valid content: another goroutine may have written it.
func (x *Exec) havocCell(st *State, obj int) {
	o := *st.heap[obj]
	var rec func(v V, t types.Type) V
	rec = func(v V, t types.Type) V {
		s, ok := t.Underlying().(*types.Struct)
		a, ok2 := v.(*VAgg)
		if !ok || !ok2 {
			return v
		}
		n := &VAgg{e: append([]V{}, a.e...)}
		for i := 0; i < s.NumFields(); i++ {
			if x.w.isNodePtr(s.Field(i).Type()) { // only the root changes
				n.e[i] = x.freshResult(st, "cell", s.Field(i).Type())
			} else {
				n.e[i] = rec(a.e[i], s.Field(i).Type())
			}
		}
		return n
	}
	if _, ok := o.v.(*VAgg); !ok {
		unsup("shared cell of type %s", o.typ)
	}
	n := rec(o.v, o.typ)
	o.v = n
	st.heap[obj] = &o
	for _, l := range x.typeInvs(st, n, o.typ) {
		st.assume(l.t)
	}
}

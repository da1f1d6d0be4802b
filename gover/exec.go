package main

// Forward symbolic execution of go/ssa functions. Non-recursive functions are
// inlined, functions under contract are replaced by their contracts.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Oblig is a proof obligation: pc implies goal.
type Oblig struct {
	kind    string // "ensures", "requires", "nopanic", "frame", "decreases", "role", "invariant"
	label   string
	fn      string // the function under verification
	pos     string
	pc      []*T
	goal    *T
	nodes   []*T
	trail   []string
	schemas []schema
	insts   map[string][]*T // additional values for ghost variables
	model   []modelVar      // values worth showing when it fails
	// results
	status  string // "proved", "failed", "unknown"
	backend string
	ms      int64
	output  string
}

type modelVar struct {
	name string
	t    *T
}

// Outcome is one way for a call to end.
type Outcome struct {
	st    *State
	ret   V
	panic bool
	why   string
}

type deferred struct {
	fn   V
	args []V
	call *ssa.CallCommon
}

// Frame is an activation of an SSA function.
type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]V
	binds  []V
	defers []deferred
	visits map[*ssa.BasicBlock]int
	entry  *State // where the loop under a contract was entered
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, binds: f.binds, entry: f.entry, regs: make(map[ssa.Value]V, len(f.regs)+8), visits: map[*ssa.BasicBlock]int{}}
	for k, v := range f.regs {
		n.regs[k] = v
	}
	for k, v := range f.visits {
		n.visits[k] = v
	}
	n.defers = append([]deferred{}, f.defers...)
	return n
}

// deadline bounds the symbolic execution of one contract.
var deadline time.Time

// Exec verifies one function under contract.
type Exec struct {
	w         *World
	spec      *Spec
	prop      *PropCfg
	unit      *Unit
	obls      []*Oblig
	objSeq    int
	stack     []*ssa.Function
	paths     int
	interfere bool // cells may change between any two accesses
	inlined   map[string]bool
	model     []modelVar
	steps     int
	noOblig   int
	inConform int
	loadSt    *State
}

const maxVisits = 80
const maxForks = 6
const maxPaths = 6000

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.w.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// oblige records a proof obligation and assumes it afterwards.
func (x *Exec) oblige(st *State, kind, label string, p token.Pos, goal *T) {
	g := st.under(goal)
	if g.isTrue() {
		x.count(kind)
		if x.unit != nil && x.noOblig == 0 {
			x.unit.trivial++
		}
		return
	}
	if x.noOblig == 0 {
		o := &Oblig{kind: kind, label: label, fn: x.unit.name(), pos: x.pos(p), pc: st.pcTerms(), goal: goal,
			nodes: append([]*T{}, st.nodes...), trail: append([]string{}, st.trail...), model: x.model,
			schemas: append([]schema{}, st.schemas...), insts: x.evalInsts(st)}
		x.obls = append(x.obls, o)
	}
	st.assume(goal)
}

func (x *Exec) count(kind string) {}

func (x *Exec) newObj(st *State, t types.Type, v V) int {
	x.objSeq++
	st.heap[x.objSeq] = &Obj{typ: t, v: v}
	return x.objSeq
}

// ---- memory

func (x *Exec) selPath(v V, path []pe) V {
	for _, p := range path {
		a, ok := v.(*VAgg)
		if !ok {
			unsup("access path into %T", v)
		}
		if p.sym == nil {
			if p.i < 0 || p.i >= len(a.e) {
				unsup("index %d out of %d", p.i, len(a.e))
			}
			v = a.e[p.i]
			continue
		}
		if len(a.e) == 0 {
			unsup("symbolic index into empty array")
		}
		r := a.e[len(a.e)-1]
		for i := len(a.e) - 2; i >= 0; i-- {
			m, ok := mergeV(eq(p.sym, bvi(int64(i), p.sym.sort.W)), a.e[i], r)
			if !ok && x.loadSt != nil {
				m, ok = mergeV(eq(p.sym, bvi(int64(i), p.sym.sort.W)), x.nodeish(x.loadSt, a.e[i]), x.nodeish(x.loadSt, r))
			}
			if !ok {
				unsup("symbolic index over incompatible elements")
			}
			r = m
		}
		v = r
	}
	return v
}

func (x *Exec) setPath(st *State, v V, path []pe, nv V) V {
	if len(path) == 0 {
		return nv
	}
	a, ok := v.(*VAgg)
	if !ok {
		unsup("store path into %T", v)
	}
	r := &VAgg{e: append([]V{}, a.e...)}
	p := path[0]
	if p.sym == nil {
		r.e[p.i] = x.setPath(st, a.e[p.i], path[1:], nv)
		return r
	}
	for i := range a.e {
		n := x.setPath(st, a.e[i], path[1:], nv)
		n, o := x.nodeish(st, n), x.nodeish(st, a.e[i])
		m, ok := mergeV(eq(p.sym, bvi(int64(i), p.sym.sort.W)), n, o)
		if !ok {
			unsup("symbolic store over incompatible elements")
		}
		r.e[i] = m
	}
	return r
}

// nodeish freezes owned nodes so that they can be merged with others.
func (x *Exec) nodeish(st *State, v V) V {
	if p, ok := v.(*VPtr); ok && len(p.path) == 0 {
		if o := st.heap[p.obj]; o != nil && x.w.isNodeStruct(o.typ) {
			return x.freeze(st, p.obj)
		}
	}
	return v
}

func (x *Exec) load(st *State, p V, pos token.Pos) V {
	switch a := p.(type) {
	case *VPtr:
		o := st.heap[a.obj]
		if o == nil {
			unsup("load from unknown object")
		}
		if o.cell && x.interfere {
			x.havocCell(st, a.obj)
			o = st.heap[a.obj]
			if k := cellKey("seen", a.obj); st.ghost[k] != nil && rootTerm(x.selPath(o.v, a.path)) != nil {
				st.ghost[k] = rootTerm(o.v)
			}
		}
		x.loadSt = st
		defer func() { x.loadSt = nil }()
		return x.selPath(o.v, a.path)
	case *VNAddr:
		return x.selPath(x.w.nodeValue(a.n), a.path)
	case *T:
		if a.sort == sNode {
			x.derefNode(st, a, pos)
			return x.w.nodeValue(a)
		}
	case VNil:
		x.oblige(st, "nopanic", "nil dereference", pos, mkFalse())
		return nil
	}
	unsup("load through %T", p)
	return nil
}

func (x *Exec) derefNode(st *State, n *T, pos token.Pos) {
	x.oblige(st, "nopanic", "nil dereference", pos, neq(n, nilNode()))
	st.addNode(n)
}

func (x *Exec) store(st *State, p V, v V, pos token.Pos) {
	switch a := p.(type) {
	case *VPtr:
		o := st.heap[a.obj]
		if o.frozen != nil {
			// A node that was allocated here has been handed out already.
			x.frameFail(st, pos)
			return
		}
		if o.cell && x.interfere {
			x.oblige(st, "atomic", "a shared variable is only changed by compare and swap", pos, mkFalse())
			return
		}
		n := *o
		n.v = x.setPath(st, o.v, a.path, v)
		st.heap[a.obj] = &n
		return
	case *VNAddr:
		x.frameFail(st, pos)
		return
	case *T:
		if a.sort == sNode {
			x.derefNode(st, a, pos)
			x.frameFail(st, pos)
			return
		}
	case VNil:
		x.oblige(st, "nopanic", "nil dereference", pos, mkFalse())
		return
	}
	unsup("store through %T", p)
}

// frameFail: a write to a node that other values may share.
func (x *Exec) frameFail(st *State, pos token.Pos) {
	if !x.prop.facets["frame"] {
		// outside the subset for every other property: nodes are immutable there
		if x.feasible(st) {
			unsup("write to a shared node at %s", x.pos(pos))
		}
	}
	x.oblige(st, "frame", "shared node is not written", pos, mkFalse())
}

// freeze turns an owned node into an immutable node term.
func (x *Exec) freeze(st *State, obj int) *T {
	o := st.heap[obj]
	if o.frozen != nil {
		return o.frozen
	}
	n := fresh("nd", sNode)
	no := *o
	no.frozen = n
	st.heap[obj] = &no
	st.assume(neq(n, nilNode()))
	ls := x.w.leafTerms(o.v)
	for i, f := range x.w.nodeFields() {
		l := x.nodeish(st, ls[i])
		t, ok := l.(*T)
		if !ok {
			if _, isO := l.(*VOpaque); isO {
				continue
			}
			if f.sort == sVal {
				t = x.asVal(st, l)
			} else {
				unsup("node field holds %T", l)
			}
		}
		st.assume(eq(app(f.fn, f.sort, n), t))
		if t.sort == sNode && t.op == "var" && strings.HasPrefix(t.name, "nd!") {
			st.addNode(app(f.fn, f.sort, n)) // functions of the new node are functions of this one, too
		}
	}
	st.addNode(n)
	return n
}

// asNode converts a value to a node term.
func (x *Exec) asNode(st *State, v V) *T {
	switch a := v.(type) {
	case *T:
		if a.sort == sNode {
			return a
		}
	case *VPtr:
		if len(a.path) == 0 && x.w.isNodeStruct(st.heap[a.obj].typ) {
			return x.freeze(st, a.obj)
		}
	case VNil:
		return nilNode()
	}
	unsup("expected a node, got %T", v)
	return nil
}

// asVal boxes a value into the sort of interface data.
func (x *Exec) asVal(st *State, v V) *T {
	switch a := v.(type) {
	case *T:
		if a.sort == sVal {
			return a
		}
		return app("box_"+sortTag(a.sort), sVal, a)
	case VNil:
		return mkVar("nilVal", sVal)
	case *VIface:
		return x.asVal(st, a.v)
	case *VErr:
		return app("boxerr", sVal, a.nonnil)
	}
	return fresh("boxed", sVal)
}

func sortTag(s Sort) string {
	if s.W > 0 {
		return fmt.Sprintf("bv%d", s.W)
	}
	return s.Name
}

// ---- equality

func (x *Exec) eqV(st *State, a, b V, pos token.Pos) *T {
	_, an := a.(VNil)
	_, bn := b.(VNil)
	if an && bn {
		return mkTrue()
	}
	if an {
		return x.eqV(st, b, a, pos)
	}
	switch p := a.(type) {
	case *T:
		if q, ok := b.(*T); ok {
			if p.sort == sVal && q.sort == sVal {
				nilv := mkVar("nilVal", sVal)
				if p != nilv && q != nilv {
					x.oblige(st, "nopanic", "comparison of uncomparable values", pos,
						or(app("comparable", sBool, p), app("comparable", sBool, q)))
				}
			}
			return eq(p, q)
		}
		if bn {
			if p.sort == sNode {
				return eq(p, nilNode())
			}
			if p.sort == sVal {
				return eq(p, mkVar("nilVal", sVal))
			}
		}
		if q, ok := b.(*VPtr); ok && p.sort == sNode {
			return x.eqV(st, q, p, pos)
		}
	case *VPtr:
		if bn {
			return mkFalse()
		}
		if q, ok := b.(*VPtr); ok {
			return mkBool(p.obj == q.obj && samePath(p.path, q.path))
		}
		if q, ok := b.(*T); ok && q.sort == sNode {
			if f := st.heap[p.obj].frozen; f != nil {
				return eq(f, q)
			}
			return mkFalse() // not handed out yet, so nobody else has it
		}
	case *VAgg:
		if q, ok := b.(*VAgg); ok && len(p.e) == len(q.e) {
			var cs []*T
			for i := range p.e {
				cs = append(cs, x.eqV(st, p.e[i], q.e[i], pos))
			}
			if t, ok := pack(p); ok {
				if u, ok := pack(q); ok && t.sort == u.sort {
					return eq(t, u)
				}
			}
			return and(cs...)
		}
	case *VErr:
		if bn {
			return not(p.nonnil)
		}
		if q, ok := b.(*VErr); ok {
			if q.nonnil.isFalse() {
				return not(p.nonnil)
			}
			if p.nonnil.isFalse() {
				return not(q.nonnil)
			}
		}
	case *VSlice, *VClosure, *VIface:
		if bn {
			return mkFalse()
		}
		if p, ok := a.(*VIface); ok {
			if q, ok := b.(*VIface); ok {
				if !types.Identical(p.typ, q.typ) {
					return mkFalse()
				}
				return x.eqV(st, p.v, q.v, pos)
			}
		}
	case *VSym:
		if bn {
			return p.isnil
		}
	case *VFunc:
		if bn {
			return p.isnil
		}
	case *VISym:
		if bn {
			return not(p.nonnil)
		}
	}
	unsup("comparison of %T and %T at %s", a, b, x.pos(pos))
	return nil
}

// ---- execution

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) V {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return &VClosure{fn: c}
	case *ssa.Global:
		return x.globalPtr(st, c)
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == c {
				return fr.binds[i]
			}
		}
	case *ssa.Builtin:
		return c
	}
	r, ok := fr.regs[v]
	if !ok {
		unsup("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (x *Exec) constVal(c *ssa.Const) V {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(x.w, t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return strConst(constant.StringVal(c.Value))
	case constant.Int:
		if s, ok := x.w.scalarSort(t); ok && s.isBV() {
			b, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
			return bvc(b, s.W)
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(c.Value)
			return &VFloat{form: "const", c: f}
		}
	case constant.Float:
		f, _ := constant.Float64Val(c.Value)
		return &VFloat{form: "const", c: f}
	}
	unsup("constant %s", c)
	return nil
}

// globalPtr returns a pointer to a package level variable that nothing but its
// initializer writes.
func (x *Exec) globalPtr(st *State, g *ssa.Global) V {
	if st.ghostObj(g.Name()) != 0 {
		return &VPtr{obj: st.ghostObj(g.Name())}
	}
	if g.Pkg == nil || g.Pkg.Func("init") == nil {
		unsup("global %s", g)
	}
	v := zeroVal(x.w, deref(g.Type()))
	init := g.Pkg.Func("init")
	for f := range x.allFuncs() {
		if f == init {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && rootOf(s.Addr) == g {
					unsup("global %s is written by %s", g, f)
				}
			}
		}
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok || rootOf(s.Addr) != g {
				continue
			}
			v = x.setPath(st, v, pathOf(s.Addr), x.initVal(st, init, s.Val, g))
		}
	}
	x.objSeq++
	st.heap[x.objSeq] = &Obj{typ: deref(g.Type()), v: v}
	st.setGhostObj(g.Name(), x.objSeq)
	return &VPtr{obj: x.objSeq}
}

// initVal evaluates a constant or a literal of constants in a package initializer.
func (x *Exec) initVal(st *State, init *ssa.Function, val ssa.Value, g *ssa.Global) V {
	switch c := val.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.UnOp:
		a, ok := c.X.(*ssa.Alloc)
		if !ok || c.Op != token.MUL {
			break
		}
		v := zeroVal(x.w, deref(a.Type()))
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && rootOf(s.Addr) == a {
					v = x.setPath(st, v, pathOf(s.Addr), x.initVal(st, init, s.Val, g))
				}
			}
		}
		return v
	}
	unsup("initial value of global %s", g)
	return nil
}

func (s *State) ghostObj(name string) int {
	if t, ok := s.ghost["global:"+name]; ok {
		return int(t.val.Int64())
	}
	return 0
}
func (s *State) setGhostObj(name string, obj int) { s.ghost["global:"+name] = intc(int64(obj)) }

func rootOf(v ssa.Value) ssa.Value {
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		default:
			return v
		}
	}
}

func pathOf(v ssa.Value) []pe {
	switch a := v.(type) {
	case *ssa.FieldAddr:
		return append(pathOf(a.X), pe{i: a.Field})
	case *ssa.IndexAddr:
		c, ok := a.Index.(*ssa.Const)
		if !ok {
			unsup("initializer index")
		}
		return append(pathOf(a.X), pe{i: int(c.Int64())})
	}
	return nil
}

// callFn runs a function body.
func (x *Exec) callFn(st *State, fn *ssa.Function, args []V, binds []V) []Outcome {
	if fn.Blocks == nil {
		unsup("no body for %s", fn)
	}
	for _, f := range x.stack {
		if f == fn {
			unsup("recursive function %s has no contract", fn)
		}
	}
	if len(x.stack) > 60 {
		unsup("call depth")
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	fr := &Frame{fn: fn, regs: map[ssa.Value]V{}, binds: binds, visits: map[*ssa.BasicBlock]int{}}
	if len(args) != len(fn.Params) {
		unsup("arity of %s", fn)
	}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	return x.block(st, fr, fn.Blocks[0], nil)
}

func (x *Exec) block(st *State, fr *Frame, b, prev *ssa.BasicBlock) []Outcome {
	if !deadline.IsZero() && time.Now().After(deadline) {
		unsup("symbolic execution takes too long")
	}
	if st.isDead() {
		return nil
	}
	fr.visits[b]++
	if fr.visits[b] > maxVisits {
		unsup("loop in %s is not bounded by constants and has no invariant", fr.fn)
	}
	if prev != nil && fr.visits[b] > 1 {
		if out, ok := x.loopInvariant(st, fr, b, prev); ok {
			return out
		}
	} else if prev != nil {
		if out, ok := x.loopEntry(st, fr, b, prev); ok {
			return out
		}
	}
	// phis read their operands simultaneously
	i := 0
	var phis []V
	for ; i < len(b.Instrs); i++ {
		p, ok := b.Instrs[i].(*ssa.Phi)
		if !ok {
			break
		}
		for k, e := range b.Preds {
			if e == prev {
				phis = append(phis, x.val(st, fr, p.Edges[k]))
				break
			}
		}
	}
	for k := 0; k < i; k++ {
		fr.regs[b.Instrs[k].(*ssa.Phi)] = phis[k]
	}
	return x.instrs(st, fr, b, i)
}

func (x *Exec) jump(st *State, fr *Frame, from, to *ssa.BasicBlock) []Outcome {
	return x.block(st, fr, to, from)
}

func (x *Exec) instrs(st *State, fr *Frame, b *ssa.BasicBlock, i int) []Outcome {
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > 3000000 {
			unsup("symbolic execution budget")
		}
		if st.isDead() {
			return nil
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.If:
			c := x.val(st, fr, in.Cond).(*T)
			c = st.under(c)
			if c.isTrue() {
				return x.jump(st, fr, b, b.Succs[0])
			}
			if c.isFalse() {
				return x.jump(st, fr, b, b.Succs[1])
			}
			x.paths++
			if fr.visits[b] > maxForks {
				unsup("loop in %s is not bounded by constants and has no invariant", fr.fn)
			}
			if x.paths > maxPaths {
				unsup("too many paths")
			}
			st2, fr2 := st.clone(), fr.clone()
			st.assume(c)
			st2.assume(not(c))
			p := x.pos(in.Cond.Pos())
			st.trail = append(st.trail, p+" true")
			st2.trail = append(st2.trail, p+" false")
			var out []Outcome
			if x.feasible(st) {
				out = append(out, x.jump(st, fr, b, b.Succs[0])...)
			}
			if x.feasible(st2) {
				out = append(out, x.jump(st2, fr2, b, b.Succs[1])...)
			}
			return out
		case *ssa.Jump:
			return x.jump(st, fr, b, b.Succs[0])
		case *ssa.Return:
			r := &VAgg{}
			for _, v := range in.Results {
				r.e = append(r.e, x.val(st, fr, v))
			}
			if len(r.e) == 1 {
				return []Outcome{{st: st, ret: r.e[0]}}
			}
			return []Outcome{{st: st, ret: r}}
		case *ssa.Panic:
			return []Outcome{{st: st, panic: true, why: "panic at " + x.pos(in.Pos())}}
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			outs := []Outcome{{st: st}}
			for k := len(ds) - 1; k >= 0; k-- {
				var next []Outcome
				for _, o := range outs {
					if o.panic {
						next = append(next, o)
						continue
					}
					next = append(next, x.callV(o.st, ds[k].fn, ds[k].args, in.Pos())...)
				}
				outs = next
			}
			return x.cont(outs, nil, fr, b, i+1)
		case *ssa.Defer:
			d := deferred{}
			if in.Call.IsInvoke() {
				unsup("deferred interface call")
			}
			d.fn = x.val(st, fr, in.Call.Value)
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.val(st, fr, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.Call:
			outs := x.doCall(st, fr, in)
			if len(outs) == 1 && !outs[0].panic {
				st = outs[0].st
				fr.regs[in] = outs[0].ret
				continue
			}
			return x.cont(outs, in, fr, b, i+1)
		case *ssa.Store:
			x.store(st, x.val(st, fr, in.Addr), x.val(st, fr, in.Val), in.Pos())
		case *ssa.DebugRef:
		case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MapUpdate:
			unsup("%T at %s", in, x.pos(in.Pos()))
		default:
			v, ok := in.(ssa.Value)
			if !ok {
				unsup("instruction %T", in)
			}
			if ta, ok := in.(*ssa.TypeAssert); ok {
				outs := x.typeAssert(st, fr, ta)
				if len(outs) == 1 {
					st = outs[0].st
					fr.regs[ta] = outs[0].ret
					continue
				}
				return x.cont(outs, ta, fr, b, i+1)
			}
			r := x.simple(st, fr, v)
			if st.isDead() {
				return nil
			}
			fr.regs[v] = r
		}
	}
	unsup("block without terminator")
	return nil
}

// cont continues after a call for every outcome of the call.
func (x *Exec) cont(outs []Outcome, in ssa.Value, fr *Frame, b *ssa.BasicBlock, i int) []Outcome {
	var res []Outcome
	for k, o := range outs {
		if o.panic {
			res = append(res, o)
			continue
		}
		f := fr
		if k < len(outs)-1 {
			f = fr.clone()
		}
		if in != nil {
			f.regs[in] = o.ret
		}
		res = append(res, x.instrs(o.st, f, b, i)...)
	}
	return res
}

func (x *Exec) simple(st *State, fr *Frame, v ssa.Value) V {
	get := func(u ssa.Value) V { return x.val(st, fr, u) }
	switch in := v.(type) {
	case *ssa.Alloc:
		t := deref(in.Type())
		return &VPtr{obj: x.newObj(st, t, zeroVal(x.w, t))}
	case *ssa.FieldAddr:
		switch p := get(in.X).(type) {
		case *VPtr:
			return &VPtr{p.obj, append(append([]pe{}, p.path...), pe{i: in.Field})}
		case *VNAddr:
			return &VNAddr{p.n, append(append([]pe{}, p.path...), pe{i: in.Field})}
		case *T:
			x.derefNode(st, p, in.Pos())
			return &VNAddr{p, []pe{{i: in.Field}}}
		case VNil:
			x.oblige(st, "nopanic", "nil dereference", in.Pos(), mkFalse())
			return VNil{}
		default:
			unsup("field address of %T", p)
		}
	case *ssa.Field:
		a, ok := get(in.X).(*VAgg)
		if !ok {
			unsup("field of %T", get(in.X))
		}
		return a.e[in.Field]
	case *ssa.IndexAddr:
		idx := get(in.Index).(*T)
		idx = st.under(idx)
		switch p := get(in.X).(type) {
		case *VPtr:
			arr, ok := x.selPath(st.heap[p.obj].v, p.path).(*VAgg)
			if !ok {
				unsup("index of non-array")
			}
			x.bounds(st, idx, bvi(int64(len(arr.e)), idx.sort.W), in.Pos())
			return &VPtr{p.obj, append(append([]pe{}, p.path...), mkpe(idx))}
		case *VNAddr:
			arr, ok := x.selPath(x.w.nodeValue(p.n), p.path).(*VAgg)
			if !ok {
				unsup("index of non-array")
			}
			x.bounds(st, idx, bvi(int64(len(arr.e)), idx.sort.W), in.Pos())
			return &VNAddr{p.n, append(append([]pe{}, p.path...), mkpe(idx))}
		case *VSlice:
			x.bounds(st, idx, bvi(int64(p.hi-p.lo), idx.sort.W), in.Pos())
			if idx.isConst() {
				return &VPtr{p.obj, []pe{{i: p.lo + int(idx.val.Int64())}}}
			}
			if p.lo != 0 {
				unsup("symbolic index into a resliced slice")
			}
			return &VPtr{p.obj, []pe{{sym: idx}}}
		case *VSym:
			x.bounds(st, idx, resize(p.len, idx.sort.W, true), in.Pos())
			if !idx.isConst() {
				unsup("symbolic index into an unknown slice")
			}
			k := int(idx.val.Int64()) + p.off
			if k >= len(p.elems) {
				return &VPtr{obj: x.newObj(st, deref(in.Type()), fresh("byte", bv(8)))}
			}
			return &VPtr{obj: x.newObj(st, deref(in.Type()), p.elems[k])}
		case VNil:
			x.oblige(st, "nopanic", "index out of range", in.Pos(), mkFalse())
			return VNil{}
		default:
			unsup("index address of %T", p)
		}
	case *ssa.Index:
		idx := st.under(get(in.Index).(*T))
		a, ok := get(in.X).(*VAgg)
		if !ok {
			unsup("index of %T", get(in.X))
		}
		x.bounds(st, idx, bvi(int64(len(a.e)), idx.sort.W), in.Pos())
		return x.selPath(a, []pe{mkpe(idx)})
	case *ssa.UnOp:
		return x.unop(st, get(in.X), in)
	case *ssa.BinOp:
		return x.binop(st, in.Op, get(in.X), get(in.Y), in.X.Type(), in.Y.Type(), in.Pos())
	case *ssa.ChangeType:
		if isTypeParam(in.X.Type()) && !isTypeParam(in.Type()) && isEmptyIface(in.Type()) {
			return app("boxT", sVal, get(in.X).(*T))
		}
		return get(in.X)
	case *ssa.ChangeInterface:
		r := get(in.X)
		if isEmptyIface(in.Type()) {
			return x.asVal(st, r)
		}
		return r
	case *ssa.MakeInterface:
		r := get(in.X)
		if isEmptyIface(in.Type()) && !isError(in.Type()) {
			if isTypeParam(in.X.Type()) {
				return app("boxT", sVal, r.(*T))
			}
			if _, isIf := in.X.Type().Underlying().(*types.Interface); isIf {
				return r
			}
			return &VIface{in.X.Type(), r}
		}
		if isError(in.Type()) {
			return &VErr{mkTrue()}
		}
		return &VIface{in.X.Type(), r}
	case *ssa.MakeClosure:
		c := &VClosure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.binds = append(c.binds, get(b))
		}
		return c
	case *ssa.Extract:
		a, ok := get(in.Tuple).(*VAgg)
		if !ok {
			unsup("extract from %T", get(in.Tuple))
		}
		return a.e[in.Index]
	case *ssa.Slice:
		return x.slice(st, fr, in)
	case *ssa.Convert:
		return x.convert(st, get(in.X), in.X.Type(), in.Type(), in.Pos())
	case *ssa.MultiConvert:
		unsup("generic conversion")
	case *ssa.MakeSlice:
		l := st.under(get(in.Len).(*T))
		if !l.isConst() {
			unsup("make of symbolic length")
		}
		n := int(l.sval().Int64())
		el := in.Type().Underlying().(*types.Slice).Elem()
		arr := types.NewArray(el, int64(n))
		return &VSlice{x.newObj(st, arr, zeroVal(x.w, arr)), 0, n}
	}
	unsup("instruction %T (%s) at %s", v, v, x.pos(v.Pos()))
	return nil
}

func mkpe(idx *T) pe {
	if idx.isConst() {
		return pe{i: int(idx.val.Int64())}
	}
	return pe{sym: idx}
}

func (x *Exec) bounds(st *State, idx, n *T, pos token.Pos) {
	x.oblige(st, "nopanic", "index out of range", pos, bvcmp("bvult", idx, n))
}

func (x *Exec) unop(st *State, v V, in *ssa.UnOp) V {
	switch in.Op {
	case token.MUL:
		return x.load(st, v, in.Pos())
	case token.NOT:
		return not(v.(*T))
	case token.XOR:
		return bvnot(v.(*T))
	case token.SUB:
		if t, ok := v.(*T); ok {
			return bvneg(t)
		}
	}
	unsup("operator %s at %s", in.Op, x.pos(in.Pos()))
	return nil
}

func (x *Exec) binop(st *State, op token.Token, a, b V, ta, tb types.Type, pos token.Pos) V {
	switch op {
	case token.EQL:
		return x.eqV(st, a, b, pos)
	case token.NEQ:
		return not(x.eqV(st, a, b, pos))
	}
	p, ok1 := a.(*T)
	q, ok2 := b.(*T)
	if !ok1 || !ok2 {
		unsup("operator %s on %T, %T at %s", op, a, b, x.pos(pos))
	}
	if p.sort == sStr {
		switch op {
		case token.ADD:
			return catText(p, q)
		}
		unsup("string operator %s", op)
	}
	if p.sort == sBool {
		switch op {
		case token.AND:
			return and(p, q)
		case token.OR:
			return or(p, q)
		}
	}
	if !p.sort.isBV() {
		unsup("operator %s on %s at %s", op, p.sort, x.pos(pos))
	}
	signed := isSigned(ta)
	switch op {
	case token.ADD:
		return bvbin("bvadd", p, q)
	case token.SUB:
		return bvbin("bvsub", p, q)
	case token.MUL:
		return bvbin("bvmul", p, q)
	case token.AND:
		return bvbin("bvand", p, q)
	case token.OR:
		return bvbin("bvor", p, q)
	case token.XOR:
		return bvbin("bvxor", p, q)
	case token.AND_NOT:
		return bvbin("bvand", p, bvnot(q))
	case token.QUO, token.REM:
		x.oblige(st, "nopanic", "division by zero", pos, neq(q, bvi(0, q.sort.W)))
		s := map[token.Token][2]string{token.QUO: {"bvudiv", "bvsdiv"}, token.REM: {"bvurem", "bvsrem"}}[op]
		if signed {
			return bvbin(s[1], p, q)
		}
		return bvbin(s[0], p, q)
	case token.SHL, token.SHR:
		if isSigned(tb) {
			x.oblige(st, "nopanic", "negative shift amount", pos, bvcmp("bvsle", bvi(0, q.sort.W), q))
		}
		n := shiftCount(q, p.sort.W)
		if op == token.SHL {
			return bvbin("bvshl", p, n)
		}
		if signed {
			return bvbin("bvashr", p, n)
		}
		return bvbin("bvlshr", p, n)
	case token.LSS:
		return bvcmp(cmpOp("lt", signed), p, q)
	case token.LEQ:
		return bvcmp(cmpOp("le", signed), p, q)
	case token.GTR:
		return bvcmp(cmpOp("lt", signed), q, p)
	case token.GEQ:
		return bvcmp(cmpOp("le", signed), q, p)
	}
	unsup("operator %s", op)
	return nil
}

func cmpOp(s string, signed bool) string {
	if signed {
		return "bvs" + s
	}
	return "bvu" + s
}

// shiftCount converts a shift amount to the width of the shifted value; amounts
// of at least the width stay at least the width.
func shiftCount(q *T, w int) *T {
	if q.sort.W <= w {
		return zext(q, w-q.sort.W)
	}
	if q.op == "zero_extend" && q.args[0].sort.W <= w {
		return zext(q.args[0], w-q.args[0].sort.W)
	}
	big := bvcmp("bvult", q, bvi(int64(w), q.sort.W))
	return ite(big, extract(w-1, 0, q), bvi(int64(w), w))
}

func (x *Exec) convert(st *State, v V, from, to types.Type, pos token.Pos) V {
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch t := v.(type) {
	case *T:
		ts, ok := x.w.scalarSort(to)
		if t.sort.isBV() && ok && ts.isBV() {
			return resize(t, ts.W, isSigned(from))
		}
		if t.sort.isBV() && tb != nil && tb.Info()&types.IsFloat != 0 {
			if isSigned(from) {
				return &VFloat{form: "int", t: t}
			}
			return &VFloat{form: "uint", t: t}
		}
		if tb != nil && tb.Kind() == types.UnsafePointer {
			return v
		}
		if fb != nil && fb.Kind() == types.UnsafePointer {
			return v
		}
		if t.sort == sStr && ok && ts == sStr {
			return v
		}
	case *VFloat:
		ts, ok := x.w.scalarSort(to)
		if ok && ts.isBV() && t.form == "pow2" {
			// 2**n for an unsigned n is exact as a float64 up to n = 1023, the
			// conversion is defined if it fits (assumed contract of math.Pow)
			n := resize(t.t, ts.W, false)
			one := bvi(1, ts.W)
			lim := int64(ts.W)
			if isSigned(to) {
				lim--
			}
			x.oblige(st, "nopanic", "float conversion in range", pos, bvcmp("bvult", t.t, bvi(lim, t.t.sort.W)))
			return bvbin("bvshl", one, n)
		}
		if tb != nil && tb.Info()&types.IsFloat != 0 {
			return v
		}
	case *VPtr, VNil, *VNAddr:
		return v
	}
	unsup("conversion of %T from %s to %s at %s", v, from, to, x.pos(pos))
	return nil
}

func (x *Exec) slice(st *State, fr *Frame, in *ssa.Slice) V {
	idx := func(v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		t := st.under(x.val(st, fr, v).(*T))
		if !t.isConst() {
			unsup("symbolic slice bound at %s", x.pos(in.Pos()))
		}
		return int(t.sval().Int64())
	}
	if in.Max != nil {
		unsup("three index slice")
	}
	switch p := x.val(st, fr, in.X).(type) {
	case *VPtr:
		if len(p.path) != 0 {
			unsup("slice of a nested array")
		}
		n := len(st.heap[p.obj].v.(*VAgg).e)
		lo, hi := idx(in.Low, 0), idx(in.High, n)
		x.oblige(st, "nopanic", "slice bounds out of range", in.Pos(), mkBool(0 <= lo && lo <= hi && hi <= n))
		return &VSlice{p.obj, lo, hi}
	case *VSlice:
		lo, hi := idx(in.Low, 0), idx(in.High, p.hi-p.lo)
		ok := 0 <= lo && lo <= hi && hi <= p.hi-p.lo
		x.oblige(st, "nopanic", "slice bounds out of range", in.Pos(), mkBool(ok))
		return &VSlice{p.obj, p.lo + lo, p.lo + hi}
	case VNil:
		if idx(in.Low, 0) == 0 && idx(in.High, 0) == 0 {
			return VNil{}
		}
	case *VSym:
		lo := idx(in.Low, 0)
		if in.High == nil {
			x.oblige(st, "nopanic", "slice bounds out of range", in.Pos(), bvcmp("bvsle", bvi(int64(lo), 64), p.len))
			n := *p
			n.off += lo
			n.len = bvbin("bvsub", p.len, bvi(int64(lo), 64))
			return &n
		}
	}
	unsup("slice of %T at %s", x.val(st, fr, in.X), x.pos(in.Pos()))
	return nil
}

func (x *Exec) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert) []Outcome {
	v := x.val(st, fr, in.X)
	fail := func(st *State) []Outcome {
		if in.CommaOk {
			return []Outcome{{st: st, ret: &VAgg{[]V{zeroVal(x.w, in.AssertedType), mkFalse()}}}}
		}
		x.oblige(st, "nopanic", "failed type assertion", in.Pos(), mkFalse())
		return nil
	}
	succeed := func(st *State, r V) []Outcome {
		if in.CommaOk {
			return []Outcome{{st: st, ret: &VAgg{[]V{r, mkTrue()}}}}
		}
		return []Outcome{{st: st, ret: r}}
	}
	switch a := v.(type) {
	case VNil:
		return fail(st)
	case *VIface:
		if _, isI := in.AssertedType.Underlying().(*types.Interface); isI && !isTypeParam(in.AssertedType) {
			if types.Implements(a.typ, in.AssertedType.Underlying().(*types.Interface)) {
				return succeed(st, a)
			}
			return fail(st)
		}
		if types.Identical(a.typ, in.AssertedType) {
			return succeed(st, a.v)
		}
		if !isTypeParam(in.AssertedType) {
			return fail(st)
		}
	case *T:
		if a.sort == sVal && isTypeParam(in.AssertedType) {
			// value.(T): the value, or the zero value if it doesn't hold a T
			isT := app("isT", sBool, a)
			r := ite(isT, app("unboxT", sVal, a), mkVar("zeroT", sVal))
			if in.CommaOk {
				return []Outcome{{st: st, ret: &VAgg{[]V{r, isT}}}}
			}
			x.oblige(st, "nopanic", "failed type assertion", in.Pos(), isT)
			return []Outcome{{st: st, ret: app("unboxT", sVal, a)}}
		}
	case *VISym:
		if in.CommaOk || true {
			// unknown dynamic type, known not to be one of the enumerated ones
			return fail(st)
		}
	}
	unsup("type assertion on %T at %s", v, x.pos(in.Pos()))
	return nil
}

// ---- calls

func (x *Exec) doCall(st *State, fr *Frame, in *ssa.Call) []Outcome {
	c := in.Common()
	var args []V
	for _, a := range c.Args {
		args = append(args, x.val(st, fr, a))
	}
	if c.IsInvoke() {
		recv := x.val(st, fr, c.Value)
		return x.invoke(st, recv, c.Method, args, in.Pos())
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(st, b.Name(), args, c, in.Pos())
	}
	return x.callV(st, x.val(st, fr, c.Value), args, in.Pos())
}

func (x *Exec) callV(st *State, f V, args []V, pos token.Pos) []Outcome {
	switch c := f.(type) {
	case *VClosure:
		return x.callKnown(st, c.fn, args, c.binds, pos)
	case *VFunc:
		return x.callSym(st, c, args, pos)
	case VNil:
		x.oblige(st, "nopanic", "call of a nil function", pos, mkFalse())
		return nil
	}
	unsup("call of %T at %s", f, x.pos(pos))
	return nil
}

func (x *Exec) invoke(st *State, recv V, m *types.Func, args []V, pos token.Pos) []Outcome {
	switch r := recv.(type) {
	case VNil:
		x.oblige(st, "nopanic", "method call on a nil interface", pos, mkFalse())
		return nil
	case *VIface:
		fn := x.w.prog.LookupMethod(r.typ, m.Pkg(), m.Name())
		if fn == nil {
			unsup("no method %s on %s", m.Name(), r.typ)
		}
		return x.callKnown(st, fn, append([]V{r.v}, args...), nil, pos)
	case *VISym:
		x.oblige(st, "nopanic", "method call on a nil interface", pos, r.nonnil)
		if st.isDead() {
			return nil
		}
		if g, ok := r.ghost[m.Name()]; ok && len(args) == 0 {
			if x.interfere && m.Name() == "Set" { // of a mutable set: another content each time
				k := "asked:" + r.id
				if st.ghost[k] != nil {
					rt := m.Type().(*types.Signature).Results().At(0).Type()
					g = x.freshResult(st, "again", rt)
					for _, l := range x.typeInvs(st, g, rt) {
						st.assume(l.t)
					}
				}
				st.ghost[k] = mkTrue()
			}
			return []Outcome{{st: st, ret: g}}
		}
		unsup("method %s of an unknown value", m.Name())
	case *VErr:
		x.oblige(st, "nopanic", "method call on a nil error", pos, r.nonnil)
		return []Outcome{{st: st, ret: fresh("errtext", sStr)}}
	}
	unsup("method call on %T at %s", recv, x.pos(pos))
	return nil
}

// callKnown calls a function by contract, by a model of an external function,
// or by executing its body.
func (x *Exec) callKnown(st *State, fn *ssa.Function, args []V, binds []V, pos token.Pos) []Outcome {
	if fn.Blocks == nil && fn.Origin() != nil {
		fn = fn.Origin()
	}
	if out, ok := x.intrinsic(st, fn, args, pos); ok {
		return out
	}
	if c := x.spec.contractFor(x, fn); c != nil && len(x.stack) > 0 {
		return x.callContract(st, c, fn, args, pos)
	}
	if fn.Blocks == nil || fn.Pkg == nil && fn.Synthetic == "" {
		unsup("external function %s at %s", fn, x.pos(pos))
	}
	if fn.Pkg != nil && !x.ours(fn.Pkg.Pkg) {
		unsup("external function %s at %s", fn, x.pos(pos))
	}
	x.inlined[fnKey(fn)] = true
	base := st.pc
	pre := st.clone()
	outs := x.callFn(st, fn, args, binds)
	if len(outs) > 1 {
		if m, ok := x.merge(pre, base, outs); ok {
			return []Outcome{m}
		}
	}
	return outs
}

func (x *Exec) ours(p *types.Package) bool {
	return strings.HasPrefix(p.Path(), modPath)
}

// reaches tells whether one of the objects can be reached from the value.
func (st *State) reaches(v V, objs, seen map[int]bool) bool {
	obj := func(id int) bool {
		if objs[id] {
			return true
		}
		if seen[id] || st.heap[id] == nil {
			return false
		}
		seen[id] = true
		return st.reaches(st.heap[id].v, objs, seen)
	}
	switch a := v.(type) {
	case *VPtr:
		return obj(a.obj)
	case *VSlice:
		return obj(a.obj)
	case *VAgg:
		for _, e := range a.e {
			if st.reaches(e, objs, seen) {
				return true
			}
		}
	case *VClosure:
		for _, e := range a.binds {
			if st.reaches(e, objs, seen) {
				return true
			}
		}
	case *VIface:
		return st.reaches(a.v, objs, seen)
	case *VISym:
		for _, e := range a.ghost {
			if st.reaches(e, objs, seen) {
				return true
			}
		}
	}
	return false
}

// merge joins the outcomes of a call that had no side effects.
func (x *Exec) merge(pre *State, base *pcList, outs []Outcome) (Outcome, bool) {
	type br struct {
		lits []*T
		ret  V
	}
	var brs []br
	st := outs[0].st.clone()
	var cover []*T
	schemas := append([]schema{}, pre.schemas...)
	clash := map[int]bool{}
	for _, o := range outs {
		if o.panic {
			return Outcome{}, false
		}
		for k, ob := range pre.heap {
			if o.st.heap[k] != ob {
				return Outcome{}, false
			}
		}
		if len(o.st.ghost) != len(st.ghost) {
			return Outcome{}, false
		}
		for k, g := range o.st.ghost {
			if st.ghost[k] != g {
				return Outcome{}, false
			}
		}
		for k, ob := range o.st.heap {
			if old, ok := st.heap[k]; ok && old != ob {
				// made by the callee and different on different paths
				clash[k] = true
			}
			st.heap[k] = ob
		}
		for _, n := range o.st.nodes {
			st.addNode(n)
		}
		d := o.st.delta(base)
		for i, j := 0, len(d)-1; i < j; i, j = i+1, j-1 {
			d[i], d[j] = d[j], d[i]
		}
		for _, sc := range o.st.schemas[len(pre.schemas):] {
			sc.f = imp(and(d...), sc.f)
			schemas = append(schemas, sc)
		}
		brs = append(brs, br{d, o.ret})
		cover = append(cover, and(d...))
	}
	if len(clash) > 0 {
		for _, o := range outs {
			if o.st.reaches(o.ret, clash, map[int]bool{}) {
				return Outcome{}, false
			}
		}
	}
	var tree func(bs []br, depth int) (V, bool)
	tree = func(bs []br, depth int) (V, bool) {
		if len(bs) == 1 {
			return bs[0].ret, true
		}
		for _, b := range bs {
			if len(b.lits) <= depth {
				return nil, false
			}
		}
		l := bs[0].lits[depth]
		var yes, no []br
		for _, b := range bs {
			switch b.lits[depth] {
			case l:
				yes = append(yes, b)
			case not(l):
				no = append(no, b)
			default:
				return nil, false
			}
		}
		y, ok := tree(yes, depth+1)
		if !ok {
			return nil, false
		}
		if len(no) == 0 {
			return y, true
		}
		n, ok := tree(no, depth+1)
		if !ok {
			return nil, false
		}
		return mergeV(l, y, n)
	}
	r, ok := tree(brs, 0)
	if !ok {
		// flat: the last alternative is the default
		r = brs[len(brs)-1].ret
		for i := len(brs) - 2; i >= 0; i-- {
			r, ok = mergeV(and(brs[i].lits...), brs[i].ret, r)
			if !ok {
				return Outcome{}, false
			}
		}
	}
	st.pc = base
	st.schemas = schemas
	st.dead = false
	st.trail = append([]string{}, pre.trail...)
	st.assume(or(cover...))
	return Outcome{st: st, ret: r}, true
}

// feasible asks a solver whether the path can be taken at all (unknown counts as yes).
func (x *Exec) feasible(st *State) bool {
	if st.isDead() {
		return false
	}
	return quickSat(st.pcTerms())
}

func (x *Exec) builtin(st *State, name string, args []V, c *ssa.CallCommon, pos token.Pos) []Outcome {
	one := func(v V) []Outcome { return []Outcome{{st: st, ret: v}} }
	switch name {
	case "len", "cap":
		switch a := args[0].(type) {
		case *VSlice:
			if name == "cap" {
				unsup("cap")
			}
			return one(bvi(int64(a.hi-a.lo), 64))
		case VNil:
			return one(bvi(0, 64))
		case *VSym:
			return one(a.len)
		case *T:
			if a.sort == sStr {
				return one(app("strlen", bv(64), a))
			}
		case *VAgg:
			return one(bvi(int64(len(a.e)), 64))
		case *VPtr:
			if arr, ok := x.selPath(st.heap[a.obj].v, a.path).(*VAgg); ok {
				return one(bvi(int64(len(arr.e)), 64))
			}
		}
	case "append":
		var el []V
		switch a := args[0].(type) {
		case *VSlice:
			el = append(el, st.heap[a.obj].v.(*VAgg).e[a.lo:a.hi]...)
		case VNil:
		default:
			unsup("append to %T", a)
		}
		switch a := args[1].(type) {
		case *VSlice:
			el = append(el, st.heap[a.obj].v.(*VAgg).e[a.lo:a.hi]...)
		case VNil:
		default:
			unsup("append of %T", a)
		}
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if len(el) == 0 {
			return one(args[0])
		}
		arr := types.NewArray(et, int64(len(el)))
		return one(&VSlice{x.newObj(st, arr, &VAgg{el}), 0, len(el)})
	case "copy":
		d, ok1 := args[0].(*VSlice)
		s, ok2 := args[1].(*VSlice)
		if ok1 && ok2 {
			n := d.hi - d.lo
			if s.hi-s.lo < n {
				n = s.hi - s.lo
			}
			src := st.heap[s.obj].v.(*VAgg)
			do := *st.heap[d.obj]
			dv := &VAgg{append([]V{}, do.v.(*VAgg).e...)}
			for i := 0; i < n; i++ {
				dv.e[d.lo+i] = src.e[s.lo+i]
			}
			do.v = dv
			st.heap[d.obj] = &do
			return one(bvi(int64(n), 64))
		}
	case "min", "max":
		r, ok := args[0].(*T)
		if ok && r.sort.isBV() {
			signed := isSigned(c.Args[0].Type())
			for _, a := range args[1:] {
				b := a.(*T)
				lt := bvcmp(cmpOp("lt", signed), b, r)
				if name == "max" {
					lt = bvcmp(cmpOp("lt", signed), r, b)
				}
				r = ite(lt, b, r)
			}
			return one(r)
		}
	case "ssa:wrapnilchk":
		return one(args[0])
	}
	unsup("builtin %s at %s", name, x.pos(pos))
	return nil
}

func (x *Exec) allFuncs() map[*ssa.Function]bool { return x.w.allFuncs() }

var debug = os.Getenv("GOVER_DEBUG") != ""

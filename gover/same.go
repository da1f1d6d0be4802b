package main

import (
	"go/ast"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// sameAs is a clause "same COND : ipv4.F(args)" or "same COND : x.M(args)": under the condition the function has
// the outcome of another function of this module, which is executed, too. The method of an interface value is the
// one of its dynamic type.
type sameAs struct {
	cond Clause
	call ast.Expr
	src  string
}

func (x *Exec) sameAs(st *State, e *Env, sa sameAs, rv []V, rts []types.Type) {
	pos := x.unit.fn.Pos()
	s2 := st.clone()
	s2.assume(e.bool(sa.cond.expr))
	if s2.isDead() || !x.feasible(s2) {
		return
	}
	e2 := *e
	e2.st = s2
	call, ok := sa.call.(*ast.CallExpr)
	if !ok {
		specFail("%s: not a call: %s", sa.cond.at, sa.src)
	}
	sel, ok := call.Fun.(*ast.SelectorExpr)
	if !ok {
		specFail("%s: not a call of another package: %s", sa.cond.at, sa.src)
	}
	var fn *ssa.Function
	var args []V
	if id, ok := sel.X.(*ast.Ident); ok && (id.Name == "ipv4" || id.Name == "ipv6") {
		if p := x.w.prog.ImportedPackage(modPath + id.Name); p != nil {
			fn = p.Func(sel.Sel.Name)
		}
	} else if i, ok := e2.eval(sel.X).v.(*VIface); ok {
		n, _ := i.typ.(*types.Named)
		if n != nil {
			fn = x.w.prog.LookupMethod(i.typ, n.Obj().Pkg(), sel.Sel.Name)
		}
		args = append(args, i.v)
	}
	if fn == nil {
		unsup("no function %s", sa.src)
	}
	for _, a := range call.Args {
		args = append(args, e2.eval(a).v)
	}
	if len(args) != len(fn.Params) {
		unsup("%s: %d arguments", sa.src, len(fn.Params))
	}
	for i, p := range fn.Params {
		if b, ok := args[i].(*VIface); ok && !types.IsInterface(p.Type()) {
			if !types.Identical(b.typ, p.Type()) {
				unsup("%s: argument of type %s", sa.src, b.typ)
			}
			args[i] = b.v
		}
	}
	frts := resultTypes(fn.Signature)
	for _, o := range x.callKnown(s2, fn, args, nil, pos) {
		if o.panic {
			x.oblige(o.st, "same", sa.src+" panics: "+o.why, pos, mkFalse())
			continue
		}
		fv := []V{o.ret}
		if len(frts) != 1 {
			fv = o.ret.(*VAgg).e
		}
		x.unit.returns++
		x.sameResults(o.st, sa, rv, rts, fv, frts)
	}
}

// sameResults compares result lists by type: errors with errors, truth values with truth values, and the value,
// which counts unless there is an error.
func (x *Exec) sameResults(st *State, sa sameAs, rv []V, rts []types.Type, fv []V, frts []types.Type) {
	pos := x.unit.fn.Pos()
	kind := func(t types.Type) string {
		if isError(t) {
			return "error"
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			return "bool"
		}
		return "value"
	}
	find := func(k string) (V, types.Type) {
		for i, t := range frts {
			if kind(t) == k {
				return fv[i], t
			}
		}
		return nil, nil
	}
	failed := mkFalse()
	if v, _ := find("error"); v != nil {
		failed = x.isErr(v)
	}
	for i, t := range rts {
		v, ft := find(kind(t))
		switch kind(t) {
		case "error":
			x.oblige(st, "same", "an error exactly if "+sa.src+" gives one", pos, eq(x.isErr(rv[i]), failed))
		case "bool":
			if v == nil {
				unsup("%s has no truth value", sa.src)
			}
			x.oblige(st, "same", "the same truth value as "+sa.src, pos, imp(not(failed), eq(rv[i].(*T), v.(*T))))
		default:
			got, ok := rv[i].(*VIface)
			same := mkFalse()
			if ok && types.Identical(got.typ, ft) {
				same = x.sameV(st, got.v, v, pos)
			}
			x.oblige(st, "same", "the same value as "+sa.src, pos, imp(not(failed), same))
		}
	}
}

func (x *Exec) isErr(v V) *T {
	switch a := v.(type) {
	case VNil:
		return mkFalse()
	case *VErr:
		return a.nonnil
	}
	unsup("error of kind %T", v)
	return nil
}

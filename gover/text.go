package main

// Text. A string is an uninterpreted value; strings that are put together from literals, decimal numbers
// and the colon notation of an address keep these parts as arguments of an application. What package net
// reads from such a text is an assumption about that package (its documented formats): the functions
// tip.* and tcidr.* stand for net.ParseIP and net.ParseCIDR.

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func litOf(t *T) (string, bool) {
	if t.op == "var" && strings.HasPrefix(t.name, "str:") {
		s, err := strconv.Unquote(t.name[4:])
		return s, err == nil
	}
	return "", false
}

func decText(t *T) *T {
	t = resize(t, 64, false)
	if t.isConst() {
		return strConst(strconv.FormatInt(int64(t.val.Uint64()), 10))
	}
	return app("text.dec", sStr, t)
}

// decSigned is the decimal form of a number of a given type.
func decOf(t *T, typ types.Type) *T { return decText(resize(t, 64, isSigned(typ))) }

func colonText(a *T) *T { return app("text.ip6", sStr, a) }

// catText joins strings.
func catText(ts ...*T) *T {
	var out []*T
	add := func(t *T) {
		if s, ok := litOf(t); ok {
			if s == "" {
				return
			}
			if len(out) > 0 {
				if p, ok := litOf(out[len(out)-1]); ok {
					out[len(out)-1] = strConst(p + s)
					return
				}
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		for _, p := range textParts(t) {
			add(p)
		}
	}
	switch len(out) {
	case 0:
		return strConst("")
	case 1:
		return out[0]
	}
	return app(fmt.Sprintf("text%d", len(out)), sStr, out...)
}

func isText(t *T) bool {
	return t.op == "app" && strings.HasPrefix(t.name, "text") && !strings.HasPrefix(t.name, "text.")
}

func textParts(t *T) []*T {
	if isText(t) {
		return t.args
	}
	return []*T{t}
}

func dottedText(a *T) *T {
	var p []*T
	for i, b := range bytesOf(a) {
		if i > 0 {
			p = append(p, strConst("."))
		}
		p = append(p, decText(b))
	}
	return catText(p...)
}

// addressText recognises the text of an address: its value in 16 byte form, under the condition cond.
func addressText(p []*T) (val, cond *T, colon, ok bool) {
	if len(p) == 1 && p[0].op == "app" && p[0].name == "text.ip6" {
		return p[0].args[0], mkTrue(), true, true
	}
	// split literals so that digits of constants are seen
	var parts []*T
	pre := ""
	for i, t := range p {
		s, lit := litOf(t)
		if lit && i == 0 && strings.HasPrefix(s, "::ffff:") {
			pre = "::ffff:"
			s = s[len(pre):]
		}
		if !lit {
			parts = append(parts, t)
			continue
		}
		for s != "" {
			if s[0] == '.' {
				parts = append(parts, strConst("."))
				s = s[1:]
				continue
			}
			k := 0
			for k < len(s) && '0' <= s[k] && s[k] <= '9' {
				k++
			}
			if k == 0 || k > 3 || k > 1 && s[0] == '0' {
				return
			}
			n, _ := strconv.Atoi(s[:k])
			parts = append(parts, app("text.dec", sStr, bvi(int64(n), 64)))
			s = s[k:]
		}
	}
	if len(parts) != 7 {
		return
	}
	val = concat(bvi(0, 80), bvi(0xffff, 16))
	cond = mkTrue()
	for i, t := range parts {
		if i%2 == 1 {
			if s, lit := litOf(t); !lit || s != "." {
				return
			}
			continue
		}
		if t.op != "app" || t.name != "text.dec" {
			return
		}
		n := t.args[0]
		cond = and(cond, bvcmp("bvule", n, bvi(255, 64)))
		val = concat(val, extract(7, 0, n))
	}
	return val, cond, pre != "", true
}

func tipOK(s *T) *T    { return app("tip.ok", sBool, s) }
func tipVal(s *T) *T   { return app("tip.val", bv(128), s) }
func tipColon(s *T) *T { return app("tip.colon", sBool, s) }
func tcidrOK(s *T) *T  { return app("tcidr.ok", sBool, s) }
func tcidrVal(s *T) *T { return app("tcidr.val", bv(128), s) }
func tcidrLen(s *T) *T { return app("tcidr.len", bv(64), s) }

func mappedAddr(v *T) *T { return eq(extract(127, 32, v), concat(bvi(0, 80), bvi(0xffff, 16))) }

// textAxioms says what package net reads from a text.
func (q *Query) textAxioms(t *T) {
	switch t.name {
	case "tip.val":
		s := t.args[0]
		q.assert(imp(and(tipOK(s), not(tipColon(s))), mappedAddr(t)))
		return
	case "tcidr.val":
		s := t.args[0]
		q.assert(imp(and(tcidrOK(s), not(tipColon(s))), mappedAddr(t)))
		return
	case "tcidr.len":
		s := t.args[0]
		q.assert(imp(tcidrOK(s), bvcmp("bvule", t, ite(tipColon(s), bvi(128, 64), bvi(32, 64)))))
		return
	}
	p := textParts(t)
	boolIs := func(b *T, v bool) *T {
		if v {
			return b
		}
		return not(b)
	}
	if v, c, colon, ok := addressText(p); ok {
		q.assert(imp(c, and(tipOK(t), eq(tipVal(t), v))))
		q.assert(boolIs(tipColon(t), colon))
	}
	for i, m := range p {
		s, ok := litOf(m)
		if !ok || !strings.HasSuffix(s, "/") || i != len(p)-2 || p[i+1].op != "app" || p[i+1].name != "text.dec" {
			continue
		}
		head := textParts(catText(append(append([]*T{}, p[:i]...), strConst(s[:len(s)-1]))...))
		n := p[i+1].args[0]
		if v, c, colon, ok := addressText(head); ok {
			w := int64(32)
			if colon {
				w = 128
			}
			q.assert(imp(c, and(eq(tcidrOK(t), bvcmp("bvule", n, bvi(w, 64))), eq(tcidrVal(t), v), eq(tcidrLen(t), n))))
			q.assert(boolIs(tipColon(t), colon))
		}
	}
}

// textIntrinsic models functions that make or read text.
func (x *Exec) textIntrinsic(st *State, name string, fn *ssa.Function, args []V, pos token.Pos) ([]Outcome, bool) {
	one := func(v V) ([]Outcome, bool) { return []Outcome{{st: st, ret: v}}, true }
	str := func(i int) *T {
		if i < len(args) {
			if t, ok := args[i].(*T); ok && t.sort == sStr {
				return t
			}
		}
		return nil
	}
	recv := ""
	if r := fn.Signature.Recv(); r != nil {
		recv = r.Type().String()
	}
	switch name {
	case "fmt.Sprintf":
		return x.sprintf(st, args, pos)
	case "fmt.Sprint", "fmt.Sprintln":
		return one(fresh("sprint", sStr))
	case "strconv.Itoa":
		return one(decText(args[0].(*T)))
	case "strconv.FormatInt", "strconv.FormatUint":
		if b, ok := args[1].(*T); ok && b.isConst() && b.val.Int64() == 10 {
			return one(decText(args[0].(*T)))
		}
		return one(fresh("number", sStr))
	case "strings.Contains", "strings.ContainsAny":
		if s := str(1); s != nil && str(0) != nil {
			if l, ok := litOf(s); ok && l == ":" {
				return one(tipColon(str(0)))
			}
			return one(app("contains:"+name, sBool, str(0), s))
		}
	case "strings.ContainsRune":
		if r, ok := args[1].(*T); ok && str(0) != nil {
			if r.isConst() && r.val.Int64() == ':' {
				return one(tipColon(str(0)))
			}
			return one(fresh("contains", sBool))
		}
	case "net.ParseIP":
		s := str(0)
		if s == nil {
			return nil, false
		}
		return x.fork(st, alt{tipOK(s), func(st *State) V { return x.newBytes(st, bytesOf(tipVal(s))) }},
			alt{not(tipOK(s)), func(*State) V { return VNil{} }})
	case "net.ParseCIDR":
		s := str(0)
		if s == nil {
			return nil, false
		}
		ipnet := deref(fn.Signature.Results().At(1).Type())
		ok := tcidrOK(s)
		mk := func(w int) func(st *State) V {
			return func(st *State) V {
				ones := bvc(maskBig(w), w)
				m := bvbin("bvshl", ones, bvbin("bvsub", bvi(int64(w), w), shiftCount(tcidrLen(s), w)))
				a := tcidrVal(s)
				if w == 32 {
					a = extract(31, 0, a)
				}
				net := &VAgg{[]V{x.newBytes(st, bytesOf(bvbin("bvand", a, m))), x.newBytes(st, bytesOf(m))}}
				p := &VPtr{obj: x.newObj(st, ipnet, net)}
				return &VAgg{[]V{x.newBytes(st, bytesOf(tcidrVal(s))), p, &VErr{mkFalse()}}}
			}
		}
		return x.fork(st,
			alt{and(ok, not(tipColon(s))), func(st *State) V {
				st.assume(mappedAddr(tcidrVal(s)))
				st.assume(bvcmp("bvule", tcidrLen(s), bvi(32, 64)))
				return mk(32)(st)
			}},
			alt{and(ok, tipColon(s)), func(st *State) V {
				st.assume(bvcmp("bvule", tcidrLen(s), bvi(128, 64)))
				return mk(128)(st)
			}},
			alt{not(ok), func(*State) V { return &VAgg{[]V{VNil{}, VNil{}, &VErr{mkTrue()}}} }})
	case "net.String":
		if strings.HasSuffix(recv, "net.IP") {
			b, ok := x.byteSlice(st, args[0])
			if ok && b.fixed && len(b.elems) == 4 {
				return one(dottedText(bigEndian(b.elems)))
			}
			if ok && b.fixed && len(b.elems) == 16 {
				v := bigEndian(b.elems)
				m := mappedAddr(v)
				return x.fork(st, alt{m, func(*State) V { return dottedText(extract(31, 0, v)) }},
					alt{not(m), func(*State) V { return colonText(v) }})
			}
		}
		return one(fresh("nettext", sStr))
	}
	return nil, false
}

// sprintf models fmt.Sprintf: literals, %d, %s, %v and %q; anything else is some text.
func (x *Exec) sprintf(st *State, args []V, pos token.Pos) ([]Outcome, bool) {
	some := []Outcome{{st: st, ret: fresh("sprintf", sStr)}}
	if len(args) != 2 {
		return some, true
	}
	ft, ok := args[0].(*T)
	if !ok {
		return some, true
	}
	format, ok := litOf(ft)
	if !ok {
		return some, true
	}
	var vals []V
	switch a := args[1].(type) {
	case *VSlice:
		arr, ok := st.heap[a.obj].v.(*VAgg)
		if !ok {
			return some, true
		}
		vals = arr.e[a.lo:a.hi]
	case VNil:
	default:
		return some, true
	}
	var rec func(st *State, f string, vals []V, parts []*T) []Outcome
	rec = func(st *State, f string, vals []V, parts []*T) []Outcome {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			if len(vals) > 0 {
				parts = append(parts, fresh("extra", sStr))
			}
			return []Outcome{{st: st, ret: catText(append(parts, strConst(f))...)}}
		}
		parts = append(append([]*T{}, parts...), strConst(f[:i]))
		if i+1 < len(f) && f[i+1] == '%' {
			return rec(st, f[i+2:], vals, append(parts, strConst("%")))
		}
		if i+1 >= len(f) || len(vals) == 0 || !strings.Contains("dsv", f[i+1:i+2]) {
			// some other verb: the rest is some text
			return []Outcome{{st: st, ret: catText(append(parts, fresh("sprintf", sStr))...)}}
		}
		verb, rest := f[i+1], f[i+2:]
		next := func(st *State, t *T) []Outcome { return rec(st, rest, vals[1:], append(parts, t)) }
		v := vals[0]
		b, ok := v.(*VIface)
		if !ok {
			return next(st, fresh("arg", sStr))
		}
		if verb != 'd' {
			if m := types.NewMethodSet(b.typ).Lookup(nil, "String"); m != nil {
				if f, ok := m.Obj().(*types.Func); ok && f.Pkg() != nil && (x.ours(f.Pkg()) || f.Pkg().Path() == "net") {
					var outs []Outcome
					for _, o := range x.invoke(st, b, f, nil, pos) {
						if t, ok := o.ret.(*T); ok && t.sort == sStr {
							outs = append(outs, next(o.st, t)...)
						} else {
							outs = append(outs, next(o.st, fresh("arg", sStr))...)
						}
					}
					return outs
				}
			}
		}
		if t, ok := b.v.(*T); ok {
			if t.sort == sStr && verb != 'd' {
				return next(st, t)
			}
			if bt, isb := b.typ.Underlying().(*types.Basic); isb && bt.Info()&types.IsInteger != 0 && verb != 's' {
				return next(st, decOf(t, b.typ))
			}
		}
		return next(st, fresh("arg", sStr))
	}
	return rec(st, format, vals, nil), true
}

type alt struct {
	c *T
	f func(st *State) V
}

// fork continues with each alternative that is possible.
func (x *Exec) fork(st *State, alts ...alt) ([]Outcome, bool) {
	var outs []Outcome
	for _, a := range alts {
		s := st.clone()
		s.assume(a.c)
		if a.c.isFalse() || !x.feasible(s) {
			continue
		}
		outs = append(outs, Outcome{st: s, ret: a.f(s)})
	}
	return outs, true
}

package main

// Hash-consed first-order terms over Bool, bit vectors, Int and uninterpreted
// sorts, with a small simplifier and an SMT-LIB 2 printer.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sort is an SMT sort. BV sorts have W > 0.
type Sort struct {
	Name string // "Bool", "Int", "Node", ...; "" for bit vectors
	W    int
}

var (
	sBool = Sort{Name: "Bool"}
	sInt  = Sort{Name: "Int"}
	sNode = Sort{Name: "Node"}
	sVal  = Sort{Name: "Val"}
	sCls  = Sort{Name: "Cls"}
	sStr  = Sort{Name: "Str"}
	sWld  = Sort{Name: "World"}
)

func bv(w int) Sort       { return Sort{W: w} }
func (s Sort) isBV() bool { return s.W > 0 }
func (s Sort) String() string {
	if s.W > 0 {
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	}
	return s.Name
}

// T is a hash-consed term.
type T struct {
	op   string // "const" literal, "var" constant symbol, "app" UF, otherwise SMT operator
	name string // symbol for var/app
	i, j int    // indices of extract/zero_extend/sign_extend
	val  *big.Int
	args []*T
	sort Sort
	id   int
}

type termKey struct {
	op, name, val string
	i, j          int
	args          string
	sort          Sort
}

type funDecl struct {
	name string
	args []Sort
	ret  Sort
}

// Terms is a term store. Not safe for concurrent mutation.
var (
	terms    = map[termKey]*T{}
	termSeq  int
	funDecls = map[string]*funDecl{}
	freshSeq = map[string]int{}
)

func resetTerms() {
	terms = map[termKey]*T{}
	funDecls = map[string]*funDecl{}
	freshSeq = map[string]int{}
}

func mk(op, name string, i, j int, val *big.Int, s Sort, args ...*T) *T {
	k := termKey{op: op, name: name, i: i, j: j, sort: s}
	if val != nil {
		k.val = val.Text(16)
	}
	if len(args) > 0 {
		var b strings.Builder
		for _, a := range args {
			b.WriteString(strconv.Itoa(a.id))
			b.WriteByte(',')
		}
		k.args = b.String()
	}
	if t, ok := terms[k]; ok {
		return t
	}
	termSeq++
	t := &T{op: op, name: name, i: i, j: j, val: val, args: args, sort: s, id: termSeq}
	terms[k] = t
	return t
}

// ---- leaves

func mkVar(name string, s Sort) *T { return mk("var", name, 0, 0, nil, s) }

func fresh(prefix string, s Sort) *T {
	freshSeq[prefix]++
	return mkVar(fmt.Sprintf("%s!%d", prefix, freshSeq[prefix]), s)
}

var (
	bigOne = big.NewInt(1)
)

func maskBig(w int) *big.Int {
	m := new(big.Int).Lsh(bigOne, uint(w))
	return m.Sub(m, bigOne)
}

func bvc(v *big.Int, w int) *T {
	m := new(big.Int).And(v, maskBig(w)) // two's complement for negatives
	return mk("const", "", 0, 0, m, bv(w))
}
func bvi(v int64, w int) *T { return bvc(big.NewInt(v), w) }
func intc(v int64) *T       { return mk("const", "", 0, 0, big.NewInt(v), sInt) }
func mkTrue() *T            { return mk("const", "true", 0, 0, nil, sBool) }
func mkFalse() *T           { return mk("const", "false", 0, 0, nil, sBool) }
func mkBool(b bool) *T {
	if b {
		return mkTrue()
	}
	return mkFalse()
}
func nilNode() *T { return mkVar("nil", sNode) }

func (t *T) isConst() bool { return t.op == "const" }
func (t *T) isTrue() bool  { return t.op == "const" && t.name == "true" }
func (t *T) isFalse() bool { return t.op == "const" && t.name == "false" }

// signed value of a bit vector constant
func (t *T) sval() *big.Int {
	v := new(big.Int).Set(t.val)
	if t.sort.W > 0 && v.Bit(t.sort.W-1) == 1 {
		v.Sub(v, new(big.Int).Lsh(bigOne, uint(t.sort.W)))
	}
	return v
}

// ---- uninterpreted functions

func declFun(name string, args []Sort, ret Sort) {
	if d, ok := funDecls[name]; ok {
		if len(d.args) != len(args) || d.ret != ret {
			panic("redeclared function " + name)
		}
		for i := range args {
			if d.args[i] != args[i] {
				panic("redeclared function " + name)
			}
		}
		return
	}
	funDecls[name] = &funDecl{name, args, ret}
}

func app(name string, ret Sort, args ...*T) *T {
	var as []Sort
	for _, a := range args {
		as = append(as, a.sort)
	}
	declFun(name, as, ret)
	return mk("app", name, 0, 0, nil, ret, args...)
}

// ---- boolean structure

func not(a *T) *T {
	switch {
	case a.isTrue():
		return mkFalse()
	case a.isFalse():
		return mkTrue()
	case a.op == "not":
		return a.args[0]
	}
	return mk("not", "", 0, 0, nil, sBool, a)
}

func and(as ...*T) *T {
	var out []*T
	seen := map[*T]bool{}
	var add func(t *T) bool
	add = func(t *T) bool {
		switch {
		case t.isTrue():
			return true
		case t.isFalse():
			return false
		case t.op == "and":
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		case seen[t]:
			return true
		case seen[not(t)]:
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return mkFalse()
		}
	}
	switch len(out) {
	case 0:
		return mkTrue()
	case 1:
		return out[0]
	}
	return mk("and", "", 0, 0, nil, sBool, out...)
}

func or(as ...*T) *T {
	var out []*T
	seen := map[*T]bool{}
	var add func(t *T) bool
	add = func(t *T) bool {
		switch {
		case t.isFalse():
			return true
		case t.isTrue():
			return false
		case t.op == "or":
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		case seen[t]:
			return true
		case seen[not(t)]:
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return mkTrue()
		}
	}
	switch len(out) {
	case 0:
		return mkFalse()
	case 1:
		return out[0]
	}
	return mk("or", "", 0, 0, nil, sBool, out...)
}

func imp(a, b *T) *T { return or(not(a), b) }

func ite(c, a, b *T) *T {
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %v %v", a.sort, b.sort))
	}
	switch {
	case c.isTrue():
		return a
	case c.isFalse():
		return b
	case a == b:
		return a
	case c.op == "not":
		return ite(c.args[0], b, a)
	}
	if a.sort == sBool {
		switch {
		case a.isTrue():
			return or(c, b)
		case a.isFalse():
			return and(not(c), b)
		case b.isTrue():
			return or(not(c), a)
		case b.isFalse():
			return and(c, a)
		}
	}
	if a.op == "ite" && a.args[0] == c {
		return ite(c, a.args[1], b)
	}
	if b.op == "ite" && b.args[0] == c {
		return ite(c, a, b.args[2])
	}
	if b.op == "ite" && b.args[1] == a {
		return ite(or(c, b.args[0]), a, b.args[2])
	}
	return mk("ite", "", 0, 0, nil, a.sort, c, a, b)
}

func constLeaves(t *T, depth int) bool {
	if t.isConst() {
		return true
	}
	return t.op == "ite" && depth > 0 && constLeaves(t.args[1], depth-1) && constLeaves(t.args[2], depth-1)
}

func eq(a, b *T) *T {
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %v %v: %s = %s", a.sort, b.sort, a, b))
	}
	if a == b {
		return mkTrue()
	}
	if a.isConst() && b.isConst() {
		return mkFalse() // distinct hash-consed literals
	}
	if a.sort == sBool {
		switch {
		case a.isTrue():
			return b
		case b.isTrue():
			return a
		case a.isFalse():
			return not(b)
		case b.isFalse():
			return not(a)
		case not(a) == b:
			return mkFalse()
		}
	}
	if b.isConst() && a.op == "ite" && constLeaves(a, 6) {
		return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
	}
	if a.isConst() && b.op == "ite" && constLeaves(b, 6) {
		return ite(b.args[0], eq(b.args[1], a), eq(b.args[2], a))
	}
	// zero extension against a literal
	if a.op == "zero_extend" && b.isConst() {
		x := a.args[0]
		if b.val.BitLen() > x.sort.W {
			return mkFalse()
		}
		return eq(x, bvc(b.val, x.sort.W))
	}
	if b.op == "zero_extend" && a.isConst() {
		return eq(b, a)
	}
	if a.op == "zero_extend" && b.op == "zero_extend" && a.args[0].sort == b.args[0].sort {
		return eq(a.args[0], b.args[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", 0, 0, nil, sBool, a, b)
}

func neq(a, b *T) *T { return not(eq(a, b)) }

// ---- bit vectors

func both(a, b *T) bool { return a.isConst() && b.isConst() }

func checkBV(op string, a, b *T) {
	if !a.sort.isBV() || a.sort != b.sort {
		panic(fmt.Sprintf("%s sorts %v %v: %s , %s", op, a.sort, b.sort, a, b))
	}
}

func isZero(t *T) bool { return t.isConst() && t.val != nil && t.val.Sign() == 0 }
func isOnes(t *T) bool {
	return t.isConst() && t.sort.isBV() && t.val.Cmp(maskBig(t.sort.W)) == 0
}

func bvbin(op string, a, b *T) *T {
	checkBV(op, a, b)
	w := a.sort.W
	if both(a, b) {
		r := new(big.Int)
		switch op {
		case "bvand":
			return bvc(r.And(a.val, b.val), w)
		case "bvor":
			return bvc(r.Or(a.val, b.val), w)
		case "bvxor":
			return bvc(r.Xor(a.val, b.val), w)
		case "bvadd":
			return bvc(r.Add(a.val, b.val), w)
		case "bvsub":
			return bvc(r.Sub(a.val, b.val), w)
		case "bvmul":
			return bvc(r.Mul(a.val, b.val), w)
		case "bvshl":
			if b.val.Cmp(big.NewInt(int64(w))) >= 0 {
				return bvi(0, w)
			}
			return bvc(r.Lsh(a.val, uint(b.val.Int64())), w)
		case "bvlshr":
			if b.val.Cmp(big.NewInt(int64(w))) >= 0 {
				return bvi(0, w)
			}
			return bvc(r.Rsh(a.val, uint(b.val.Int64())), w)
		case "bvashr":
			n := uint(w)
			if b.val.Cmp(big.NewInt(int64(w))) < 0 {
				n = uint(b.val.Int64())
			}
			return bvc(r.Rsh(a.sval(), n), w)
		case "bvudiv":
			if b.val.Sign() != 0 {
				return bvc(r.Div(a.val, b.val), w)
			}
		case "bvurem":
			if b.val.Sign() != 0 {
				return bvc(r.Mod(a.val, b.val), w)
			}
		case "bvsdiv":
			if b.val.Sign() != 0 {
				return bvc(r.Quo(a.sval(), b.sval()), w)
			}
		case "bvsrem":
			if b.val.Sign() != 0 {
				return bvc(r.Rem(a.sval(), b.sval()), w)
			}
		}
	}
	switch op {
	case "bvand":
		if isZero(a) || isZero(b) {
			return bvi(0, w)
		}
		if isOnes(a) || a == b {
			return b
		}
		if isOnes(b) {
			return a
		}
	case "bvor":
		if isZero(a) || a == b {
			return b
		}
		if isZero(b) {
			return a
		}
		if isOnes(a) || isOnes(b) {
			return bvc(maskBig(w), w)
		}
	case "bvxor":
		if a == b {
			return bvi(0, w)
		}
		if isZero(a) {
			return b
		}
		if isZero(b) {
			return a
		}
		if isOnes(a) {
			return bvnot(b)
		}
		if isOnes(b) {
			return bvnot(a)
		}
	case "bvadd":
		if isZero(a) {
			return b
		}
		if isZero(b) {
			return a
		}
	case "bvsub":
		if isZero(b) {
			return a
		}
		if a == b {
			return bvi(0, w)
		}
	case "bvshl", "bvlshr", "bvashr":
		if isZero(b) || isZero(a) {
			return a
		}
	}
	switch op {
	case "bvand", "bvor", "bvxor", "bvadd", "bvmul":
		if a.id > b.id {
			a, b = b, a
		}
	}
	// push concatenations through bitwise operators, so that word-wise code and wide specs meet
	return mk(op, "", 0, 0, nil, a.sort, a, b)
}

func bvnot(a *T) *T {
	if a.isConst() {
		return bvc(new(big.Int).Xor(a.val, maskBig(a.sort.W)), a.sort.W)
	}
	if a.op == "bvnot" {
		return a.args[0]
	}
	return mk("bvnot", "", 0, 0, nil, a.sort, a)
}

func bvneg(a *T) *T {
	if a.isConst() {
		return bvc(new(big.Int).Neg(a.val), a.sort.W)
	}
	return mk("bvneg", "", 0, 0, nil, a.sort, a)
}

func extract(hi, lo int, a *T) *T {
	w := a.sort.W
	if lo == 0 && hi == w-1 {
		return a
	}
	if a.isConst() {
		return bvc(new(big.Int).Rsh(a.val, uint(lo)), hi-lo+1)
	}
	switch a.op {
	case "concat":
		lw := a.args[1].sort.W
		if hi < lw {
			return extract(hi, lo, a.args[1])
		}
		if lo >= lw {
			return extract(hi-lw, lo-lw, a.args[0])
		}
	case "extract":
		return extract(hi+a.j, lo+a.j, a.args[0])
	case "zero_extend":
		iw := a.args[0].sort.W
		if hi < iw {
			return extract(hi, lo, a.args[0])
		}
		if lo >= iw {
			return bvi(0, hi-lo+1)
		}
	case "ite":
		if a.args[1].isConst() || a.args[2].isConst() || a.args[1].op == "concat" || a.args[2].op == "concat" {
			return ite(a.args[0], extract(hi, lo, a.args[1]), extract(hi, lo, a.args[2]))
		}
	case "bvand", "bvor", "bvxor":
		if a.args[0].op == "concat" || a.args[1].op == "concat" || a.args[0].isConst() || a.args[1].isConst() {
			return bvbin(a.op, extract(hi, lo, a.args[0]), extract(hi, lo, a.args[1]))
		}
	case "bvnot":
		if a.args[0].op == "concat" {
			return bvnot(extract(hi, lo, a.args[0]))
		}
	}
	return mk("extract", "", hi, lo, nil, bv(hi-lo+1), a)
}

func concat(a, b *T) *T {
	w := a.sort.W + b.sort.W
	if both(a, b) {
		return bvc(new(big.Int).Or(new(big.Int).Lsh(a.val, uint(b.sort.W)), b.val), w)
	}
	if a.op == "extract" && b.op == "extract" && a.args[0] == b.args[0] && a.j == b.i+1 {
		return extract(a.i, b.j, a.args[0])
	}
	// bitwise operators and ite distribute over concatenation
	if a.op == b.op {
		switch a.op {
		case "bvand", "bvor", "bvxor":
			for _, sw := range []bool{false, true} {
				b0, b1 := b.args[0], b.args[1]
				if sw {
					b0, b1 = b1, b0
				}
				l, r := joinable(a.args[0], b0), joinable(a.args[1], b1)
				if l && r {
					return bvbin(a.op, concat(a.args[0], b0), concat(a.args[1], b1))
				}
			}
		case "bvnot":
			if joinable(a.args[0], b.args[0]) {
				return bvnot(concat(a.args[0], b.args[0]))
			}
		case "ite":
			if a.args[0] == b.args[0] {
				return ite(a.args[0], concat(a.args[1], b.args[1]), concat(a.args[2], b.args[2]))
			}
		}
	}
	if isZero(a) {
		return zext(b, a.sort.W)
	}
	return mk("concat", "", 0, 0, nil, bv(w), a, b)
}

// joinable tells whether concat(a, b) becomes something simpler than a concat.
func joinable(a, b *T) bool {
	if both(a, b) {
		return true
	}
	if a.op == "extract" && b.op == "extract" && a.args[0] == b.args[0] && a.j == b.i+1 {
		return true
	}
	if a.op == b.op {
		switch a.op {
		case "bvand", "bvor", "bvxor":
			return joinable(a.args[0], b.args[0]) && joinable(a.args[1], b.args[1]) ||
				joinable(a.args[0], b.args[1]) && joinable(a.args[1], b.args[0])
		case "bvnot":
			return joinable(a.args[0], b.args[0])
		case "ite":
			return a.args[0] == b.args[0] && joinable(a.args[1], b.args[1]) && joinable(a.args[2], b.args[2])
		}
	}
	return false
}

func zext(a *T, n int) *T {
	if n == 0 {
		return a
	}
	if a.isConst() {
		return bvc(a.val, a.sort.W+n)
	}
	if a.op == "zero_extend" {
		return zext(a.args[0], n+a.i)
	}
	if a.op == "ite" && constLeaves(a, 6) {
		return ite(a.args[0], zext(a.args[1], n), zext(a.args[2], n))
	}
	return mk("zero_extend", "", n, 0, nil, bv(a.sort.W+n), a)
}

func sext(a *T, n int) *T {
	if n == 0 {
		return a
	}
	if a.isConst() {
		return bvc(a.sval(), a.sort.W+n)
	}
	if a.op == "zero_extend" {
		return zext(a, n)
	}
	if a.op == "ite" && constLeaves(a, 6) {
		return ite(a.args[0], sext(a.args[1], n), sext(a.args[2], n))
	}
	return mk("sign_extend", "", n, 0, nil, bv(a.sort.W+n), a)
}

// resize converts between widths; signed tells how to widen.
func resize(a *T, w int, signed bool) *T {
	switch {
	case a.sort.W == w:
		return a
	case a.sort.W > w:
		return extract(w-1, 0, a)
	case signed:
		return sext(a, w-a.sort.W)
	default:
		return zext(a, w-a.sort.W)
	}
}

func bvcmp(op string, a, b *T) *T { // bvult, bvule, bvslt, bvsle
	checkBV(op, a, b)
	if both(a, b) {
		var c int
		if op == "bvult" || op == "bvule" {
			c = a.val.Cmp(b.val)
		} else {
			c = a.sval().Cmp(b.sval())
		}
		if op == "bvult" || op == "bvslt" {
			return mkBool(c < 0)
		}
		return mkBool(c <= 0)
	}
	if a == b {
		return mkBool(op == "bvule" || op == "bvsle")
	}
	switch op {
	case "bvult":
		if isZero(b) {
			return mkFalse()
		}
		if isOnes(a) {
			return mkFalse()
		}
	case "bvule":
		if isZero(a) || isOnes(b) {
			return mkTrue()
		}
	}
	if a.isConst() && b.op == "ite" && constLeaves(b, 6) {
		return ite(b.args[0], bvcmp(op, a, b.args[1]), bvcmp(op, a, b.args[2]))
	}
	if b.isConst() && a.op == "ite" && constLeaves(a, 6) {
		return ite(a.args[0], bvcmp(op, a.args[1], b), bvcmp(op, a.args[2], b))
	}
	// comparisons of zero extended terms become unsigned comparisons of the originals
	za, zb := a.op == "zero_extend", b.op == "zero_extend"
	if za || zb {
		uop := "bvult"
		if op == "bvule" || op == "bvsle" {
			uop = "bvule"
		}
		if za && zb && a.args[0].sort == b.args[0].sort {
			return bvcmp(uop, a.args[0], b.args[0])
		}
		if za && b.isConst() {
			x := a.args[0]
			v := b.val
			if op == "bvslt" || op == "bvsle" {
				v = b.sval()
			}
			if v.Sign() < 0 {
				return mkFalse()
			}
			if v.BitLen() > x.sort.W {
				return mkTrue()
			}
			return bvcmp(uop, x, bvc(v, x.sort.W))
		}
		if zb && a.isConst() {
			x := b.args[0]
			v := a.val
			if op == "bvslt" || op == "bvsle" {
				v = a.sval()
			}
			if v.Sign() < 0 {
				return mkTrue()
			}
			if v.BitLen() > x.sort.W {
				return mkFalse()
			}
			return bvcmp(uop, bvc(v, x.sort.W), x)
		}
	}
	return mk(op, "", 0, 0, nil, sBool, a, b)
}

// integers

func intbin(op string, a, b *T) *T { // + - *
	if both(a, b) {
		r := new(big.Int)
		switch op {
		case "+":
			r.Add(a.val, b.val)
		case "-":
			r.Sub(a.val, b.val)
		case "*":
			r.Mul(a.val, b.val)
		}
		return mk("const", "", 0, 0, r, sInt)
	}
	if op != "*" && isZero(b) {
		return a
	}
	if op == "+" && isZero(a) {
		return b
	}
	return mk(op, "", 0, 0, nil, sInt, a, b)
}

func intcmp(op string, a, b *T) *T { // < <=
	if both(a, b) {
		c := a.val.Cmp(b.val)
		return mkBool(c < 0 || op == "<=" && c == 0)
	}
	return mk(op, "", 0, 0, nil, sBool, a, b)
}

// ---- substitution

// subst replaces terms by terms, rebuilding (and so simplifying) upwards.
func subst(t *T, m map[*T]*T, memo map[*T]*T) *T {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*T, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = subst(a, m, memo)
		if args[i] != a {
			same = false
		}
	}
	r := t
	if !same {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *T, args []*T) *T {
	switch t.op {
	case "app":
		if strings.HasPrefix(t.name, "toint") {
			return bv2int(args[0])
		}
		return mk("app", t.name, 0, 0, nil, t.sort, args...)
	case "not":
		return not(args[0])
	case "and":
		return and(args...)
	case "or":
		return or(args...)
	case "ite":
		return ite(args[0], args[1], args[2])
	case "=":
		return eq(args[0], args[1])
	case "bvnot":
		return bvnot(args[0])
	case "bvneg":
		return bvneg(args[0])
	case "extract":
		return extract(t.i, t.j, args[0])
	case "concat":
		return concat(args[0], args[1])
	case "zero_extend":
		return zext(args[0], t.i)
	case "sign_extend":
		return sext(args[0], t.i)
	case "bvult", "bvule", "bvslt", "bvsle":
		return bvcmp(t.op, args[0], args[1])
	case "<", "<=":
		return intcmp(t.op, args[0], args[1])
	case "+", "-", "*":
		return intbin(t.op, args[0], args[1])
	}
	if strings.HasPrefix(t.op, "bv") && len(args) == 2 {
		return bvbin(t.op, args[0], args[1])
	}
	panic("rebuild " + t.op)
}

// ---- printing

func (t *T) String() string {
	var b strings.Builder
	n := 0
	var rec func(t *T)
	rec = func(t *T) {
		n++
		if n > 400 {
			b.WriteString("...")
			return
		}
		if len(t.args) == 0 {
			b.WriteString(t.leaf())
			return
		}
		b.WriteString("(" + t.head())
		for _, a := range t.args {
			b.WriteByte(' ')
			rec(a)
		}
		b.WriteByte(')')
	}
	rec(t)
	return b.String()
}

func symb(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_!.$%&*+-/<=>?@^~", c)) {
			return "|" + s + "|"
		}
	}
	return s
}

func (t *T) leaf() string {
	if t.op == "var" {
		return symb(t.name)
	}
	if t.op == "app" {
		return symb(t.name)
	}
	switch {
	case t.sort == sBool:
		return t.name
	case t.sort == sInt:
		if t.val.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.val).String() + ")"
		}
		return t.val.String()
	}
	if t.sort.W%4 == 0 {
		return fmt.Sprintf("#x%0*s", t.sort.W/4, t.val.Text(16))
	}
	return fmt.Sprintf("#b%0*s", t.sort.W, t.val.Text(2))
}

func (t *T) head() string {
	switch t.op {
	case "app":
		return symb(t.name)
	case "extract":
		return fmt.Sprintf("(_ extract %d %d)", t.i, t.j)
	case "zero_extend", "sign_extend":
		return fmt.Sprintf("(_ %s %d)", t.op, t.i)
	}
	return t.op
}

// visit walks the DAG bottom up, once per node.
func visit(ts []*T, f func(*T)) {
	seen := map[*T]bool{}
	var rec func(t *T)
	rec = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		f(t)
	}
	for _, t := range ts {
		rec(t)
	}
}

// smtScript renders assertions as an SMT-LIB script (without check-sat).
func smtScript(asserts []*T, models []*T) string {
	var b strings.Builder
	sorts := map[string]bool{}
	vars := map[string]Sort{}
	funs := map[string]bool{}
	refs := map[*T]int{}
	var order []*T
	visit(append(append([]*T{}, asserts...), models...), func(t *T) {
		order = append(order, t)
		if t.sort.W == 0 && t.sort != sBool && t.sort != sInt {
			sorts[t.sort.Name] = true
		}
		switch t.op {
		case "var":
			vars[t.name] = t.sort
		case "app":
			funs[t.name] = true
			for _, s := range funDecls[t.name].args {
				if s.W == 0 && s != sBool && s != sInt {
					sorts[s.Name] = true
				}
			}
		}
		for _, a := range t.args {
			refs[a]++
		}
	})
	for _, s := range sortedKeys(sorts) {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	for _, v := range sortedKeysS(vars) {
		fmt.Fprintf(&b, "(declare-fun %s () %s)\n", symb(v), vars[v])
	}
	for _, f := range sortedKeys(funs) {
		d := funDecls[f]
		var as []string
		for _, s := range d.args {
			as = append(as, s.String())
		}
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", symb(f), strings.Join(as, " "), d.ret)
	}
	names := map[*T]string{}
	var expr func(t *T) string
	expr = func(t *T) string {
		if n, ok := names[t]; ok {
			return n
		}
		if len(t.args) == 0 {
			return t.leaf()
		}
		var sb strings.Builder
		sb.WriteString("(" + t.head())
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(expr(a))
		}
		sb.WriteByte(')')
		return sb.String()
	}
	k := 0
	for _, t := range order {
		if len(t.args) > 0 && refs[t] > 1 {
			k++
			n := fmt.Sprintf("?s%d", k)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.sort, expr(t))
			names[t] = n
		}
	}
	for _, a := range asserts {
		fmt.Fprintf(&b, "(assert %s)\n", expr(a))
	}
	return b.String()
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
func sortedKeysS(m map[string]Sort) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

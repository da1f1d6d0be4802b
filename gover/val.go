package main

// Symbolic values and program states.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is a symbolic value: *T for scalars (bool, integers, strings, frozen node
// references, boxed data), or one of the types below.
type V interface{}

// VAgg is a struct, array or tuple value.
type VAgg struct{ e []V }

// VPtr points to (a part of) an object of the symbolic heap.
type VPtr struct {
	obj  int
	path []pe
}

// VNAddr is an address inside a frozen (shared, immutable) trie node.
type VNAddr struct {
	n    *T
	path []pe
}

// pe is one step of an access path: a constant or symbolic index.
type pe struct {
	i   int
	sym *T
}

// VNil is a nil pointer, slice, func or interface.
type VNil struct{}

// VSlice is a slice of a heap array with known bounds.
type VSlice struct{ obj, lo, hi int }

// VSym is a byte slice of unknown length and content (a parameter).
type VSym struct {
	name       string
	len, isnil *T
	elems      []*T
	off        int
}

// VClosure is a known function value.
type VClosure struct {
	fn    *ssa.Function
	binds []V
}

// VFunc is an unknown function value (a parameter).
type VFunc struct {
	id    string
	isnil *T
	role  string
	sig   *types.Signature
}

// VErr is a value of type error, reduced to whether it is nil.
type VErr struct{ nonnil *T }

// VIface is an interface value with a known dynamic type.
type VIface struct {
	typ types.Type
	v   V
}

// VISym is an unknown interface value (a parameter).
type VISym struct {
	id     string
	nonnil *T
	ghost  map[string]V
}

// VFloat is a float64 of one of few known forms.
type VFloat struct {
	form string // "const", "uint" (conversion of t), "pow2" (2 to the power of uint t)
	c    float64
	t    *T
}

// VOpaque is a value that nothing may depend on.
type VOpaque struct{ why string }

// unsupported aborts the verification of a unit: the code is outside the subset.
type unsupported struct{ msg string }

func unsup(format string, args ...interface{}) {
	panic(unsupported{fmt.Sprintf(format, args...)})
}

// Obj is an object of the symbolic heap. Objs are immutable, writes replace them.
type Obj struct {
	typ    types.Type
	v      V
	frozen *T   // for nodes that have been handed out: the node term
	cell   bool // may be shared between handles
	param  bool
}

type pcList struct {
	t    *T
	prev *pcList
	n    int
}

// State is a symbolic program state.
type State struct {
	pc      *pcList
	heap    map[int]*Obj
	ghost   map[string]*T
	nodes   []*T // nodes whose definitions are needed
	trail   []string
	schemas []schema // facts for all values of their ghost variables
	dead    bool
}

func newState() *State {
	return &State{heap: map[int]*Obj{}, ghost: map[string]*T{}}
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, heap: make(map[int]*Obj, len(s.heap)+4), ghost: make(map[string]*T, len(s.ghost))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.nodes = append([]*T{}, s.nodes...)
	n.trail = append([]string{}, s.trail...)
	n.schemas = append([]schema{}, s.schemas...)
	n.dead = s.dead
	return n
}

func (s *State) assume(t *T) {
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	if t.isTrue() {
		return
	}
	if t.isFalse() {
		s.dead = true
	}
	n := 1
	if s.pc != nil {
		n = s.pc.n + 1
	}
	s.pc = &pcList{t, s.pc, n}
}

func (s *State) pcTerms() []*T {
	var out []*T
	for p := s.pc; p != nil; p = p.prev {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// delta returns the conjuncts added since base, which must be an ancestor.
func (s *State) delta(base *pcList) []*T {
	var out []*T
	for p := s.pc; p != base; p = p.prev {
		if p == nil {
			panic("delta: not an ancestor")
		}
		out = append(out, p.t)
	}
	return out
}

func (s *State) isDead() bool { return s.dead }

// under simplifies a formula using the literals of the path condition.
func (s *State) under(t *T) *T {
	if t.isConst() {
		return t
	}
	m := map[*T]*T{}
	for p := s.pc; p != nil; p = p.prev {
		x := p.t
		if x.op == "not" {
			m[x.args[0]] = mkFalse()
		} else if !x.isConst() {
			m[x] = mkTrue()
			if x.op == "=" && x.args[0].sort.isBV() {
				if x.args[0].isConst() && x.args[1].op != "ite" {
					m[x.args[1]] = x.args[0]
				} else if x.args[1].isConst() && x.args[0].op != "ite" {
					m[x.args[0]] = x.args[1]
				}
			}
			if x.op == "=" && x.args[0].sort == sNode {
				if x.args[0] == nilNode() {
					m[x.args[1]] = nilNode()
				} else if x.args[1] == nilNode() {
					m[x.args[0]] = nilNode()
				}
			}
		}
	}
	return subst(t, m, map[*T]*T{})
}

func (s *State) addNode(n *T) {
	if n == nil || n == nilNode() {
		return
	}
	if n.op == "ite" {
		s.addNode(n.args[1])
		s.addNode(n.args[2])
		return
	}
	for _, x := range s.nodes {
		if x == n {
			return
		}
	}
	s.nodes = append(s.nodes, n)
}

// ---- types

// World holds everything about the loaded program that the executor needs.
type World struct {
	prog   *ssa.Program
	pkg    *ssa.Package // the package under verification
	w      int          // address width
	node   *types.Struct
	fns    map[string]*ssa.Function // "Recv.Name" or "Name"
	scc    map[*ssa.Function]int
	infos  map[string][]nodeField
	usedFn map[*ssa.Function]bool
	extern map[string]bool
	all    map[*ssa.Function]bool
}

type nodeField struct {
	path  []int // through struct fields and array elements
	fn    string
	sort  Sort
	packs bool // the leaf is a struct of equal words, packed into one bit vector
	typ   types.Type
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (w *World) isNodeStruct(t types.Type) bool {
	if w.node == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Struct)
	return ok && types.Identical(s, w.node)
}

// isNodePtr tells whether t is a pointer to a trie node.
func (w *World) isNodePtr(t types.Type) bool {
	e := deref(t)
	return e != nil && w.isNodeStruct(e)
}

func isError(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func isEmptyIface(t types.Type) bool {
	if _, ok := t.(*types.TypeParam); ok {
		return true
	}
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0 && !isTypeParam(t)
}

func isTypeParam(t types.Type) bool {
	_, ok := t.(*types.TypeParam)
	return ok
}

// scalarSort returns the sort of types represented by single terms.
func (w *World) scalarSort(t types.Type) (Sort, bool) {
	if isTypeParam(t) {
		return sVal, true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return sBool, true
		case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr, types.UntypedInt:
			return bv(64), true
		case types.Int32, types.Uint32, types.UntypedRune:
			return bv(32), true
		case types.Int16, types.Uint16:
			return bv(16), true
		case types.Int8, types.Uint8:
			return bv(8), true
		case types.String, types.UntypedString:
			return sStr, true
		}
	case *types.Pointer:
		if w.isNodePtr(t) {
			return sNode, true
		}
	case *types.Interface:
		if isEmptyIface(t) {
			return sVal, true
		}
	}
	return Sort{}, false
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

// isWords tells whether t is a struct of two or more unsigned words of one size (uint128).
func isWords(t types.Type) (n, wbits int, ok bool) {
	s, isS := t.Underlying().(*types.Struct)
	if !isS || s.NumFields() < 2 {
		return 0, 0, false
	}
	for i := 0; i < s.NumFields(); i++ {
		b, isB := s.Field(i).Type().Underlying().(*types.Basic)
		if !isB || b.Kind() != types.Uint64 {
			return 0, 0, false
		}
	}
	return s.NumFields(), 64, true
}

// unpackWords splits a packed bit vector into a struct of words, most significant first.
func unpackWords(t *T, n, wb int) *VAgg {
	a := &VAgg{}
	for i := 0; i < n; i++ {
		hi := t.sort.W - 1 - i*wb
		a.e = append(a.e, extract(hi, hi-wb+1, t))
	}
	return a
}

// pack turns a struct value with only bit vector leaves into one bit vector.
func pack(v V) (*T, bool) {
	switch v := v.(type) {
	case *T:
		if v.sort.isBV() {
			return v, true
		}
	case *VAgg:
		var r *T
		for _, e := range v.e {
			t, ok := pack(e)
			if !ok {
				return nil, false
			}
			if r == nil {
				r = t
			} else {
				r = concat(r, t)
			}
		}
		return r, r != nil
	}
	return nil, false
}

// nodeFields lists the leaves of the node struct with their field functions.
func (w *World) nodeFields() []nodeField {
	if fs, ok := w.infos["node"]; ok {
		return fs
	}
	var out []nodeField
	var rec func(t types.Type, path []int, name string)
	rec = func(t types.Type, path []int, name string) {
		p := append([]int{}, path...)
		if n, wb, ok := isWords(t); ok {
			out = append(out, nodeField{p, "f" + name, bv(n * wb), true, t})
			return
		}
		if s, ok := w.scalarSort(t); ok {
			out = append(out, nodeField{p, "f" + name, s, false, t})
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				rec(u.Field(i).Type(), append(p, i), name+"."+u.Field(i).Name())
			}
		case *types.Array:
			for i := 0; i < int(u.Len()); i++ {
				rec(u.Elem(), append(p, i), fmt.Sprintf("%s.%d", name, i))
			}
		default:
			unsup("node field %s of type %s", name, t)
		}
	}
	rec(w.node, nil, "")
	w.infos["node"] = out
	return out
}

// nodeValue returns the struct value of a frozen node.
func (w *World) nodeValue(n *T) *VAgg {
	w.nodeFields()
	var rec func(t types.Type, name string) V
	rec = func(t types.Type, name string) V {
		if cnt, wb, ok := isWords(t); ok {
			return unpackWords(app("f"+name, bv(cnt*wb), n), cnt, wb)
		}
		if s, ok := w.scalarSort(t); ok {
			return app("f"+name, s, n)
		}
		a := &VAgg{}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				a.e = append(a.e, rec(u.Field(i).Type(), name+"."+u.Field(i).Name()))
			}
		case *types.Array:
			for i := 0; i < int(u.Len()); i++ {
				a.e = append(a.e, rec(u.Elem(), fmt.Sprintf("%s.%d", name, i)))
			}
		}
		return a
	}
	return rec(w.node, "").(*VAgg)
}

func isAggType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// leaves returns the leaf terms of a node struct value in the order of nodeFields.
func (w *World) leafTerms(v V) []V {
	var out []V
	var rec func(t types.Type, v V)
	rec = func(t types.Type, v V) {
		if _, _, ok := isWords(t); ok {
			p, ok := pack(v)
			if !ok {
				unsup("cannot pack node field")
			}
			out = append(out, p)
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				rec(u.Field(i).Type(), v.(*VAgg).e[i])
			}
			return
		case *types.Array:
			for i := 0; i < int(u.Len()); i++ {
				rec(u.Elem(), v.(*VAgg).e[i])
			}
			return
		}
		out = append(out, v)
	}
	rec(w.node, v)
	return out
}

// ---- structural operations

func zeroVal(w *World, t types.Type) V {
	if s, ok := w.scalarSort(t); ok {
		switch {
		case s == sBool:
			return mkFalse()
		case s == sNode:
			return nilNode()
		case s == sVal:
			if isTypeParam(t) {
				return mkVar("zeroT", sVal)
			}
			return mkVar("nilVal", sVal)
		case s == sStr:
			return strConst("")
		default:
			return bvi(0, s.W)
		}
	}
	if isError(t) {
		return &VErr{mkFalse()}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &VAgg{}
		for i := 0; i < u.NumFields(); i++ {
			a.e = append(a.e, zeroVal(w, u.Field(i).Type()))
		}
		return a
	case *types.Array:
		a := &VAgg{}
		if u.Len() > 4096 {
			unsup("array of %d elements", u.Len())
		}
		for i := 0; i < int(u.Len()); i++ {
			a.e = append(a.e, zeroVal(w, u.Elem()))
		}
		return a
	case *types.Tuple:
		a := &VAgg{}
		for i := 0; i < u.Len(); i++ {
			a.e = append(a.e, zeroVal(w, u.At(i).Type()))
		}
		return a
	case *types.Pointer, *types.Slice, *types.Signature, *types.Interface, *types.Map, *types.Chan:
		return VNil{}
	case *types.Basic:
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return VNil{}
		}
		if u.Info()&types.IsFloat != 0 {
			return &VFloat{form: "const"}
		}
	}
	return &VOpaque{"zero of " + t.String()}
}

func strConst(s string) *T { return mkVar(fmt.Sprintf("str:%q", s), sStr) }

// mergeV builds ite(c, a, b) where the representation allows.
func mergeV(c *T, a, b V) (V, bool) {
	if c.isTrue() {
		return a, true
	}
	if c.isFalse() {
		return b, true
	}
	switch x := a.(type) {
	case *T:
		y, ok := b.(*T)
		if ok && x.sort == y.sort {
			return ite(c, x, y), true
		}
		return nil, false
	case *VAgg:
		y, ok := b.(*VAgg)
		if !ok || len(x.e) != len(y.e) {
			return nil, false
		}
		r := &VAgg{}
		for i := range x.e {
			m, ok := mergeV(c, x.e[i], y.e[i])
			if !ok {
				return nil, false
			}
			r.e = append(r.e, m)
		}
		return r, true
	case *VErr:
		if y, ok := b.(*VErr); ok {
			return &VErr{ite(c, x.nonnil, y.nonnil)}, true
		}
		return nil, false
	}
	if sameV(a, b) {
		return a, true
	}
	return nil, false
}

func samePath(a, b []pe) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// sameV is syntactic identity.
func sameV(a, b V) bool {
	switch x := a.(type) {
	case *T:
		y, ok := b.(*T)
		return ok && x == y
	case *VAgg:
		y, ok := b.(*VAgg)
		if !ok || len(x.e) != len(y.e) {
			return false
		}
		for i := range x.e {
			if !sameV(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case *VPtr:
		y, ok := b.(*VPtr)
		return ok && x.obj == y.obj && samePath(x.path, y.path)
	case *VNAddr:
		y, ok := b.(*VNAddr)
		return ok && x.n == y.n && samePath(x.path, y.path)
	case VNil:
		_, ok := b.(VNil)
		return ok
	case *VSlice:
		y, ok := b.(*VSlice)
		return ok && *x == *y
	case *VClosure:
		y, ok := b.(*VClosure)
		if !ok || x.fn != y.fn || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !sameV(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case *VErr:
		y, ok := b.(*VErr)
		return ok && x.nonnil == y.nonnil
	case *VIface:
		y, ok := b.(*VIface)
		return ok && types.Identical(x.typ, y.typ) && sameV(x.v, y.v)
	case *VFloat:
		y, ok := b.(*VFloat)
		return ok && *x == *y
	}
	return a == b
}

func showV(v V) string {
	switch x := v.(type) {
	case *T:
		return x.String()
	case *VAgg:
		var s []string
		for _, e := range x.e {
			s = append(s, showV(e))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case *VErr:
		return "err(" + x.nonnil.String() + ")"
	}
	return fmt.Sprintf("%T%v", v, v)
}

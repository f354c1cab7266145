package main

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term (scalars, strings, arrays of scalars, big.Int),
// Ptr, SliceV, StructV, ArrV, IfaceV, FuncV, TupleV, MapV, OpaqueV.
type Value interface{}

type PE struct { // path element
	F int
	I *Term
}
type Ptr struct {
	O int // object id; 0 = nil
	P []PE
}
type SliceV struct {
	Nil           bool
	Maybe         bool    // may be nil when empty
	B             Ptr // pointer to the backing array
	Off, Len, Cap *Term
	Elem          types.Type
}
type StructV struct{ F []Value }
type ArrV struct{ E []Value }
type IfaceV struct {
	T types.Type // nil: nil interface
	V Value
}
type FuncV struct {
	Fn  *ssa.Function
	B   []Value
	Bi  *ssa.Builtin
	Tag string // modelled function value
}
type TupleV struct{ E []Value }
type MapV struct{ O int } // object holds *MapObj
type MapObj struct {
	K []Value
	V []Value
}
type OpaqueV struct {
	T types.Type
	X *Term
}

// HashV is the content of a modelled hash.Hash object.
type HashV struct {
	Kind string // UF name
	Key  *Term  // HMAC key or nil
	M    *Term  // message so far
}

func under(t types.Type) types.Type { return t.Underlying() }

func isBigInt(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == "Int"
}

type intKind struct {
	w      int
	signed bool
	bv     bool
}

func intKindOf(t types.Type) (intKind, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return intKind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intKind{64, true, false}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intKind{64, false, false}, true
	case types.Int8:
		return intKind{8, true, false}, true
	case types.Int16:
		return intKind{16, true, false}, true
	case types.Int32, types.UntypedRune:
		return intKind{32, true, false}, true
	case types.Uint8:
		return intKind{8, false, true}, true
	case types.Uint16:
		return intKind{16, false, true}, true
	case types.Uint32:
		return intKind{32, false, true}, true
	}
	return intKind{}, false
}
func (k intKind) lo() *big.Int {
	if !k.signed {
		return big.NewInt(0)
	}
	return new(big.Int).Neg(pow2(k.w - 1))
}
func (k intKind) hi() *big.Int {
	if !k.signed {
		return bmask(k.w)
	}
	return bmask(k.w - 1)
}

// scalarSort: sort of scalar types representable as one term (nil otherwise).
func scalarSort(t types.Type) *Sort {
	if isBigInt(t) {
		return IntS
	}
	if k, ok := intKindOf(t); ok {
		if k.bv {
			return BVS(k.w)
		}
		return IntS
	}
	if b, ok := under(t).(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return BoolS
		case b.Info()&types.IsString != 0:
			return BytesS
		}
	}
	return nil
}

// arrays/slices of these element types are kept as Seq terms
func seqElem(t types.Type) *Sort {
	if k, ok := intKindOf(t); ok {
		if k.bv {
			return BVS(k.w)
		}
		return IntS
	}
	return nil
}

func zeroTerm(s *Sort) *Term {
	switch s.K {
	case SBool:
		return False
	case SInt:
		return Zero
	case SBV:
		return BVCi(0, s.W)
	case SSeq:
		return Empty(s.Elem)
	}
	panic("zeroTerm")
}

func zeroValue(t types.Type) Value {
	if s := scalarSort(t); s != nil {
		return zeroTerm(s)
	}
	if n, ok := t.(*types.Named); ok {
		if v := modelZero(n); v != nil {
			return v
		}
	}
	switch u := under(t).(type) {
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = zeroValue(u.Field(i).Type())
		}
		return StructV{f}
	case *types.Array:
		if e := seqElem(u.Elem()); e != nil {
			return Rep(zeroTerm(e), IC(u.Len()))
		}
		a := make([]Value, u.Len())
		for i := range a {
			a[i] = zeroValue(u.Elem())
		}
		return ArrV{a}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return SliceV{Nil: true, Off: Zero, Len: Zero, Cap: Zero, Elem: u.Elem()}
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Map:
		return MapV{}
	case *types.Tuple:
		var e []Value
		for i := 0; i < u.Len(); i++ {
			e = append(e, zeroValue(u.At(i).Type()))
		}
		return TupleV{e}
	case *types.Chan:
		return Ptr{}
	case *types.Basic:
		return OpaqueV{T: t, X: UF("zero_"+t.String(), US("opq"))}
	}
	return OpaqueV{T: t, X: UF("zero_"+t.String(), US("opq"))}
}

// freshTerm: arbitrary scalar of the given type.
func freshTerm(name string, t types.Type) *Term {
	if isBigInt(t) {
		return FreshR(name, nil, nil)
	}
	if k, ok := intKindOf(t); ok {
		if k.bv {
			return Fresh(name, BVS(k.w))
		}
		return FreshR(name, k.lo(), k.hi())
	}
	s := scalarSort(t)
	if s == BytesS {
		return FreshBytes(name)
	}
	return Fresh(name, s)
}

// ---------- heap ----------

// Heap maps object numbers to values: a persistent radix trie, so that clones
// share structure and comparisons skip what two heaps have in common.
type Heap struct {
	root *hnode
	tok  *int
}
type hnode struct {
	tok *int
	sub [hFan]*hnode
	val [hFan]Value
}

const (
	hBits  = 3
	hFan   = 1 << hBits
	hDepth = 8 // 2^24 objects
)

func newHeap() *Heap { return &Heap{nil, new(int)} }
func (h *Heap) clone() *Heap {
	h.tok = new(int)
	return &Heap{h.root, new(int)}
}
func (h *Heap) get(o int) Value {
	n := h.root
	for d := hDepth - 1; d > 0; d-- {
		if n == nil {
			return nil
		}
		n = n.sub[o>>uint(d*hBits)&(hFan-1)]
	}
	if n == nil {
		return nil
	}
	return n.val[o&(hFan-1)]
}
func (h *Heap) own(n *hnode) *hnode {
	if n == nil {
		return &hnode{tok: h.tok}
	}
	if n.tok == h.tok {
		return n
	}
	c := *n
	c.tok = h.tok
	return &c
}
func (h *Heap) set(o int, v Value) {
	if o>>uint(hDepth*hBits) != 0 {
		bail("too many objects")
	}
	h.root = h.own(h.root)
	n := h.root
	for d := hDepth - 1; d > 0; d-- {
		i := o >> uint(d*hBits) & (hFan - 1)
		n.sub[i] = h.own(n.sub[i])
		n = n.sub[i]
	}
	n.val[o&(hFan-1)] = v
}

// diff calls f for the objects that may differ, in ascending order, until f returns false.
func (h *Heap) diff(g *Heap, f func(o int, a, b Value) bool) bool {
	return hdiff(h.root, g.root, 0, hDepth-1, f)
}

var hempty hnode

func hdiff(a, b *hnode, o, d int, f func(int, Value, Value) bool) bool {
	if a == b {
		return true
	}
	if a == nil {
		a = &hempty
	}
	if b == nil {
		b = &hempty
	}
	for i := 0; i < hFan; i++ {
		if d > 0 {
			if !hdiff(a.sub[i], b.sub[i], o<<hBits|i, d-1, f) {
				return false
			}
		} else if a.val[i] != nil || b.val[i] != nil {
			if !f(o<<hBits|i, a.val[i], b.val[i]) {
				return false
			}
		}
	}
	return true
}

var objCnt int
var objType = map[int]types.Type{}

func newObj(t types.Type) int {
	objCnt++
	objType[objCnt] = t
	return objCnt
}

// State of one path.
type State struct {
	ctx  *Ctx
	heap *Heap
	note []string
	tags map[string]bool // bounded/assumption markers hit on this path
}

func (s *State) clone() *State {
	return &State{ctx: s.ctx, heap: s.heap.clone(), note: s.note, tags: s.tags}
}
func (s *State) assume(t *Term) { s.ctx = s.ctx.Assume(t) }

func (s *State) alloc(t types.Type, v Value) int {
	o := newObj(t)
	s.heap.set(o, v)
	return o
}

type forkErr struct { // needs a case split on a term's integer value
	t *Term
}
type unmodelled struct{ msg string }

func bail(f string, a ...interface{}) { panic(unmodelled{sprintf(f, a...)}) }

func concreteIdx(i *Term) int {
	if !i.IsInt64() {
		i2 := Renorm(i)
		if i2.IsInt64() {
			return int(i2.Int64())
		}
		for i2.Op == OIte {
			d := Decide(i2.Args[0])
			if d == 0 {
				break
			}
			if d > 0 {
				i2 = i2.Args[1]
			} else {
				i2 = i2.Args[2]
			}
			if i2.IsInt64() {
				return int(i2.Int64())
			}
		}
		panic(forkErr{i})
	}
	return int(i.Int64())
}

func getPath(v Value, p []PE) Value {
	for _, e := range p {
		switch x := v.(type) {
		case StructV:
			v = x.F[e.F]
		case ArrV:
			v = x.E[concreteIdx(e.I)]
		case *Term:
			if e.I == nil {
				bail("field of term")
			}
			v = At(x, e.I)
		default:
			bail("getPath through %T", v)
		}
	}
	return v
}
func setPath(v Value, p []PE, n Value) Value {
	if len(p) == 0 {
		return n
	}
	e := p[0]
	switch x := v.(type) {
	case StructV:
		f := append([]Value{}, x.F...)
		f[e.F] = setPath(f[e.F], p[1:], n)
		return StructV{f}
	case ArrV:
		a := append([]Value{}, x.E...)
		i := concreteIdx(e.I)
		a[i] = setPath(a[i], p[1:], n)
		return ArrV{a}
	case *Term:
		if e.I == nil || len(p) != 1 {
			bail("setPath term")
		}
		return SUpd(x, e.I, n.(*Term))
	}
	bail("setPath through %T", v)
	return nil
}
func (s *State) load(p Ptr) Value { return getPath(s.heap.get(p.O), p.P) }
func (s *State) store(p Ptr, v Value) {
	s.heap.set(p.O, setPath(s.heap.get(p.O), p.P, v))
}
func sub(p Ptr, e PE) Ptr {
	return Ptr{p.O, append(append([]PE{}, p.P...), e)}
}

// bytesOf: content of a scalar slice as a Seq term.
func (s *State) seqOf(v SliceV) *Term {
	e := seqElem(v.Elem)
	if e == nil {
		bail("seqOf %v", v.Elem)
	}
	if v.Nil {
		return Empty(e)
	}
	return SSub(s.load(v.B).(*Term), v.Off, v.Len)
}

// listOf: elements of a non-scalar slice with concrete bounds.
func (s *State) listOf(v SliceV) []Value {
	if v.Nil {
		return nil
	}
	a, ok := s.load(v.B).(ArrV)
	if !ok {
		bail("listOf %T", s.load(v.B))
	}
	o, l := concreteIdx(v.Off), concreteIdx(v.Len)
	return a.E[o : o+l]
}
func (s *State) newSeqSlice(elem types.Type, content *Term) SliceV {
	n := SLen(content)
	o := s.alloc(types.NewSlice(elem), content)
	return SliceV{B: Ptr{O: o}, Off: Zero, Len: n, Cap: n, Elem: elem}
}
func (s *State) newBytes(content *Term) SliceV {
	return s.newSeqSlice(types.Typ[types.Byte], content)
}
func (s *State) newListSlice(elem types.Type, vs []Value) SliceV {
	o := s.alloc(types.NewSlice(elem), ArrV{vs})
	n := IC(int64(len(vs)))
	return SliceV{B: Ptr{O: o}, Off: Zero, Len: n, Cap: n, Elem: elem}
}

// valEq: equality of two values as a term.
func valEq(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		return Eq(x, b.(*Term))
	case Ptr:
		y := b.(Ptr)
		if x.O != y.O {
			return False
		}
		if x.O == 0 {
			return True
		}
		if len(x.P) != len(y.P) {
			return False
		}
		r := True
		for i := range x.P {
			if x.P[i].I != nil && y.P[i].I != nil {
				r = And(r, EqI(x.P[i].I, y.P[i].I))
			} else if x.P[i].F != y.P[i].F {
				return False
			}
		}
		return r
	case StructV:
		y := b.(StructV)
		r := True
		for i := range x.F {
			r = And(r, valEq(x.F[i], y.F[i]))
		}
		return r
	case ArrV:
		y := b.(ArrV)
		r := True
		for i := range x.E {
			r = And(r, valEq(x.E[i], y.E[i]))
		}
		return r
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return False
		}
		if x.T == nil || y.T == nil {
			return BC(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return False
		}
		return valEq(x.V, y.V)
	case OpaqueV:
		y, ok := b.(OpaqueV)
		if s, sl := b.(SliceV); sl && s.Nil {
			return Fresh("isnil", BoolS)
		}
		if !ok {
			return False
		}
		return Eq(x.X, y.X)
	case SliceV: // only nil comparison
		if _, ok := b.(OpaqueV); ok && x.Nil {
			return Fresh("isnil", BoolS)
		}
		y := b.(SliceV)
		if x.Nil {
			x, y = y, x
		}
		if y.Nil {
			if x.Maybe && !x.Nil {
				return And(EqI(x.Len, Zero), Fresh("isnil", BoolS))
			}
			return BC(x.Nil)
		}
	case FuncV:
		y := b.(FuncV)
		return BC(x.Fn == nil && x.Bi == nil && x.Tag == "" && y.Fn == nil && y.Bi == nil && y.Tag == "")
	case MapV:
		y := b.(MapV)
		return BC(x.O == y.O)
	}
	bail("valEq %T %T", a, b)
	return nil
}

// sameValue: syntactic identity.
func sameValue(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case Ptr:
		y, ok := b.(Ptr)
		if !ok || x.O != y.O || len(x.P) != len(y.P) {
			return false
		}
		for i := range x.P {
			if x.P[i] != y.P[i] {
				return false
			}
		}
		return true
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x.Nil == y.Nil && x.Maybe == y.Maybe && sameValue(x.B, y.B) && x.Off == y.Off && x.Len == y.Len && x.Cap == y.Cap
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !sameValue(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case ArrV:
		y, ok := b.(ArrV)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		for i := range x.E {
			if !sameValue(x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok || (x.T == nil) != (y.T == nil) {
			return false
		}
		return x.T == nil || types.Identical(x.T, y.T) && sameValue(x.V, y.V)
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		for i := range x.E {
			if !sameValue(x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	case FuncV:
		y, ok := b.(FuncV)
		if !ok || x.Fn != y.Fn || x.Bi != y.Bi || x.Tag != y.Tag || len(x.B) != len(y.B) {
			return false
		}
		for i := range x.B {
			if !sameValue(x.B[i], y.B[i]) {
				return false
			}
		}
		return true
	case MapV:
		y, ok := b.(MapV)
		return ok && x == y
	case OpaqueV:
		y, ok := b.(OpaqueV)
		return ok && x.X == y.X
	case HashV:
		y, ok := b.(HashV)
		return ok && x == y
	case *MapObj:
		y, ok := b.(*MapObj)
		return ok && x == y
	case ModelV:
		y, ok := b.(ModelV)
		return ok && x.same(y)
	}
	return false
}

// mergeValue builds ite(c,a,b); ok=false when shapes are incompatible.
func mergeValue(c *Term, a, b Value) (Value, bool) {
	if sameValue(a, b) {
		return a, true
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.S == y.S {
			return Ite(c, x, y), true
		}
	case SliceV:
		if y, ok := b.(SliceV); ok && !x.Nil && !y.Nil && sameValue(x.B, y.B) {
			x.Maybe = x.Maybe || y.Maybe
			x.Off, x.Len, x.Cap = Ite(c, x.Off, y.Off), Ite(c, x.Len, y.Len), Ite(c, x.Cap, y.Cap)
			return x, true
		}
	case StructV:
		if y, ok := b.(StructV); ok && len(x.F) == len(y.F) {
			f := make([]Value, len(x.F))
			for i := range f {
				var ok bool
				if f[i], ok = mergeValue(c, x.F[i], y.F[i]); !ok {
					return nil, false
				}
			}
			return StructV{f}, true
		}
	case ArrV:
		if y, ok := b.(ArrV); ok && len(x.E) == len(y.E) {
			f := make([]Value, len(x.E))
			for i := range f {
				var ok bool
				if f[i], ok = mergeValue(c, x.E[i], y.E[i]); !ok {
					return nil, false
				}
			}
			return ArrV{f}, true
		}
	case TupleV:
		if y, ok := b.(TupleV); ok && len(x.E) == len(y.E) {
			f := make([]Value, len(x.E))
			for i := range f {
				var ok bool
				if f[i], ok = mergeValue(c, x.E[i], y.E[i]); !ok {
					return nil, false
				}
			}
			return TupleV{f}, true
		}
	}
	return nil, false
}

// ModelV: content of an intrinsic-modelled object (immutable).
type ModelV struct {
	Kind string
	T    []*Term
	V    []Value
}

func (m ModelV) same(o ModelV) bool {
	if m.Kind != o.Kind || len(m.T) != len(o.T) || len(m.V) != len(o.V) {
		return false
	}
	for i := range m.T {
		if m.T[i] != o.T[i] {
			return false
		}
	}
	for i := range m.V {
		if !sameValue(m.V[i], o.V[i]) {
			return false
		}
	}
	return true
}

func modelZero(n *types.Named) Value {
	if n.Obj().Pkg() == nil {
		return nil
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "golang.org/x/crypto/cryptobyte.Builder":
		return ModelV{Kind: "cbBuilder", T: []*Term{SC("")}}
	case "bytes.Buffer":
		return ModelV{Kind: "bytes.Buffer", T: []*Term{SC("")}}
	case "strings.Builder":
		return ModelV{Kind: "bytes.Buffer", T: []*Term{SC("")}}
	}
	return nil
}

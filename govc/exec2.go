package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) ownPkg(p *ssa.Package) bool { return x.own[p] }

// extGlobal: a package-level variable of a package whose init is not executed.
func (x *Exec) extGlobal(st *State, g *ssa.Global, t types.Type) Value {
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		// sentinel error: a fixed distinct object
		return x.sentinel(st, g.String())
	}
	if v := x.modelGlobal(st, g, t); v != nil {
		return v
	}
	if s := scalarSort(t); s != nil {
		return UF("glob_"+g.String(), s)
	}
	return OpaqueV{T: t, X: UF("glob_"+g.String(), US("opq"))}
}

var sentinels = map[string]int{}

func (x *Exec) errType() types.Type {
	for _, p := range x.prog.AllPackages() {
		if p.Pkg.Path() == "errors" {
			return types.NewPointer(p.Type("errorString").Type())
		}
	}
	panic("no errors package")
}
func (x *Exec) sentinel(st *State, name string) IfaceV {
	o, ok := sentinels[name]
	et := x.errType()
	if !ok {
		o = newObj(et.(*types.Pointer).Elem())
		sentinels[name] = o
	}
	st.heap.set(o, StructV{[]Value{SC(name)}})
	return IfaceV{T: et, V: Ptr{O: o}}
}
func (x *Exec) newErr(st *State, msg string) IfaceV {
	et := x.errType()
	o := st.alloc(et.(*types.Pointer).Elem(), StructV{[]Value{SC(msg)}})
	return IfaceV{T: et, V: Ptr{O: o}}
}

func one(st *State, vs ...Value) []Outcome { return []Outcome{{st: st, ret: vs}} }

// ---------- builtins ----------

func (f *frame) builtin(p *pend, bi *ssa.Builtin, c *ssa.CallCommon, args []Value, site *ssa.Call) ([]Outcome, bool) {
	st := p.st
	switch bi.Name() {
	case "len":
		switch a := args[0].(type) {
		case *Term:
			return one(st, SLen(a)), true
		case SliceV:
			return one(st, a.Len), true
		case OpaqueV: // a list that is not examined
			return one(st, UF("list.len", IntS, a.X)), true
		case MapV:
			if a.O == 0 {
				return one(st, Zero), true
			}
			return one(st, IC(int64(len(st.heap.get(a.O).(*MapObj).K)))), true
		case ArrV:
			return one(st, IC(int64(len(a.E)))), true
		case Ptr:
			at := c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return one(st, IC(at.Len())), true
		}
	case "cap":
		switch a := args[0].(type) {
		case SliceV:
			return one(st, a.Cap), true
		}
	case "copy":
		dst := args[0].(SliceV)
		var n *Term
		var srcLen *Term
		str, isStr := args[1].(*Term)
		var src SliceV
		if isStr {
			srcLen = SLen(str)
		} else {
			src = args[1].(SliceV)
			srcLen = src.Len
		}
		switch Decide(Le(srcLen, dst.Len)) {
		case 1:
			n = srcLen
			if dst.Len.IsC() && !srcLen.IsC() && Decide(Le(dst.Len, srcLen)) == 1 {
				n = dst.Len
			}
		case -1:
			n = dst.Len
		default:
			a, b := st.clone(), st.clone()
			a.assume(Le(srcLen, dst.Len))
			b.assume(Lt(dst.Len, srcLen))
			var outs []Outcome
			for i, s := range []*State{a, b} {
				if !s.ctx.Feasible() {
					continue
				}
				n := srcLen
				if i == 1 {
					n = dst.Len
				}
				cur = s.ctx
				f.copyN(s, dst, args[1], n)
				outs = append(outs, Outcome{st: s, ret: []Value{n}})
			}
			return outs, true
		}
		st2 := st.clone()
		f.copyN(st2, dst, args[1], n)
		return one(st2, n), true
	case "append":
		if v, ok := f.x.appendOpaque(st, args[0], args[1]); ok {
			return one(st, v), true
		}
		a, ok := args[0].(SliceV)
		if !ok {
			bail("append to a list that is not examined")
		}
		if b, ok := args[1].(*Term); ok { // append([]byte, string...)
			return f.appendSeq(st, a, b), true
		}
		b := args[1].(SliceV)
		if seqElem(a.Elem) != nil {
			return f.appendSeq(st, a, st.seqOf(b)), true
		}
		if b.Nil || b.Len == Zero {
			return one(st, a), true
		}
		st2 := st.clone()
		l := append(append([]Value{}, st2.listOf(a)...), st2.listOf(b)...)
		return one(st2, st2.newListSlice(a.Elem, l)), true
	case "print", "println":
		return one(st), true
	case "delete":
		m := args[0].(MapV)
		if m.O != 0 {
			bail("delete on map")
		}
		return one(st), true
	case "min", "max":
		a, b := args[0].(*Term), args[1].(*Term)
		if a.S == IntS && len(args) == 2 {
			if bi.Name() == "min" {
				return one(st, Ite(Le(a, b), a, b)), true
			}
			return one(st, Ite(Le(a, b), b, a)), true
		}
	case "clear":
		s, ok := args[0].(SliceV)
		if ok && seqElem(s.Elem) != nil {
			st2 := st.clone()
			f.writeSeq(st2, s, Rep(zeroTerm(seqElem(s.Elem)), s.Len))
			return one(st2), true
		}
	case "ssa:wrapnilchk":
		return one(st, args[0]), true
	}
	bail("builtin %s(%T)", bi.Name(), args[0])
	return nil, false
}

// writeSeq overwrites the first len(c) elements of s.
func (f *frame) writeSeq(st *State, s SliceV, c *Term) {
	if s.Nil || SLen(c) == Zero {
		return
	}
	old := st.load(s.B).(*Term)
	n := SLen(c)
	end := Add(s.Off, n)
	st.store(s.B, SCat(old.S, SSub(old, Zero, s.Off), c, SSub(old, end, Sub(SLen(old), end))))
}

func (f *frame) copyN(st *State, dst SliceV, src Value, n *Term) {
	if n == Zero || dst.Nil {
		return
	}
	if seqElem(dst.Elem) == nil {
		l := st.listOf(src.(SliceV))
		k := concreteIdx(n)
		arr := st.load(dst.B).(ArrV)
		es := append([]Value{}, arr.E...)
		copy(es[concreteIdx(dst.Off):], l[:k])
		st.store(dst.B, ArrV{es})
		return
	}
	var c *Term
	if t, ok := src.(*Term); ok {
		c = SSub(t, Zero, n)
	} else {
		s := src.(SliceV)
		if s.Nil {
			return
		}
		c = SSub(st.load(s.B).(*Term), s.Off, n)
	}
	f.writeSeq(st, dst, c)
}

// appendSeq: append in place when the capacity is known to suffice; otherwise
// into a fresh backing array.
func (f *frame) appendSeq(st *State, a SliceV, b *Term) []Outcome {
	if SLen(b) == Zero {
		return one(st, a)
	}
	n := Add(a.Len, SLen(b))
	fresh := func(st *State) Outcome {
		c := SCat(SeqS(seqElem(a.Elem)), st.seqOf(a), b)
		s := st.newSeqSlice(a.Elem, c)
		s.Maybe = (a.Nil || a.Maybe) && Decide(EqI(n, Zero)) != 0
		return Outcome{st: st, ret: []Value{s}}
	}
	inpl := func(st *State) Outcome {
		w := a
		w.Off = Add(a.Off, a.Len)
		f.writeSeq(st, w, b)
		r := a
		r.Len = n
		return Outcome{st: st, ret: []Value{r}}
	}
	d := -1
	if !a.Nil && a.Cap != a.Len {
		d = Decide(Le(n, a.Cap))
	}
	switch d {
	case 1:
		return []Outcome{inpl(st.clone())}
	case -1:
		return []Outcome{fresh(st.clone())}
	}
	s1, s2 := st.clone(), st.clone()
	s1.assume(Le(n, a.Cap))
	s2.assume(Lt(a.Cap, n))
	cur = s1.ctx
	o1 := inpl(s1)
	cur = s2.ctx
	o2 := fresh(s2)
	return []Outcome{o1, o2}
}

// ---------- opaque specification functions and havoc ----------

func (x *Exec) flat(st *State, v Value, out *[]*Term) {
	switch a := v.(type) {
	case *Term:
		*out = append(*out, a)
	case SliceV:
		if seqElem(a.Elem) != nil {
			*out = append(*out, st.seqOf(a))
			return
		}
		l := st.listOf(a)
		*out = append(*out, IC(int64(len(l))))
		for _, e := range l {
			x.flat(st, e, out)
		}
	case StructV:
		for _, e := range a.F {
			x.flat(st, e, out)
		}
	case ArrV:
		for _, e := range a.E {
			x.flat(st, e, out)
		}
	case Ptr:
		if a.O == 0 {
			*out = append(*out, UF("nilptr", US("opq")))
			return
		}
		x.flat(st, st.load(a), out)
	case OpaqueV:
		*out = append(*out, a.X)
	case IfaceV:
		if a.T == nil {
			*out = append(*out, UF("niliface", US("opq")))
			return
		}
		*out = append(*out, UF("type_"+a.T.String(), US("opq")))
		x.flat(st, a.V, out)
	case FuncV:
		n := "nilfunc"
		if a.Fn != nil {
			n = a.Fn.String()
		} else if a.Tag != "" {
			n = a.Tag
		}
		*out = append(*out, UF("func_"+n, US("opq")))
	case ModelV:
		*out = append(*out, a.T...)
		for _, e := range a.V {
			x.flat(st, e, out)
		}
	default:
		bail("flat %T", v)
	}
}

func (x *Exec) ufResult(st *State, name string, t types.Type, args []*Term) Value {
	if s := scalarSort(t); s != nil {
		r := UF(name, s, args...)
		if k, ok := intKindOf(t); ok && !k.bv {
			if ufInfo[name] == nil {
				ufInfo[name] = &ufI{rangeOf: func(*Term) (lo, hi *big.Int) { return k.lo(), k.hi() }}
			} else if ufInfo[name].rangeOf == nil {
				ufInfo[name].rangeOf = func(*Term) (lo, hi *big.Int) { return k.lo(), k.hi() }
			}
			r.rng = false
		}
		return r
	}
	switch u := under(t).(type) {
	case *types.Slice:
		if e := seqElem(u.Elem()); e != nil {
			c := UF(name, SeqS(e), args...)
			return st.newSeqSlice(u.Elem(), c)
		}
	case *types.Array:
		if e := seqElem(u.Elem()); e != nil {
			if ufInfo[name] == nil {
				ufInfo[name] = &ufI{}
			}
			n := u.Len()
			if ufInfo[name].lenOf == nil {
				ufInfo[name].lenOf = func([]*Term) *Term { return IC(n) }
			}
			return UF(name, SeqS(e), args...)
		}
	case *types.Pointer:
		if isBigInt(u.Elem()) {
			return Ptr{O: st.alloc(u.Elem(), UF(name, IntS, args...))}
		}
		o := st.alloc(u.Elem(), x.ufResult(st, name, u.Elem(), args))
		return Ptr{O: o}
	case *types.Struct:
		var fs []Value
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.ufResult(st, sprintf("%s.%s", name, u.Field(i).Name()), u.Field(i).Type(), args))
		}
		return StructV{fs}
	}
	return OpaqueV{T: t, X: UF(name, US("opq"), args...)}
}

func (x *Exec) callOpaque(st *State, name string, fn *ssa.Function, args []Value) []Outcome {
	var ts []*Term
	for _, a := range args {
		x.flat(st, a, &ts)
	}
	st = st.clone()
	res := fn.Signature.Results()
	var out []Value
	for i := 0; i < res.Len(); i++ {
		n := name
		if res.Len() > 1 {
			n = sprintf("%s#%d", name, i)
		}
		out = append(out, x.ufResult(st, n, res.At(i).Type(), ts))
	}
	return one(st, out...)
}

var errorT = types.Universe.Lookup("error").Type()

func (x *Exec) freshValue(st *State, name string, t types.Type, depth int) Value {
	if scalarSort(t) != nil {
		return freshTerm(name, t)
	}
	if n, ok := t.(*types.Named); ok {
		if v := modelZero(n); v != nil {
			return v
		}
	}
	switch u := under(t).(type) {
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = x.freshValue(st, name+"."+u.Field(i).Name(), u.Field(i).Type(), depth)
		}
		return StructV{f}
	case *types.Array:
		if e := seqElem(u.Elem()); e != nil {
			return FreshSeq(name, e, IC(u.Len()))
		}
	case *types.Slice:
		if e := seqElem(u.Elem()); e != nil {
			n := FreshR("len_"+name, new(big.Int), lenMax)
			return st.newSeqSlice(u.Elem(), FreshSeq(name, e, n))
		}
	case *types.Pointer:
		if depth > 4 {
			break
		}
		o := st.alloc(u.Elem(), nil)
		st.heap.set(o, x.freshValue(st, name, u.Elem(), depth+1))
		return Ptr{O: o}
	}
	return OpaqueV{T: t, X: Fresh(name, US("opq"))}
}

func shortName(n string) string {
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return strings.NewReplacer("(", "", ")", "", "*", "", " ", "_").Replace(n)
}

// havocCall: an external function without a model: arbitrary results, and
// everything reachable through slice/pointer arguments becomes arbitrary.
func (x *Exec) havocCall(st *State, name string, sig *types.Signature, args []Value) []Outcome {
	x.used["HAVOC "+name]++
	st = st.clone()
	for _, a := range args {
		x.havocArg(st, a)
	}
	res := sig.Results()
	hasErr := res.Len() > 0 && types.Identical(res.At(res.Len()-1).Type(), errorT)
	mk := func(st *State, fail bool) []Value {
		var out []Value
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			if hasErr && i == res.Len()-1 {
				if fail {
					out = append(out, x.newErr(st, "error from "+name))
				} else {
					out = append(out, IfaceV{})
				}
				continue
			}
			out = append(out, x.freshValue(st, "hv_"+shortName(name), t, 0))
		}
		return out
	}
	if hasErr {
		s2 := st.clone()
		b := Fresh("fails_"+shortName(name), BoolS)
		st.assume(Not(b))
		s2.assume(b)
		return []Outcome{{st: st, ret: mk(st, false)}, {st: s2, ret: mk(s2, true)}}
	}
	return one(st, mk(st, false)...)
}
func (x *Exec) havocArg(st *State, a Value) {
	switch v := a.(type) {
	case SliceV:
		if !v.Nil && seqElem(v.Elem) != nil {
			old := st.load(v.B).(*Term)
			c := FreshSeq("hv", old.S.Elem, v.Len)
			end := Add(v.Off, v.Len)
			st.store(v.B, SCat(old.S, SSub(old, Zero, v.Off), c, SSub(old, end, Sub(SLen(old), end))))
		}
	case Ptr:
		if v.O != 0 {
			old := st.load(v)
			switch o := old.(type) {
			case *Term:
				if o.S.K == SSeq {
					st.store(v, FreshSeq("hv", o.S.Elem, SLen(o)))
				} else {
					st.store(v, Fresh("hv", o.S))
				}
			case StructV:
				for i := range o.F {
					x.havocArg(st, sub(v, PE{F: i}))
				}
			}
		}
	case IfaceV:
		x.havocArg(st, v.V)
	}
}

// appendOpaque: append where an operand is a list that is not examined.
func (x *Exec) appendOpaque(st *State, a, b Value) (Value, bool) {
	ao, ok1 := a.(OpaqueV)
	bo, ok2 := b.(OpaqueV)
	if !ok1 && !ok2 {
		return nil, false
	}
	term := func(v Value) (*Term, *Term) {
		s, ok := v.(SliceV)
		if !ok {
			o := v.(OpaqueV)
			return o.X, UF("list.len", IntS, o.X)
		}
		var l []*Term
		if !s.Nil {
			for _, e := range st.listOf(s) {
				x.flat(st, e, &l)
				l = append(l, UF("list.sep", US("opq")))
			}
		}
		return UF("list.of", US("opq"), l...), s.Len
	}
	if s, ok := a.(SliceV); ok && (s.Nil || s.Len == Zero) {
		return b, true
	}
	if s, ok := b.(SliceV); ok && (s.Nil || s.Len == Zero) {
		return a, true
	}
	t := ao.T
	if !ok1 {
		t = bo.T
	}
	p, n := term(a)
	q, m := term(b)
	v := OpaqueV{T: t, X: UF("list.append", US("opq"), p, q)}
	st.assume(EqI(UF("list.len", IntS, v.X), Add(n, m)))
	return v, true
}

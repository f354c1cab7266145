package main

import (
	"go/types"
	"math/big"
)

// DER: der.tlv(tag, content) is the encoding of one element; encodings are
// uniquely decodable prefixes (two encodings one of which is a prefix of the
// other are the same element). der.int(x) is the content of INTEGER x.

func TLV(tag int64, c *Term) *Term { return UF("der.tlv", BytesS, IC(tag), c) }
func DerInt(x *Term) *Term         { return UF("der.int", BytesS, x) }

func init() {
	ufInfo["der.tlv"] = &ufI{facts: func(t *Term) []*Term {
		return []*Term{Le(AddC(SLen(t.Args[1]), 2), SLen(t))}
	}}
	ufInfo["der.int"] = &ufI{facts: func(t *Term) []*Term { return []*Term{Le(One, SLen(t))} }}
	vIntr["vDerTLV"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		tag := x.toInt(tm(a[0]))
		if !tag.IsC() {
			bail("vDerTLV with a symbolic tag")
		}
		st = st.clone()
		return one(st, st.newBytes(TLV(tag.Int64(), st.seqOf(a[1].(SliceV)))))
	}
	vIntr["vDerInt"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		st = st.clone()
		return one(st, st.newBytes(DerInt(x.bigv(st, a[0]))))
	}
	nilBytes := SliceV{Nil: true, Off: Zero, Len: Zero, Cap: Zero, Elem: types.Typ[types.Byte]}
	vIntr["vDerRead"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		var out []Outcome
		for _, r := range x.derRead(st, Renorm(st.seqOf(a[0].(SliceV))), tm(a[1])) {
			if !r.ok {
				out = append(out, Outcome{st: r.st, ret: []Value{nilBytes, nilBytes, False}})
				continue
			}
			s := r.st.clone()
			out = append(out, Outcome{st: s, ret: []Value{s.newBytes(r.content), s.newBytes(r.rest), True}})
		}
		return out
	}
	vIntr["vDerReadInt"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		var out []Outcome
		for _, r := range x.derInt(st, st.seqOf(a[0].(SliceV))) {
			if !r.ok {
				out = append(out, Outcome{st: r.st, ret: []Value{Ptr{}, False}})
				continue
			}
			s := r.st.clone()
			out = append(out, Outcome{st: s, ret: []Value{x.newBig(s, r.content), True}})
		}
		return out
	}
	vIntr["vDerReadOID"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		var out []Outcome
		for _, r := range x.derOID(st, st.seqOf(a[0].(SliceV))) {
			s := r.st.clone()
			if !r.ok {
				out = append(out, Outcome{st: s, ret: []Value{zeroValue(types.NewSlice(types.Typ[types.Int])), False}})
				continue
			}
			out = append(out, Outcome{st: s, ret: []Value{s.newSeqSlice(types.Typ[types.Int], r.content), True}})
		}
		return out
	}
	const cb = "golang.org/x/crypto/cryptobyte."
	bld := func(st *State, p Ptr) ModelV {
		m, ok := st.load(p).(ModelV)
		if !ok {
			bail("cryptobyte builder %T", st.load(p))
		}
		return m
	}
	add := func(st *State, p Ptr, t *Term) {
		m := bld(st, p)
		st.store(p, ModelV{Kind: m.Kind, T: []*Term{SCat(BytesS, m.T[0], t)}})
	}
	B := func(name string, f Intrinsic) { intr["(*"+cb+"Builder)."+name] = f }
	B("AddASN1", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		st = st.clone()
		bt := x.typeIn("golang.org/x/crypto/cryptobyte", "Builder")
		child := Ptr{O: st.alloc(bt, ModelV{Kind: "cbBuilder", T: []*Term{SC("")}})}
		tag := x.toInt(tm(a[1]))
		if !tag.IsC() {
			bail("AddASN1 with a symbolic tag")
		}
		var out []Outcome
		os, ok := x.callFunc(st, a[2].(FuncV), []Value{child}, c.pos, nil, func(string) {})
		if !ok {
			return []Outcome{{st: st, panic: "nil continuation", where: c.pos}}
		}
		for _, o := range os {
			if o.panic == "" {
				o.st = o.st.clone()
				cur = o.st.ctx
				add(o.st, a[0].(Ptr), TLV(tag.Int64(), bld(o.st, child).T[0]))
			}
			out = append(out, o)
		}
		return out
	})
	B("AddASN1BigInt", nilPanic(func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		st = st.clone()
		add(st, a[0].(Ptr), TLV(2, DerInt(x.bigv(st, a[1]))))
		return one(st)
	}))
	for _, n := range []string{"AddASN1Int64", "AddASN1Uint64"} {
		B(n, func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
			st = st.clone()
			add(st, a[0].(Ptr), TLV(2, DerInt(tm(a[1]))))
			return one(st)
		})
	}
	B("AddASN1OctetString", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		st = st.clone()
		add(st, a[0].(Ptr), TLV(4, st.seqOf(a[1].(SliceV))))
		return one(st)
	})
	B("AddBytes", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		st = st.clone()
		add(st, a[0].(Ptr), st.seqOf(a[1].(SliceV)))
		return one(st)
	})
	bytes := func(st *State, p Ptr) (*State, SliceV) {
		st = st.clone()
		return st, st.newBytes(bld(st, p).T[0])
	}
	B("Bytes", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		s, v := bytes(st, a[0].(Ptr))
		return one(s, v, IfaceV{})
	})
	B("BytesOrPanic", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		s, v := bytes(st, a[0].(Ptr))
		return one(s, v)
	})
	S := func(name string, f Intrinsic) { intr["(*"+cb+"String)."+name] = f }
	intr["("+cb+"String).Empty"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, EqI(a[0].(SliceV).Len, Zero))
	}
	setStr := func(st *State, p Value, t *Term) {
		q := p.(Ptr)
		if q.O == 0 {
			return
		}
		s := st.newBytes(t)
		st.store(q, s)
	}
	strOf := func(st *State, p Value) *Term {
		return Renorm(st.seqOf(st.load(p.(Ptr)).(SliceV)))
	}
	// element: read one element with the tag; k(ok, state, content, whole, rest)
	S("ReadASN1", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		var out []Outcome
		for _, r := range x.derRead(st, strOf(st, a[0]), tm(a[2])) {
			if r.ok {
				setStr(r.st, a[0], r.rest) // the target may be the source
				setStr(r.st, a[1], r.content)
			}
			out = append(out, Outcome{st: r.st, ret: []Value{BC(r.ok)}})
		}
		return out
	})
	S("ReadASN1Element", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		var out []Outcome
		for _, r := range x.derRead(st, strOf(st, a[0]), tm(a[2])) {
			if r.ok {
				setStr(r.st, a[0], r.rest)
				setStr(r.st, a[1], UF("der.tlv", BytesS, x.toInt(tm(a[2])), r.content))
			}
			out = append(out, Outcome{st: r.st, ret: []Value{BC(r.ok)}})
		}
		return out
	})
	S("ReadASN1Bytes", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		var out []Outcome
		for _, r := range x.derRead(st, strOf(st, a[0]), tm(a[2])) {
			if r.ok {
				setStr(r.st, a[0], r.rest) // the target may be the source
				setStr(r.st, a[1], r.content)
			}
			out = append(out, Outcome{st: r.st, ret: []Value{BC(r.ok)}})
		}
		return out
	})
	S("SkipASN1", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		var out []Outcome
		for _, r := range x.derRead(st, strOf(st, a[0]), tm(a[1])) {
			if r.ok {
				setStr(r.st, a[0], r.rest)
			}
			out = append(out, Outcome{st: r.st, ret: []Value{BC(r.ok)}})
		}
		return out
	})
	S("ReadASN1Integer", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		var out []Outcome
		iv := a[1].(IfaceV)
		for _, r := range x.derRead(st, strOf(st, a[0]), IC(2)) {
			if !r.ok {
				out = append(out, Outcome{st: r.st, ret: []Value{False}})
				continue
			}
			for _, q := range x.derInt(r.st, r.content) {
				if !q.ok {
					out = append(out, Outcome{st: q.st, ret: []Value{False}})
					continue
				}
				tgt, ok := iv.V.(Ptr)
				if !ok {
					bail("ReadASN1Integer into %s", iv.T)
				}
				et := iv.T.(*types.Pointer).Elem()
				if isBigInt(et) {
					s := q.st.clone()
					s.store(tgt, q.content)
					setStr(s, a[0], r.rest)
					out = append(out, Outcome{st: s, ret: []Value{True}})
					continue
				}
				k, ok := intKindOf(et)
				if !ok {
					bail("ReadASN1Integer into %s", iv.T)
				}
				in := And(Le(ICB(k.lo()), q.content), Le(q.content, ICB(k.hi())))
				s1, s2 := q.st.clone(), q.st.clone()
				s1.assume(in)
				if s1.ctx.Feasible() {
					cur = s1.ctx
					s1.store(tgt, fromInt(q.content, k))
					setStr(s1, a[0], r.rest)
					out = append(out, Outcome{st: s1, ret: []Value{True}})
				}
				s2.assume(Not(in))
				if s2.ctx.Feasible() {
					out = append(out, Outcome{st: s2, ret: []Value{False}})
				}
			}
		}
		return out
	})
	intr["("+cb+"String).PeekASN1Tag"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		st = st.clone()
		return intr["(*"+cb+"String).PeekASN1Tag"](x, st, []Value{Ptr{O: st.alloc(x.typeIn("golang.org/x/crypto/cryptobyte", "String"), a[0])}, a[1]}, c)
	}
	S("PeekASN1Tag", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		s := strOf(st, a[0])
		ps := pieces(s)
		if len(ps) > 0 && ps[0].Op == OUF && ps[0].Str == "der.tlv" {
			return one(st, EqI(ps[0].Args[0], x.toInt(tm(a[1]))))
		}
		if len(ps) > 0 && ps[0].Op == OSCst && len(ps[0].Str) > 0 {
			return one(st, EqI(IC(int64(ps[0].Str[0])), x.toInt(tm(a[1]))))
		}
		return one(st, And(Lt(Zero, SLen(s)), Eq(At(s, Zero), I2BV(x.toInt(tm(a[1])), 8))))
	})
}

func init() {
	const cb = "golang.org/x/crypto/cryptobyte."
	S := func(name string, f Intrinsic) { intr["(*"+cb+"String)."+name] = f }
	strOf := func(st *State, p Value) *Term {
		cur = st.ctx
		return Renorm(st.seqOf(st.load(p.(Ptr)).(SliceV)))
	}
	set := func(st *State, p Value, v Value) {
		if q := p.(Ptr); q.O != 0 {
			st.store(q, v)
		}
	}
	ret := func(st *State, b bool) Outcome { return Outcome{st: st, ret: []Value{BC(b)}} }
	// read an element with the tag and decode its content
	prim := func(tag int64, dec func(x *Exec, st *State, c *Term, ok func(*State, Value), bad func(*State))) Intrinsic {
		return func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
			var out []Outcome
			for _, r := range x.derRead(st, strOf(st, a[0]), IC(tag)) {
				if !r.ok {
					out = append(out, ret(r.st, false))
					continue
				}
				dec(x, r.st, r.content, func(s *State, v Value) {
					s = s.clone()
					cur = s.ctx
					set(s, a[0], s.newBytes(r.rest)) // the target may be the source
					set(s, a[1], v)
					out = append(out, ret(s, true))
				}, func(s *State) { out = append(out, ret(s, false)) })
			}
			return out
		}
	}
	S("ReadASN1ObjectIdentifier", prim(6, func(x *Exec, st *State, c *Term, ok func(*State, Value), bad func(*State)) {
		for _, r := range x.derOID(st, c) {
			if !r.ok {
				bad(r.st)
				continue
			}
			s := r.st.clone()
			ok(s, s.newSeqSlice(types.Typ[types.Int], r.content))
		}
	}))
	S("ReadASN1BitString", prim(3, func(x *Exec, st *State, c *Term, ok func(*State, Value), bad func(*State)) {
		x.derBits(st, c, func(s *State, by, n *Term) { ok(s, StructV{[]Value{s.newBytes(by), n}}) }, bad)
	}))
	S("ReadASN1BitStringAsBytes", prim(3, func(x *Exec, st *State, c *Term, ok func(*State, Value), bad func(*State)) {
		cur = st.ctx
		c = Renorm(c)
		split(st, And(Lt(Zero, SLen(c)), Eq(At(c, Zero), BVCi(0, 8))), func(s *State) { ok(s, s.newBytes(SSub(c, One, AddC(SLen(c), -1)))) }, bad)
	}))
	S("ReadASN1Boolean", prim(1, func(x *Exec, st *State, c *Term, ok func(*State, Value), bad func(*State)) {
		cur = st.ctx
		c = Renorm(c)
		b := At(c, Zero)
		split(st, And(EqI(SLen(c), One), Or(Eq(b, BVCi(0, 8)), Eq(b, BVCi(255, 8)))), func(s *State) { ok(s, Eq(b, BVCi(255, 8))) }, bad)
	}))
	S("ReadASN1Enum", prim(10, func(x *Exec, st *State, c *Term, ok func(*State, Value), bad func(*State)) {
		k, _ := intKindOf(types.Typ[types.Int])
		for _, r := range x.derInt(st, c) {
			if !r.ok {
				bad(r.st)
				continue
			}
			split(r.st, And(Le(ICB(k.lo()), r.content), Le(r.content, ICB(k.hi()))), func(s *State) { ok(s, r.content) }, bad)
		}
	}))
	for _, t := range []struct {
		n   string
		tag int64
	}{{"ReadASN1UTCTime", 23}, {"ReadASN1GeneralizedTime", 24}} {
		t := t
		S(t.n, prim(t.tag, func(x *Exec, st *State, c *Term, ok func(*State, Value), bad func(*State)) {
			tt := x.typeIn("time", "Time")
			cur = st.ctx
			for _, r := range x.memoPrim(st, Renorm(c), "cb.timeok"+sprintf("%d", t.tag), func() *Term { return Fresh("time", US("opq")) }, func(*Term) []*Term { return nil }) {
				if !r.ok {
					bad(r.st)
					continue
				}
				ok(r.st, x.opaqueTime(r.st, tt, r.content))
			}
		}))
	}
	anyElem := func(whole bool) Intrinsic {
		return func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
			var out []Outcome
			for _, r := range x.derReadAny(st, strOf(st, a[0])) {
				if !r.ok {
					out = append(out, ret(r.st, false))
					continue
				}
				s := r.st.clone()
				cur = s.ctx
				v := r.content
				if whole {
					v = UF("der.tlv", BytesS, r.tag, r.content)
				}
				set(s, a[0], s.newBytes(r.rest))
				set(s, a[1], s.newBytes(v))
				if q := a[2].(Ptr); q.O != 0 {
					s.store(q, I2BV(r.tag, 8))
				}
				out = append(out, ret(s, true))
			}
			return out
		}
	}
	S("ReadAnyASN1", anyElem(false))
	S("ReadAnyASN1Element", anyElem(true))
	// optional element: absent when the next tag differs
	opt := func(x *Exec, st *State, a []Value, tag *Term, found func(s *State, content, rest *Term) []Outcome, absent func(s *State) []Outcome) []Outcome {
		s := strOf(st, a[0])
		tag = x.toInt(tag)
		var out []Outcome
		for _, r := range x.derRead(st, s, tag) {
			if r.ok {
				out = append(out, found(r.st, r.content, r.rest)...)
				continue
			}
			// absent, or present and malformed
			ps := pieces(s)
			if SLen(s) == Zero || ps[0].Op == OUF && ps[0].Str == "der.tlv" {
				out = append(out, absent(r.st)...)
				continue
			}
			if ps[0].Op == OSCst && tag.IsC() {
				if ps[0].Str[0] != byte(tag.Int64()) {
					out = append(out, absent(r.st)...)
				} else {
					out = append(out, ret(r.st, false))
				}
				continue
			}
			split(r.st, And(Lt(Zero, SLen(s)), Eq(At(s, Zero), I2BV(tag, 8))), func(q *State) { out = append(out, ret(q, false)) },
				func(q *State) { out = append(out, absent(q)...) })
		}
		return out
	}
	S("ReadOptionalASN1", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return opt(x, st, a, tm(a[3]), func(s *State, content, rest *Term) []Outcome {
			s = s.clone()
			cur = s.ctx
			set(s, a[0], s.newBytes(rest))
			set(s, a[1], s.newBytes(content))
			set(s, a[2], True)
			return []Outcome{ret(s, true)}
		}, func(s *State) []Outcome {
			s = s.clone()
			set(s, a[2], False)
			return []Outcome{ret(s, true)}
		})
	})
	S("SkipOptionalASN1", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return opt(x, st, a, tm(a[1]), func(s *State, content, rest *Term) []Outcome {
			s = s.clone()
			cur = s.ctx
			set(s, a[0], s.newBytes(rest))
			return []Outcome{ret(s, true)}
		}, func(s *State) []Outcome { return []Outcome{ret(s, true)} })
	})
	S("ReadOptionalASN1Integer", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		iv, dv := a[1].(IfaceV), a[3].(IfaceV)
		tgt, okp := iv.V.(Ptr)
		et := iv.T.(*types.Pointer).Elem()
		k, oki := intKindOf(et)
		if !okp || !oki {
			bail("ReadOptionalASN1Integer into %s", iv.T)
		}
		return opt(x, st, a, tm(a[2]), func(s *State, content, rest *Term) []Outcome {
			var out []Outcome
			for _, r := range x.derRead(s, content, IC(2)) {
				if !r.ok {
					out = append(out, ret(r.st, false))
					continue
				}
				for _, q := range x.derInt(r.st, r.content) {
					if !q.ok {
						out = append(out, ret(q.st, false))
						continue
					}
					split(q.st, And(EqI(SLen(r.rest), Zero), Le(ICB(k.lo()), q.content), Le(q.content, ICB(k.hi()))), func(z *State) {
						z = z.clone()
						z.store(tgt, fromInt(q.content, k))
						set(z, a[0], z.newBytes(rest))
						out = append(out, ret(z, true))
					}, func(z *State) { out = append(out, ret(z, false)) })
				}
			}
			return out
		}, func(s *State) []Outcome {
			s = s.clone()
			s.store(tgt, dv.V)
			return []Outcome{ret(s, true)}
		})
	})
}

var derParts = map[[2]*Term][2]*Term{}

type derRes struct {
	st            *State
	ok            bool
	content, rest *Term
}

// derRead: read one element with the given tag from s.
func (x *Exec) derRead(st *State, s, tag *Term) []derRes {
	cur = st.ctx
	s = Renorm(s)
	tag = x.toInt(tag)
	if SLen(s) == Zero {
		return []derRes{{st: st}}
	}
	ps := pieces(s)
	if ps[0].Op == OUF && ps[0].Str == "der.tlv" {
		if EqI(ps[0].Args[0], tag) == True {
			return []derRes{{st: st.clone(), ok: true, content: ps[0].Args[1], rest: SCat(BytesS, ps[1:]...)}}
		}
		var out []derRes
		split(st, EqI(ps[0].Args[0], tag), func(t *State) {
			out = append(out, derRes{st: t, ok: true, content: ps[0].Args[1], rest: SCat(BytesS, ps[1:]...)})
		}, func(f *State) { out = append(out, derRes{st: f}) })
		return out
	}
	if ps[0].Op == OSCst && tag.IsC() {
		if tg, c, r, ok := parseConstTLV(ps[0].Str); ok {
			if tg != tag.Int64() {
				return []derRes{{st: st}}
			}
			return []derRes{{st: st.clone(), ok: true, content: SC(c), rest: SCat(BytesS, append([]*Term{SC(r)}, ps[1:]...)...)}}
		}
		if len(ps) == 1 || ps[0].Str[0] != byte(tag.Int64()) {
			return []derRes{{st: st}}
		}
	}
	has := UF("der.has", BoolS, tag, s)
	var out []derRes
	d := Decide(has)
	if d != 1 {
		f := st.clone()
		f.assume(Not(has))
		if f.ctx.Feasible() {
			out = append(out, derRes{st: f})
		}
	}
	if d != -1 {
		t := st.clone()
		t.assume(has)
		// the parts are functions of the string
		k := [2]*Term{tag, s}
		if _, ok := derParts[k]; !ok {
			derParts[k] = [2]*Term{FreshBytes("content"), FreshBytes("rest")}
		}
		content, rest := derParts[k][0], derParts[k][1]
		cur = t.ctx
		t.assume(Eq(At(s, Zero), I2BV(tag, 8)))
		t.assume(Eq(s, SCat(BytesS, UF("der.tlv", BytesS, tag, content), rest)))
		if t.ctx.Feasible() {
			out = append(out, derRes{st: t, ok: true, content: content, rest: rest})
		}
	}
	return out
}

// derInt: the content of an INTEGER; content holds the value.
func (x *Exec) derInt(st *State, c *Term) []derRes {
	save := cur
	cur = st.ctx
	c = Renorm(c)
	cur = save
	if c.Op == OUF && c.Str == "der.int" {
		return []derRes{{st: st, ok: true, content: c.Args[0]}}
	}
	if c.Op == OSCst {
		n, ok := parseConstInt(c.Str)
		if !ok {
			return []derRes{{st: st}}
		}
		return []derRes{{st: st, ok: true, content: ICB(n)}}
	}
	has := UF("der.isint", BoolS, c)
	var out []derRes
	f := st.clone()
	f.assume(Not(has))
	if f.ctx.Feasible() {
		out = append(out, derRes{st: f})
	}
	t := st.clone()
	t.assume(has)
	k := [2]*Term{c, nil}
	if _, ok := derParts[k]; !ok {
		derParts[k] = [2]*Term{FreshR("dint", nil, nil), nil}
	}
	v := derParts[k][0]
	t.assume(Eq(c, DerInt(v)))
	if t.ctx.Feasible() {
		out = append(out, derRes{st: t, ok: true, content: v})
	}
	return out
}

var _ = big.NewInt

func init() {
	const at = "(golang.org/x/crypto/cryptobyte/asn1.Tag)."
	or := func(bit int64) Intrinsic {
		return func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
			t := x.toInt(tm(a[0]))
			k, _ := intKindOf(types.Typ[types.Uint8])
			if t.IsC() {
				return one(st, fromInt(IC(t.Int64()|bit), k))
			}
			b := ModC(DivC(t, big.NewInt(bit)), big.NewInt(2))
			return one(st, fromInt(Add(t, MulC(Sub(One, b), big.NewInt(bit))), k))
		}
	}
	intr[at+"ContextSpecific"] = or(0x80)
	intr[at+"Constructed"] = or(0x20)
}

package main

// Decoding as an uninterpreted function of the bytes: asn1.Unmarshal is
// deterministic, so the value read for a structure description (field types in
// order and their parameters; names do not matter) from given bytes into a zero
// target is a function of description and bytes. Used for harnesses flagged
// absdecode, for bytes of unknown structure; bytes that were put together by
// asn1.Marshal are decoded exactly.

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"reflect"
)

func asnDesc(t types.Type) string {
	for _, n := range [][2]string{{"encoding/asn1", "ObjectIdentifier"}, {"encoding/asn1", "RawValue"}, {"encoding/asn1", "RawContent"}, {"encoding/asn1", "BitString"},
		{"encoding/asn1", "Flag"}, {"encoding/asn1", "Enumerated"}, {"time", "Time"}} {
		if namedIs(t, n[0], n[1]) {
			return n[1]
		}
	}
	if p, ok := t.(*types.Pointer); ok && isBigInt(p.Elem()) {
		return "bigInt"
	}
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Name()
	case *types.Slice:
		return "[]" + asnDesc(u.Elem())
	case *types.Struct:
		s := "{"
		for i := 0; i < u.NumFields(); i++ {
			if !u.Field(i).Exported() {
				return ""
			}
			d := asnDesc(u.Field(i).Type())
			if d == "" {
				return ""
			}
			p := asn1Params(reflect.StructTag(u.Tag(i)).Get("asn1"))
			if p.def != nil {
				d += "=" + p.def.String()
			}
			p.def = nil
			s += fmt.Sprintf("%s%v;", d, p)
		}
		return s + "}"
	}
	return ""
}

// asnAbstract decodes b into a value of structure type t, if that applies.
func (x *Exec) asnAbstract(st *State, cv Value, t types.Type, p asn1Par, b *Term) []asnDec {
	if !x.absDec || isRaw(t) || !(p == asn1Par{}) {
		return nil
	}
	switch u := under(t).(type) {
	case *types.Struct:
		if namedIs(t, "time", "Time") || namedIs(t, "encoding/asn1", "BitString") {
			return nil
		}
	case *types.Slice:
		if _, ok := under(u.Elem()).(*types.Struct); !ok || isRaw(u.Elem()) {
			return nil
		}
	default:
		return nil
	}
	cur = st.ctx
	b = Renorm(b)
	if b.Op == OSCst || b.Op == OUF && b.Str == "der.tlv" || b.Op == OCat {
		return nil
	}
	if !sameValue(cv, zeroValue(t)) {
		return nil
	}
	d := asnDesc(t)
	if d == "" {
		return nil
	}
	h := fnv.New32a()
	h.Write([]byte(d))
	d = fmt.Sprintf("%08x", h.Sum32())
	var out []asnDec
	split(st, UF("asn1.ok."+d, BoolS, b), func(s *State) {
		rest := UF("asn1.rest."+d, BytesS, b)
		s.assume(Lt(SLen(rest), SLen(b)))
		if u, ok := under(t).(*types.Slice); ok {
			n := UF("asn1.count."+d, IntS, b)
			s.assume(Le(Zero, n))
			for k := 0; k <= asnListMax+1; k++ {
				s2 := s.clone()
				if k > asnListMax {
					s2.assume(Lt(IC(asnListMax), n))
				} else {
					s2.assume(EqI(n, IC(int64(k))))
				}
				if !s2.ctx.Feasible() {
					continue
				}
				cur = s2.ctx
				if k > asnListMax {
					v := OpaqueV{T: t, X: UF("asn1.value."+d, US("opq"), b)}
					s2.assume(EqI(UF("list.len", IntS, v.X), n))
					out = append(out, asnDec{s2, v, rest, ""})
					continue
				}
				var vs []Value
				for i := 0; i < k; i++ {
					vs = append(vs, x.absValue(s2, u.Elem(), false, fmt.Sprintf("%s.%d", d, i), b))
				}
				out = append(out, asnDec{s2, s2.newListSlice(u.Elem(), vs), rest, ""})
			}
			return
		}
		out = append(out, asnDec{s, x.absValue(s, t, false, d, b), rest, ""})
	}, func(s *State) { out = append(out, asnDec{s, nil, nil, "asn1: structure error"}) })
	return out
}

// absValue: the component at path of what b encodes.
func (x *Exec) absValue(st *State, t types.Type, optional bool, path string, b *Term) Value {
	cur = st.ctx
	name := "asn1.field." + path
	bytes := func(suffix string) Value {
		s := st.newBytes(UF(name+suffix, BytesS, b))
		s.Maybe = true
		return s
	}
	switch {
	case namedIs(t, "encoding/asn1", "ObjectIdentifier"):
		s := st.newSeqSlice(types.Typ[types.Int], UF(name, SeqS(IntS), b))
		s.Maybe = true
		return s
	case isRaw(t):
		cl, tag := UF(name+".class", IntS, b), UF(name+".tag", IntS, b)
		st.assume(And(Le(Zero, cl), Le(cl, IC(3))))
		st.assume(Le(Zero, tag))
		return StructV{[]Value{cl, tag, UF(name+".compound", BoolS, b), bytes(".bytes"), bytes(".full")}}
	case namedIs(t, "encoding/asn1", "BitString"):
		n := UF(name+".bits", IntS, b)
		v := bytes("").(SliceV)
		st.assume(And(Le(n, Mul(IC(8), v.Len)), Lt(Sub(Mul(IC(8), v.Len), IC(8)), n)))
		return StructV{[]Value{v, n}}
	case namedIs(t, "time", "Time"):
		return x.opaqueTime(st, t, UF(name, BytesS, b))
	}
	if p, ok := t.(*types.Pointer); ok && isBigInt(p.Elem()) && !optional {
		return x.newBig(st, UF(name, IntS, b))
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return UF(name, BoolS, b)
		case u.Info()&types.IsString != 0:
			return UF(name, BytesS, b)
		}
		if k, ok := intKindOf(t); ok {
			n := UF(name, IntS, b)
			st.assume(And(Le(ICB(k.lo()), n), Le(n, ICB(k.hi()))))
			if !k.bv {
				return n
			}
			return fromInt(n, k)
		}
	case *types.Slice:
		if e, ok := under(u.Elem()).(*types.Basic); ok && e.Kind() == types.Uint8 {
			return bytes("")
		}
		v := OpaqueV{T: t, X: UF(name, US("opq"), b)}
		st.assume(Le(Zero, UF("list.len", IntS, v.X)))
		return v
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			p := asn1Params(reflect.StructTag(u.Tag(i)).Get("asn1"))
			f[i] = x.absValue(st, u.Field(i).Type(), optional || p.optional, fmt.Sprintf("%s.%d", path, i), b)
		}
		return StructV{f}
	}
	bail("abstract decoding of %s", t)
	return nil
}


func init() {
	intr["encoding/hex.EncodeToString"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		b := st.seqOf(a[0].(SliceV))
		r := UF("hex.encode", BytesS, b)
		st = st.clone()
		st.assume(EqI(SLen(r), Mul(IC(2), SLen(b))))
		return one(st, r)
	}
}

package main

import (
	"go/types"
	"math/big"
)

// Strings, runes and UTF-16. runes(s) is the sequence of code points that
// ranging over s yields (every one a Unicode scalar value, at most one per
// byte); utf8enc(x) is the string of the code points x. For sequences of
// scalar values they are inverse to each other: runes(utf8enc(x)) = x, and
// utf8enc(runes(s)) = s when s is valid UTF-8.

func isScalar(r *Term) *Term {
	return And(Le(Zero, r), Le(r, IC(0x10ffff)), Or(Lt(r, IC(0xd800)), Lt(IC(0xdfff), r)))
}

// elemRange of sequence-valued functions (values of Int sort).
var elemRange = map[string][2]int64{"runes": {0, 0x10ffff}, "utf16dec": {0, 0x10ffff}}

// allOf: the property p holds of every element of s, provably.
func allOf(c *Ctx, s *Term, p func(*Term) *Term) bool {
	v := Fresh("sk", IntS)
	c2 := c.Assume(And(Le(Zero, v), Lt(v, SLen(s))))
	return (&prover{}).prove(c2, p(At(s, v)), 0)
}

// sameSeq resolves s to runes(x) when it is provably that sequence.
func (x *Exec) utf8Enc(st *State, s *Term) *Term {
	s = Renorm(s)
	for _, r := range runeTerms(s, nil, map[*Term]bool{}) {
		if (&prover{}).prove(st.ctx, Eq(s, r), 0) {
			s = r
			break
		}
	}
	if s.Op == OUF && s.Str == "runes" {
		v := UF("utf8.valid", BoolS, s.Args[0])
		if (&prover{}).prove(st.ctx, v, 0) {
			return s.Args[0]
		}
	}
	return UF("utf8enc", BytesS, s)
}

func runeTerms(t *Term, out []*Term, seen map[*Term]bool) []*Term {
	if seen[t] {
		return out
	}
	seen[t] = true
	if t.Op == OUF && t.Str == "runes" {
		return append(out, t)
	}
	for _, a := range t.Args {
		out = runeTerms(a, out, seen)
	}
	return out
}

// runesOf decodes a string term.
func (x *Exec) runesOf(st *State, s *Term) *Term {
	s = Renorm(s)
	if s.Op == OUF && s.Str == "utf8enc" && allOf(st.ctx, s.Args[0], isScalar) {
		return s.Args[0]
	}
	return Runes(s)
}

func init() {
	ufInfo["runes"] = &ufI{facts: func(t *Term) []*Term { return []*Term{Le(SLen(t), SLen(t.Args[0]))} }}
	ufInfo["utf8enc"] = &ufI{facts: func(t *Term) []*Term { return []*Term{Le(SLen(t.Args[0]), SLen(t))} }}
	ufInfo["utf8.valid"] = &ufI{simp: func(a []*Term) *Term {
		if a[0].Op == OSCst {
			for _, r := range a[0].Str {
				if r == 0xfffd {
					return nil
				}
			}
			return True
		}
		return nil
	}}
	intr["unicode/utf8.ValidString"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, UF("utf8.valid", BoolS, Renorm(tm(a[0]))))
	}
	intr["unicode/utf8.Valid"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, UF("utf8.valid", BoolS, Renorm(st.seqOf(a[0].(SliceV)))))
	}
	// a string has only bytes below 0x80 exactly when its code points are
	vIntr["vASCII"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		s := Renorm(tm(a[0]))
		cur = st.ctx
		by := ia5(s)
		rs := x.runesOf(st, s)
		v := Fresh("i", IntS)
		ru := Forall(SLen(rs), v, Lt(At(rs, v), IC(128)))
		var out []Outcome
		split(st, by, func(q *State) { q.assume(ru); out = append(out, one(q, True)...) }, func(q *State) {
			q.assume(Not(ru))
			out = append(out, one(q, False)...)
		})
		return out
	}
	intr["unicode/utf8.RuneCountInString"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, SLen(x.runesOf(st, tm(a[0]))))
	}
	intr["unicode/utf16.IsSurrogate"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		r := x.toInt(tm(a[0]))
		return one(st, And(Le(IC(0xd800), r), Le(r, IC(0xdfff))))
	}
	intr["unicode/utf16.EncodeRune"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		r := x.toInt(tm(a[0]))
		bmp := Or(Lt(r, IC(0x10000)), Lt(IC(0x10ffff), r))
		o := AddC(r, -0x10000)
		hi := Add(IC(0xd800), DivC(o, big.NewInt(0x400)))
		lo := Add(IC(0xdc00), ModC(o, big.NewInt(0x400)))
		return one(st, Ite(bmp, IC(0xfffd), hi), Ite(bmp, IC(0xfffd), lo))
	}
	ufInfo["utf16dec"] = &ufI{facts: func(t *Term) []*Term { return []*Term{Le(SLen(t), SLen(t.Args[0]))} }}
	intr["unicode/utf16.Decode"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		s := Renorm(st.seqOf(a[0].(SliceV)))
		st = st.clone()
		var r *Term
		if allOf(st.ctx, s, func(u *Term) *Term { u = x.toInt(u); return Or(Lt(u, IC(0xd800)), Lt(IC(0xdfff), u)) }) {
			v := Fresh("i", IntS)
			r = Build(SLen(s), v, x.toInt(At(s, v)))
		} else {
			r = UF("utf16dec", SeqS(IntS), s)
		}
		return one(st, st.newSeqSlice(types.Typ[types.Int32], r))
	}
}

package main

import "go/types"

// Block ciphers and CBC. A block cipher is a family of permutations, CBC over it an
// uninterpreted function of the cipher, its key material, the chaining value and
// the data, with cbc.dec inverting cbc.enc.

type blockID struct {
	kind string
	key  []*Term
	size int64
}

func leavesOf(v Value) []*Term {
	switch v := v.(type) {
	case *Term:
		return []*Term{v}
	case StructV:
		var r []*Term
		for _, f := range v.F {
			r = append(r, leavesOf(f)...)
		}
		return r
	case ArrV:
		var r []*Term
		for _, f := range v.E {
			r = append(r, leavesOf(f)...)
		}
		return r
	}
	bail("cipher key material %T", v)
	return nil
}

// block describes the cipher.Block iv.
func (x *Exec) block(st *State, iv IfaceV, pos string) blockID {
	p, ok := iv.V.(Ptr)
	if !ok || p.O == 0 {
		bail("cipher block %T", iv.V)
	}
	if m, ok := st.load(p).(ModelV); ok {
		if m.Kind != "block" {
			bail("cipher block %s", m.Kind)
		}
		return blockID{"3des", m.T, 8}
	}
	fn := x.prog.LookupMethod(iv.T, nil, "BlockSize")
	if fn == nil {
		bail("no BlockSize on %s", iv.T)
	}
	os := x.Call(st, fn, []Value{iv.V}, nil, pos)
	if len(os) != 1 || os[0].panic != "" {
		bail("BlockSize of %s", iv.T)
	}
	x.used["cipher.NewCBCEncrypter/Decrypter over "+iv.T.String()+": Encrypt and Decrypt are inverse (C17)"]++
	return blockID{iv.T.String(), leavesOf(st.load(p)), int64(concreteIdx(os[0].ret[0].(*Term)))}
}

func init() {
	intr["crypto/des.NewTripleDESCipher"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		k := st.seqOf(a[0].(SliceV))
		var out []Outcome
		okc := EqI(SLen(k), IC(24))
		if Decide(okc) != 1 {
			s := st.clone()
			s.assume(Not(okc))
			cur = s.ctx
			if s.ctx.Feasible() {
				out = append(out, one(s, IfaceV{}, x.newErr(s, "crypto/des: invalid key size"))...)
			}
		}
		if Decide(okc) == 0 {
			return out
		}
		s := st.clone()
		s.assume(okc)
		cur = s.ctx
		t := x.typeIn("crypto/des", "tripleDESCipher")
		o := s.alloc(t, ModelV{Kind: "block", T: []*Term{k}})
		return append(out, one(s, IfaceV{T: types.NewPointer(t), V: Ptr{O: o}}, IfaceV{})...)
	}
	intr["crypto/rand.Read"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		b := a[0].(SliceV)
		bad := st.clone()
		x.havocArg(bad, b)
		out := []Outcome{{st: bad, ret: []Value{Zero, x.newErr(bad, "crypto/rand")}}}
		s := st.clone()
		(&frame{x: x}).writeSeq(s, b, FreshSeq("rnd", ByteS, b.Len))
		return append(out, one(s, b.Len, IfaceV{})...)
	}
	intr["model.block.BlockSize"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome { return one(st, IC(8)) }
	mk := func(dir string) Intrinsic {
		return func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
			iv, ok := a[0].(IfaceV)
			if !ok || iv.T == nil {
				return []Outcome{{st: st, panic: "nil cipher", where: c.pos}}
			}
			b := x.block(st, iv, c.pos)
			ivb := st.seqOf(a[1].(SliceV))
			var out []Outcome
			okc := EqI(SLen(ivb), IC(b.size))
			if Decide(okc) != 1 {
				s := st.clone()
				s.assume(Not(okc))
				if s.ctx.Feasible() {
					out = append(out, Outcome{st: s, panic: "cipher.NewCBC: IV length must equal block size", where: c.pos})
				}
			}
			s := st.clone()
			s.assume(okc)
			cur = s.ctx
			t := x.typeIn("crypto/des", "tripleDESCipher")
			o := s.alloc(t, ModelV{Kind: "cbc", T: append([]*Term{ivb, IC(b.size)}, b.key...), V: []Value{SC(dir), SC(b.kind)}})
			return append(out, one(s, IfaceV{T: types.NewPointer(t), V: Ptr{O: o}})...)
		}
	}
	intr["crypto/cipher.NewCBCEncrypter"] = mk("enc")
	intr["crypto/cipher.NewCBCDecrypter"] = mk("dec")
	intr["model.cbc.BlockSize"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, st.load(a[0].(Ptr)).(ModelV).T[1])
	}
	intr["model.cbc.CryptBlocks"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		p := a[0].(Ptr)
		m := st.load(p).(ModelV)
		dst, src := a[1].(SliceV), a[2].(SliceV)
		dir, kind := m.V[0].(*Term).Str, m.V[1].(*Term).Str
		bs := m.T[1]
		var out []Outcome
		okc := And(EqI(ModC(src.Len, bs.N), Zero), Le(src.Len, dst.Len))
		if Decide(okc) != 1 {
			s := st.clone()
			s.assume(Not(okc))
			if s.ctx.Feasible() {
				out = append(out, Outcome{st: s, panic: "crypto/cipher: input not full blocks or output smaller than input", where: c.pos})
			}
		}
		s := st.clone()
		s.assume(okc)
		cur = s.ctx
		if !s.ctx.Feasible() {
			return out
		}
		if !src.Nil && !dst.Nil && sameValue(src.B, dst.B) && src.Off != dst.Off {
			bail("CryptBlocks over overlapping buffers")
		}
		in := s.seqOf(src)
		r := CBC(dir, kind, m.T[0], m.T[2:], in)
		(&frame{x: x}).writeSeq(s, dst, r)
		// the chaining value is the last ciphertext block
		ct := r
		if dir == "dec" {
			ct = in
		}
		last := Ite(EqI(SLen(in), Zero), m.T[0], SSub(ct, Sub(SLen(in), bs), bs))
		s.store(p, ModelV{Kind: "cbc", T: append([]*Term{last}, m.T[1:]...), V: m.V})
		return append(out, one(s)...)
	}
}

func cbcName(dir, kind string) string { return "cbc." + dir + "." + kind }

// CBC: the chained encryption or decryption of in.
func CBC(dir, kind string, iv *Term, key []*Term, in *Term) *Term {
	n := cbcName(dir, kind)
	nk := len(key)
	if ufInfo[n] == nil {
		other := cbcName("enc", kind)
		if dir == "enc" {
			other = cbcName("dec", kind)
		}
		ufInfo[n] = &ufI{
			lenOf: func(a []*Term) *Term { return SLen(a[len(a)-1]) },
			simp: func(a []*Term) *Term {
				d := a[len(a)-1]
				if SLen(d) == Zero {
					return Empty(ByteS)
				}
				if d.Op == OUF && d.Str == other && len(d.Args) == len(a) {
					for i := 0; i <= nk; i++ {
						if d.Args[i] != a[i] {
							return nil
						}
					}
					return d.Args[len(a)-1]
				}
				return nil
			},
		}
	}
	return UF(n, BytesS, append(append([]*Term{iv}, key...), in)...)
}

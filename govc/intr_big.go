package main

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// math/big.Int: the object holds a mathematical integer.
//
// be.fix(x,n): the n-byte big-endian encoding of x mod 256^n
// be.nb(x):    number of bytes of x >= 0
// be.int(s):   the integer encoded by s



func isZeros(s *Term) bool {
	switch s.Op {
	case OSCst:
		for i := 0; i < len(s.Str); i++ {
			if s.Str[i] != 0 {
				return false
			}
		}
		return true
	case ORep:
		return s.Args[0] == BVCi(0, 8)
	}
	return false
}

func Fix(x, n *Term) *Term  { return UF("be.fix", BytesS, x, n) }
func NB(x *Term) *Term      { return UF("be.nb", IntS, x) }
var zeroByVar *Term

func BEInt(s *Term) *Term   { return UF("be.int", IntS, s) }
func BEBytes(x *Term) *Term { return Fix(x, NB(x)) }

func pow256(n int64) *big.Int { return pow2(int(8 * n)) }

func init() {
	ufInfo["be.fix"] = &ufI{
		lenOf: func(a []*Term) *Term { return a[1] },
		simp: func(a []*Term) *Term {
			x, n := a[0], a[1]
			if n == Zero {
				return SC("")
			}
			if x.IsC() && n.IsInt64() && x.N.Sign() >= 0 && n.Int64() < 4096 {
				b := make([]byte, n.Int64())
				m := new(big.Int).Mod(x.N, pow256(n.Int64()))
				return SC(string(m.FillBytes(b)))
			}
			if x.Op == OMod && n.IsInt64() && n.Int64() >= 0 && n.Int64() < 4096 && new(big.Int).Mod(x.N, pow256(n.Int64())).Sign() == 0 {
				return Fix(x.Args[0], n)
			}
			if x.Op == OUF && x.Str == "be.int" && SLen(x.Args[0]) == n {
				return x.Args[0]
			}
			if x.Op == OBV2I && n.IsInt64() && n.Int64() <= 8 && n.Int64() >= 1 {
				var us []*Term
				v := BZext(x.Args[0], int(8*maxI(n.Int64(), int64((x.Args[0].S.W+7)/8))))
				for i := n.Int64() - 1; i >= 0; i-- {
					us = append(us, BExt(v, int(8*i+7), int(8*i)))
				}
				return Lit(ByteS, us...)
			}
			return nil
		},
	}
	ufInfo["be.nb"] = &ufI{
		simp: func(a []*Term) *Term {
			x := a[0]
			if x.IsC() && x.N.Sign() >= 0 {
				return IC(int64((x.N.BitLen() + 7) / 8))
			}
			if lo, hi := x.Range(); lo != nil && hi != nil && lo.Sign() > 0 {
				if l, h := (lo.BitLen()+7)/8, (hi.BitLen()+7)/8; l == h {
					return IC(int64(l))
				}
			}
			return nil
		},
		rangeOf: func(t *Term) (lo, hi *big.Int) {
			lo, hi = new(big.Int), lenMax
			if xl, xh := t.Args[0].Range(); xh != nil && xh.Sign() >= 0 {
				hi = big.NewInt(int64((xh.BitLen() + 7) / 8))
				if xl != nil && xl.Sign() > 0 {
					lo = big.NewInt(int64((xl.BitLen() + 7) / 8))
				}
			}
			return
		},
		facts: func(t *Term) []*Term {
			x := t.Args[0]
			nn := Le(Zero, x)
			fs := []*Term{Implies(nn, iff(EqI(t, Zero), EqI(x, Zero)))}
			for _, k := range []int64{1, 31, 32, 33, 64} {
				fs = append(fs, Implies(nn, iff(Le(t, IC(k)), Lt(x, ICB(pow256(k))))))
			}
			return fs
		},
	}
	ufInfo["be.int"] = &ufI{
		simp: func(a []*Term) *Term {
			s := a[0]
			switch s.Op {
			case OSCst:
				return ICB(new(big.Int).SetBytes([]byte(s.Str)))
			case OUF:
				if s.Str == "be.fix" {
					x, n := s.Args[0], s.Args[1]
					if n == NB(x) {
						return x
					}
					lo, hi := x.Range()
					if n.IsInt64() {
						if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(pow256(n.Int64())) < 0 {
							return x
						}
						m := ModC(x, pow256(n.Int64()))
						if m.Op == OMod && Decide(And(Le(Zero, x), Lt(x, ICB(pow256(n.Int64()))))) == 1 {
							return x
						}
						return m
					}
				}
			case OLit:
				if len(s.Args) <= 8 {
					r := Zero
					for _, u := range s.Args {
						r = Add(MulC(r, big.NewInt(256)), BV2I(u))
					}
					return r
				}
			case OSub:
				// leading bytes known to be zero do not count
				x, off, n := s.Args[0], s.Args[1], s.Args[2]
				if cur != nil && !off.IsC() && Add(off, n) == SLen(x) {
					if zeroByVar == nil {
						zeroByVar = Fresh("zb", IntS)
					}
					if cur.Has(Forall(off, zeroByVar, Eq(At(x, zeroByVar), BVCi(0, 8)))) {
						return BEInt(x)
					}
				}
			case OCat:
				if isZeros(s.Args[0]) {
					return BEInt(SCat(s.S, s.Args[1:]...))
				}
			}
			return nil
		},
		rangeOf: func(t *Term) (lo, hi *big.Int) {
			lo = new(big.Int)
			if n := SLen(t.Args[0]); n.IsInt64() && n.Int64() <= 4096 {
				hi = new(big.Int).Sub(pow256(n.Int64()), bigs[0])
			}
			return
		},
	}
	regBig()
}

func maxI(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func iff(a, b *Term) *Term { return And(Implies(a, b), Implies(b, a)) }

func (x *Exec) setBig(st *State, z Value, t *Term) []Outcome {
	p := z.(Ptr)
	if p.O == 0 {
		panic(nilDeref{})
	}
	st = st.clone()
	st.store(p, t)
	return one(st, p)
}

func nilPanic(f Intrinsic) Intrinsic {
	return func(x *Exec, st *State, a []Value, c *CallCtx) (out []Outcome) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(nilDeref); ok {
					out = []Outcome{{st: st, panic: "nil pointer passed to " + c.name, where: c.pos}}
					return
				}
				panic(r)
			}
		}()
		return f(x, st, a, c)
	}
}

func isPrimeC(n *big.Int) bool { return n.ProbablyPrime(20) }

var primeMemo = map[string]bool{}

func isPrime(n *big.Int) bool {
	k := n.String()
	v, ok := primeMemo[k]
	if !ok {
		v = isPrimeC(n)
		primeMemo[k] = v
	}
	return v
}

func cmp3(a, b *Term) *Term { return Ite(Lt(a, b), IC(-1), Ite(EqI(a, b), Zero, One)) }

func absT(t *Term) *Term {
	if Decide(Le(Zero, t)) == 1 {
		return t
	}
	return Ite(Le(Zero, t), t, Neg(t))
}

func regBig() {
	in := intr
	R := func(name string, f Intrinsic) { in["(*math/big.Int)."+name] = nilPanic(f) }
	bin := func(name string, f func(a, b *Term) *Term) {
		R(name, func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
			return x.setBig(st, a[0], f(x.bigv(st, a[1]), x.bigv(st, a[2])))
		})
	}
	bin("Add", func(a, b *Term) *Term { return Add(a, b) })
	bin("Sub", Sub)
	bin("Mul", Mul)
	un := func(name string, f func(a *Term) *Term) {
		R(name, func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
			return x.setBig(st, a[0], f(x.bigv(st, a[1])))
		})
	}
	un("Set", func(a *Term) *Term { return a })
	un("Neg", Neg)
	un("Abs", absT)
	in["math/big.NewInt"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		st = st.clone()
		return one(st, x.newBig(st, tm(a[0])))
	}
	R("SetInt64", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome { return x.setBig(st, a[0], tm(a[1])) })
	R("SetUint64", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome { return x.setBig(st, a[0], tm(a[1])) })
	R("SetBytes", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return x.setBig(st, a[0], BEInt(st.seqOf(a[1].(SliceV))))
	})
	R("Bytes", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		t := absT(x.bigv(st, a[0]))
		st = st.clone()
		return one(st, st.newBytes(BEBytes(t)))
	})
	R("FillBytes", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		t := absT(x.bigv(st, a[0]))
		s := a[1].(SliceV)
		fits := Le(NB(t), s.Len)
		if s.Len.IsInt64() && s.Len.Int64() < 4096 {
			fits = Ge0(Sub(ICB(new(big.Int).Sub(pow256(s.Len.Int64()), big.NewInt(1))), t))
		}
		var out []Outcome
		if Decide(fits) != 1 {
			s2 := st.clone()
			s2.assume(Not(fits))
			if s2.ctx.Feasible() {
				out = append(out, Outcome{st: s2, panic: "FillBytes: buffer too small", where: c.pos})
			}
		}
		st = st.clone()
		st.assume(fits)
		if !st.ctx.Feasible() {
			return out
		}
		cur = st.ctx
		(&frame{x: x}).writeSeq(st, s, Fix(t, s.Len))
		return append(out, Outcome{st: st, ret: []Value{s}})
	})
	R("Cmp", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, cmp3(x.bigv(st, a[0]), x.bigv(st, a[1])))
	})
	R("CmpAbs", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, cmp3(absT(x.bigv(st, a[0])), absT(x.bigv(st, a[1]))))
	})
	R("Sign", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, cmp3(x.bigv(st, a[0]), Zero))
	})
	R("BitLen", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		t := absT(x.bigv(st, a[0]))
		if t.IsC() {
			return one(st, IC(int64(t.N.BitLen())))
		}
		return one(st, UF("big.bitlen", IntS, t))
	})
	R("IsInt64", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		t := x.bigv(st, a[0])
		k := intKind{64, true, false}
		return one(st, And(Le(ICB(k.lo()), t), Le(t, ICB(k.hi()))))
	})
	R("IsUint64", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		t := x.bigv(st, a[0])
		return one(st, And(Le(Zero, t), Le(t, ICB(bmask(64)))))
	})
	R("Int64", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, wrap(x.bigv(st, a[0]), intKind{64, true, false}))
	})
	R("Uint64", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, wrap(x.bigv(st, a[0]), intKind{64, false, false}))
	})
	divLike := func(name string, f func(a, b *Term) *Term) {
		R(name, func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
			n, d := x.bigv(st, a[1]), x.bigv(st, a[2])
			var out []Outcome
			if dz := EqI(d, Zero); Decide(dz) != -1 {
				s2 := st.clone()
				s2.assume(dz)
				if s2.ctx.Feasible() {
					out = append(out, Outcome{st: s2, panic: "division by zero", where: c.pos})
				}
				st = st.clone()
				st.assume(Not(dz))
				if !st.ctx.Feasible() {
					return out
				}
				cur = st.ctx
			}
			return append(out, x.setBig(st, a[0], f(n, d))...)
		})
	}
	divLike("Mod", func(a, b *Term) *Term {
		if b.IsC() {
			return ModC(a, new(big.Int).Abs(b.N))
		}
		return ModT(a, b)
	})
	divLike("Div", func(a, b *Term) *Term {
		if b.IsC() && b.N.Sign() < 0 {
			return Neg(DivC(a, new(big.Int).Neg(b.N)))
		}
		return DivT(a, b)
	})
	divLike("Rem", func(a, b *Term) *Term {
		if Decide(Le(Zero, a)) == 1 && Decide(Le(Zero, b)) == 1 {
			return ModT(a, b)
		}
		return UF("big.rem", IntS, a, b)
	})
	divLike("Quo", func(a, b *Term) *Term {
		if Decide(Le(Zero, a)) == 1 && Decide(Le(Zero, b)) == 1 {
			return DivT(a, b)
		}
		return UF("big.quo", IntS, a, b)
	})
	R("ModInverse", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		g, n := x.bigv(st, a[1]), x.bigv(st, a[2])
		p := a[0].(Ptr)
		if !n.IsC() || n.N.Sign() <= 0 || !isPrime(n.N) {
			ok := UF("big.coprime", BoolS, g, n)
			s1, s2 := st.clone(), st.clone()
			s1.assume(ok)
			s2.assume(Not(ok))
			s1.store(p, UF("big.inv", IntS, g, n))
			return []Outcome{{st: s1, ret: []Value{p}}, {st: s2, ret: []Value{Ptr{}}}}
		}
		r := ModC(g, n.N)
		z := EqI(r, Zero)
		var out []Outcome
		if Decide(z) != -1 {
			s2 := st.clone()
			s2.assume(z)
			if s2.ctx.Feasible() {
				out = append(out, Outcome{st: s2, ret: []Value{Ptr{}}})
			}
		}
		st = st.clone()
		st.assume(Not(z))
		if st.ctx.Feasible() {
			cur = st.ctx
			st.store(p, InvMod(r, n.N))
			out = append(out, Outcome{st: st, ret: []Value{p}})
		}
		return out
	})
	R("Exp", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		m := Zero
		if q := a[3].(Ptr); q.O != 0 {
			m = x.bigv(st, q)
		}
		return x.setBig(st, a[0], UF("big.exp", IntS, x.bigv(st, a[1]), x.bigv(st, a[2]), m))
	})
	R("Lsh", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		n := tm(a[2])
		if !n.IsInt64() {
			bail("big.Lsh by a symbolic amount")
		}
		return x.setBig(st, a[0], MulC(x.bigv(st, a[1]), pow2(int(n.Int64()))))
	})
	R("Rsh", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		n := tm(a[2])
		if !n.IsInt64() {
			bail("big.Rsh by a symbolic amount")
		}
		return x.setBig(st, a[0], DivC(x.bigv(st, a[1]), pow2(int(n.Int64()))))
	})
	R("SetString", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		s, b := tm(a[1]), tm(a[2])
		if s.Op != OSCst || !b.IsInt64() {
			bail("big.SetString of a symbolic string")
		}
		n, ok := new(big.Int).SetString(s.Str, int(b.Int64()))
		st = st.clone()
		if !ok {
			return one(st, Ptr{}, False)
		}
		st.store(a[0].(Ptr), ICB(n))
		return one(st, a[0], True)
	})
	txt := func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		if a[0].(Ptr).O == 0 {
			return one(st, SC("<nil>"))
		}
		return one(st, UF("big.text", BytesS, x.bigv(st, a[0])))
	}
	R("String", txt)
	R("Text", txt)
	R("ProbablyPrime", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, UF("big.prime", BoolS, x.bigv(st, a[0])))
	})
}

// InvMod: the inverse of r modulo the prime n (r not 0 mod n).
func InvMod(r *Term, n *big.Int) *Term {
	if r.IsC() {
		return ICB(new(big.Int).ModInverse(r.N, n))
	}
	name := "inv_" + n.String()
	if ufInfo[name] == nil {
		ufInfo[name] = &ufI{
			rangeOf: func(*Term) (lo, hi *big.Int) { return big.NewInt(1), new(big.Int).Sub(n, bigs[0]) },
		}
	}
	if r.Op == OMod && r.N.Cmp(n) == 0 {
		r = r.Args[0]
	}
	return UF(name, IntS, r)
}

var _ = types.Typ
var _ *ssa.Function

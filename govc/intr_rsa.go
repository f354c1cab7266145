package main

import (
	"fmt"
	"go/types"
)

// Private keys of the standard library. Validity of an RSA key is an
// uninterpreted predicate of its numbers (assumed: only positive
// numbers, an exponent above one and at least two primes are valid), the precomputed values are
// functions of them; an Ed25519 key is its seed followed by a function of it.

func fieldIdx(t types.Type, name string) int {
	s := under(t).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	bail("no field %s in %s", name, t)
	return -1
}

type rsaPriv struct {
	ok        bool // numbers present
	t         types.Type
	n, e, d   *Term
	primes    []*Term
	precomp   Value
	precompIx int
}

func (x *Exec) rsaPriv(st *State, p Ptr, t types.Type) (k rsaPriv) {
	k.t = under(t).(*types.Pointer).Elem()
	s := st.load(p).(StructV)
	pub := s.F[fieldIdx(k.t, "PublicKey")].(StructV)
	big := func(v Value) (*Term, bool) {
		q, ok := v.(Ptr)
		if !ok || q.O == 0 {
			return nil, false
		}
		return x.bigv(st, q), true
	}
	var o1, o2 bool
	k.n, o1 = big(pub.F[0])
	k.e = tm(pub.F[1])
	k.d, o2 = big(s.F[fieldIdx(k.t, "D")])
	k.precompIx = fieldIdx(k.t, "Precomputed")
	k.precomp = s.F[k.precompIx]
	pr := s.F[fieldIdx(k.t, "Primes")].(SliceV)
	k.ok = o1 && o2
	if pr.Nil {
		return
	}
	if !pr.Len.IsInt64() || !pr.Off.IsInt64() {
		bail("unknown number of primes")
	}
	n, off := int(pr.Len.Int64()), int(pr.Off.Int64())
	arr := st.load(pr.B)
	for i := 0; i < n; i++ {
		q, ok := big(getPath(arr, []PE{{I: IC(int64(off + i))}}))
		k.ok = k.ok && ok
		k.primes = append(k.primes, q)
	}
	return
}

func (k rsaPriv) valid() *Term {
	if !k.ok || len(k.primes) < 2 {
		return False
	}
	return UF(fmt.Sprintf("rsa.valid%d", len(k.primes)), BoolS, append([]*Term{k.n, k.e, k.d}, k.primes...)...)
}

// facts of valid keys
func (k rsaPriv) facts(s *State) {
	for _, v := range append([]*Term{k.n, k.d}, k.primes...) {
		s.assume(Not(Ge0(Neg(v))))
	}
	s.assume(Ge0(Sub(k.e, IC(2))))
	s.assume(Ge0(Sub(k.n, IC(4))))
}

func init() {
	ufInfo["ed25519.public"] = &ufI{lenOf: func([]*Term) *Term { return IC(32) }}
	intr["(*crypto/rsa.PrivateKey).Validate"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		k := x.rsaPriv(st, a[0].(Ptr), c.fn.Signature.Recv().Type())
		return fork(st, k.valid(), func(s *State) []Value { k.facts(s); return []Value{IfaceV{}} },
			func(s *State) []Value { return []Value{x.newErr(s, "crypto/rsa: invalid key")} })
	}
	intr["(*crypto/rsa.PrivateKey).Precompute"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		p := a[0].(Ptr)
		k := x.rsaPriv(st, p, c.fn.Signature.Recv().Type())
		return fork(st, k.valid(), func(s *State) []Value {
			k.facts(s)
			pt := under(k.t).(*types.Struct).Field(k.precompIx).Type()
			nat := func(n string, a ...*Term) Value {
				v := UF("rsa."+n, IntS, a...)
				s.assume(Ge0(v))
				return x.newBig(s, v)
			}
			f := append([]Value{}, k.precomp.(StructV).F...)
			f[fieldIdx(pt, "Dp")] = nat("dp", k.d, k.primes[0])
			f[fieldIdx(pt, "Dq")] = nat("dp", k.d, k.primes[1])
			f[fieldIdx(pt, "Qinv")] = nat("inv", k.primes[1], k.primes[0])
			ci := fieldIdx(pt, "CRTValues")
			ct := under(pt).(*types.Struct).Field(ci).Type()
			et := under(ct).(*types.Slice).Elem()
			var es []Value
			r := Mul(k.primes[0], k.primes[1])
			for _, q := range k.primes[2:] {
				v := append([]Value{}, zeroValue(et).(StructV).F...)
				v[fieldIdx(et, "Exp")] = nat("dp", k.d, q)
				v[fieldIdx(et, "Coeff")] = nat("inv", r, q)
				v[fieldIdx(et, "R")] = x.newBig(s, r)
				es = append(es, StructV{v})
				r = Mul(r, q)
			}
			f[ci] = s.newListSlice(et, es)
			s.store(Ptr{O: p.O, P: append(append([]PE{}, p.P...), PE{F: k.precompIx})}, StructV{f})
			return nil
		}, func(s *State) []Value { return nil })
	}
	intr["crypto/ed25519.NewKeyFromSeed"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		seed := st.seqOf(a[0].(SliceV))
		var out []Outcome
		for _, o := range fork(st, EqI(SLen(seed), IC(32)), func(s *State) []Value {
			return []Value{s.newBytes(SCat(BytesS, seed, UF("ed25519.public", BytesS, seed)))}
		}, func(*State) []Value { return nil }) {
			if o.ret == nil {
				o.panic, o.where = "ed25519: bad seed length", c.pos
			}
			out = append(out, o)
		}
		return out
	}
	edPart := func(lo, hi int64) Intrinsic {
		return func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
			k := st.seqOf(a[0].(SliceV))
			var out []Outcome
			for _, o := range fork(st, Ge0(Sub(SLen(k), IC(hi))), func(s *State) []Value {
				return []Value{s.newBytes(SSub(k, IC(lo), IC(hi-lo)))}
			}, func(*State) []Value { return nil }) {
				if o.ret == nil {
					o.panic, o.where = "slice bounds out of range", c.pos
				}
				out = append(out, o)
			}
			return out
		}
	}
	intr["(crypto/ed25519.PrivateKey).Seed"] = edPart(0, 32)
}

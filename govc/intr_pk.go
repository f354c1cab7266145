package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// Contracts assumed for the public-key primitives of the standard library and
// proved (C04, C05) for those of package sm2: verification is a function of the
// key, the algorithm parameters, the message or digest and the signature, and
// a signature returned by the matching signing primitive is accepted.

// flatShape lists the scalar leaves of a value and describes its shape (types, nil
// pointers and interfaces, lengths of lists of structured elements).
func (x *Exec) flatShape(st *State, v Value, t types.Type) (leaves []*Term, shape string) {
	var b strings.Builder
	var rec func(v Value, t types.Type, depth int)
	rec = func(v Value, t types.Type, depth int) {
		if depth > 12 {
			bail("value too deep to flatten: %s", t)
		}
		switch v := v.(type) {
		case *Term:
			leaves = append(leaves, v)
			b.WriteString("t")
			return
		case OpaqueV:
			leaves = append(leaves, v.X)
			b.WriteString("o")
			return
		case Ptr:
			if v.O == 0 {
				b.WriteString("0")
				return
			}
			b.WriteString("*")
			var et types.Type
			if t != nil {
				if p, ok := under(t).(*types.Pointer); ok {
					et = p.Elem()
				}
			}
			rec(st.load(v), et, depth+1)
			return
		case IfaceV:
			if v.T == nil {
				b.WriteString("n")
				return
			}
			fmt.Fprintf(&b, "<%s>", v.T)
			rec(v.V, v.T, depth+1)
			return
		case SliceV:
			if v.Nil {
				b.WriteString("s") // a nil slice is an empty one for every consumer of flat
				leaves = append(leaves, SC(""))
				return
			}
			if seqElem(v.Elem) != nil {
				q := st.seqOf(v)
				if SLen(q) == Zero {
					q = SC("")
				}
				leaves = append(leaves, q)
				b.WriteString("s")
				return
			}
			if !v.Len.IsInt64() || !v.Off.IsInt64() {
				bail("list of unknown length")
			}
			n, off := int(v.Len.Int64()), int(v.Off.Int64())
			fmt.Fprintf(&b, "[%d:", n)
			if n > 0 {
				arr := st.load(v.B)
				for i := 0; i < n; i++ {
					rec(getPath(arr, []PE{{I: IC(int64(off + i))}}), v.Elem, depth+1)
				}
			}
			b.WriteString("]")
			return
		case ArrV:
			b.WriteString("[")
			for _, e := range v.E {
				rec(e, nil, depth+1)
			}
			b.WriteString("]")
			return
		case StructV:
			b.WriteString("{")
			var s *types.Struct
			if t != nil {
				s, _ = under(t).(*types.Struct)
			}
			for i, f := range v.F {
				var ft types.Type
				if s != nil {
					ft = s.Field(i).Type()
				}
				rec(f, ft, depth+1)
			}
			b.WriteString("}")
			return
		}
		bail("cannot flatten %T", v)
	}
	rec(v, t, 0)
	return leaves, b.String()
}

// fork splits on a condition; yes and no build the results of the branches.
func fork(st *State, cond *Term, yes, no func(*State) []Value) []Outcome {
	var out []Outcome
	cur = st.ctx
	d := Decide(cond)
	if d != -1 {
		s := st.clone()
		s.assume(cond)
		if s.ctx.Feasible() {
			cur = s.ctx
			out = append(out, Outcome{st: s, ret: yes(s)})
		}
	}
	if d != 1 {
		s := st.clone()
		s.assume(Not(cond))
		if s.ctx.Feasible() {
			cur = s.ctx
			out = append(out, Outcome{st: s, ret: no(s)})
		}
	}
	return out
}

func (x *Exec) nilOrErr(msg string) (func(*State) []Value, func(*State) []Value) {
	return func(*State) []Value { return []Value{IfaceV{}} }, func(s *State) []Value { return []Value{x.newErr(s, msg)} }
}

// predicate over the leaves of a key and further terms
func (x *Exec) keyPred(st *State, name string, key Value, kt types.Type, more ...*Term) *Term {
	l, sh := x.flatShape(st, key, kt)
	return UF(name+"."+sh, BoolS, append(l, more...)...)
}

func init() {
	intr["(encoding/asn1.ObjectIdentifier).String"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, UF("oid.string", BytesS, st.seqOf(a[0].(SliceV))))
	}
	intr["(encoding/asn1.ObjectIdentifier).Equal"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, Eq(st.seqOf(a[0].(SliceV)), st.seqOf(a[1].(SliceV))))
	}
	intr["(encoding/asn1.BitString).RightAlign"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		b := a[0].(StructV)
		by, n := b.F[0].(SliceV), tm(b.F[1])
		cond := Or(EqI(ModC(n, big.NewInt(8)), Zero), EqI(by.Len, Zero))
		return fork(st, cond, func(*State) []Value { return []Value{by} },
			func(s *State) []Value { return []Value{s.newBytes(UF("asn1.rightAlign", BytesS, s.seqOf(by), n))} })
	}
	sq := func(st *State, v Value) *Term { return st.seqOf(v.(SliceV)) }
	nonNil := func(f Intrinsic) Intrinsic {
		return func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
			if p, ok := a[0].(Ptr); ok && p.O == 0 {
				return []Outcome{{st: st, panic: "nil key", where: c.pos}}
			}
			return f(x, st, a, c)
		}
	}
	intr["crypto/rsa.VerifyPKCS1v15"] = nonNil(func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		ok, bad := x.nilOrErr("crypto/rsa: verification error")
		return fork(st, x.keyPred(st, "rsa.VerifyPKCS1v15", st.load(a[0].(Ptr)), nil, tm(a[1]), sq(st, a[2]), sq(st, a[3])), ok, bad)
	})
	intr["crypto/rsa.VerifyPSS"] = nonNil(func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		ok, bad := x.nilOrErr("crypto/rsa: verification error")
		var salt, h *Term = Zero, Zero
		if p := a[4].(Ptr); p.O != 0 {
			o := st.load(p).(StructV)
			salt, h = tm(o.F[0]), tm(o.F[1])
		}
		_ = h // ignored by VerifyPSS
		return fork(st, x.keyPred(st, "rsa.VerifyPSS", st.load(a[0].(Ptr)), nil, tm(a[1]), sq(st, a[2]), sq(st, a[3]), salt), ok, bad)
	})
	intr["crypto/ecdsa.VerifyASN1"] = nonNil(func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, x.keyPred(st, "ecdsa.VerifyASN1", st.load(a[0].(Ptr)), nil, sq(st, a[1]), sq(st, a[2])))
	})
	intr["crypto/ed25519.Verify"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		k := sq(st, a[0])
		var out []Outcome
		full := EqI(SLen(k), IC(32))
		for _, o := range fork(st, full, func(s *State) []Value {
			return []Value{UF("ed25519.Verify", BoolS, k, sq(s, a[1]), sq(s, a[2]))}
		}, func(*State) []Value { return nil }) {
			if o.ret == nil {
				o.panic, o.where = "ed25519: bad public key length", c.pos
			}
			out = append(out, o)
		}
		return out
	}
	intr[modPath+"/sm2.Verify"] = nonNil(func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, x.keyPred(st, "sm2.Verify", st.load(a[0].(Ptr)), nil, sq(st, a[1]), sq(st, a[2]), sq(st, a[3])))
	})
}

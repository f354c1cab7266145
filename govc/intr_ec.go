package main

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Elliptic-curve group of the SM2 curve. The points of the curve form a cyclic
// group of prime order n generated by G; a point is represented by its discrete
// logarithm a and has the affine coordinates sm2.X(a), sm2.Y(a); the neutral
// element is (0,0) by the convention of crypto/elliptic. These are the only
// facts about the group that are used:
//   ScalarBaseMult(k) = point(k), ScalarMult(point(a), k) = point(a*k),
//   Add(point(a), point(b)) = point(a+b)
// The functions panic on points that are not on the curve.

var (
	sm2P, _  = new(big.Int).SetString("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF", 16)
	sm2B, _  = new(big.Int).SetString("28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93", 16)
	sm2N, _  = new(big.Int).SetString("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123", 16)
	sm2Gx, _ = new(big.Int).SetString("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7", 16)
	sm2Gy, _ = new(big.Int).SetString("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0", 16)
)

func ecX(a *Term) *Term { return UF("sm2.X", IntS, ModC(a, sm2N)) }
func ecY(a *Term) *Term { return UF("sm2.Y", IntS, ModC(a, sm2N)) }

// unMod strips the outer reduction modulo n of a scalar.
func unMod(a *Term) *Term {
	if a.Op == OMod && a.N.Cmp(sm2N) == 0 {
		return a.Args[0]
	}
	return a
}

// dlogOf: the scalar of the point with these coordinates.
func dlogOf(x, y *Term) *Term {
	if x.Op == OUF && x.Str == "sm2.X" && y.Op == OUF && y.Str == "sm2.Y" && x.Args[0] == y.Args[0] {
		return unMod(x.Args[0])
	}
	if x.IsC() && y.IsC() {
		if x.N.Sign() == 0 && y.N.Sign() == 0 {
			return Zero
		}
		if x.N.Cmp(sm2Gx) == 0 && y.N.Cmp(sm2Gy) == 0 {
			return One
		}
	}
	return UF("sm2.dlog", IntS, x, y)
}

// onCurve: IsOnCurve(x,y)
func onCurve(x, y *Term) *Term {
	if x.Op == OUF && x.Str == "sm2.X" && y.Op == OUF && y.Str == "sm2.Y" && x.Args[0] == y.Args[0] {
		return Not(EqI(x.Args[0], Zero))
	}
	if x.IsC() && y.IsC() {
		if x.N.Cmp(sm2Gx) == 0 && y.N.Cmp(sm2Gy) == 0 {
			return True
		}
		y2 := new(big.Int).Mul(y.N, y.N)
		x3 := new(big.Int).Mul(x.N, x.N)
		x3.Mul(x3, x.N)
		x3.Sub(x3, new(big.Int).Mul(big.NewInt(3), x.N))
		x3.Add(x3, sm2B)
		x3.Sub(x3, y2)
		return BC(x3.Mod(x3, sm2P).Sign() == 0 && x.N.Sign() >= 0 && y.N.Sign() >= 0 && x.N.Cmp(sm2P) < 0 && y.N.Cmp(sm2P) < 0)
	}
	return UF("sm2.on", BoolS, x, y)
}

func init() {
	pm1 := new(big.Int).Sub(sm2P, bigs[0])
	coord := func(g *big.Int) *ufI {
		return &ufI{
			rangeOf: func(*Term) (lo, hi *big.Int) { return new(big.Int), pm1 },
			simp: func(a []*Term) *Term {
				if a[0] == Zero {
					return Zero
				}
				if a[0] == One {
					return ICB(g)
				}
				return nil
			},
			facts: func(t *Term) []*Term {
				a := t.Args[0]
				return []*Term{iff(EqI(ModC(a, sm2N), Zero), And(EqI(ecX(a), Zero), EqI(ecY(a), Zero)))}
			},
		}
	}
	ufInfo["sm2.X"] = coord(sm2Gx)
	ufInfo["sm2.Y"] = coord(sm2Gy)
	ufInfo["sm2.dlog"] = &ufI{rangeOf: func(*Term) (lo, hi *big.Int) { return new(big.Int), new(big.Int).Sub(sm2N, bigs[0]) },
		facts: func(t *Term) []*Term {
			x, y := t.Args[0], t.Args[1]
			on := onCurve(x, y)
			return []*Term{Implies(on, Not(EqI(t, Zero))), Implies(on, And(EqI(ecX(t), x), EqI(ecY(t), y)))}
		}}
	ufInfo["sm2.on"] = &ufI{facts: func(t *Term) []*Term {
		x, y := t.Args[0], t.Args[1]
		in := And(Le(Zero, x), Le(x, ICB(pm1)), Le(Zero, y), Le(y, ICB(pm1)))
		return []*Term{Implies(t, And(in, Not(And(EqI(x, Zero), EqI(y, Zero)))))}
	}}

	isSM2 := func(x *Exec, st *State, recv Value) bool { return x.isSM2Params(st, recv) }
	// any other curve: uninterpreted functions of all parameters
	other := func(x *Exec, st *State, name string, a []Value, c *CallCtx) []Outcome {
		var ts []*Term
		if n := nistName(a[0]); n != "" {
			st = st.clone()
			switch name {
			case "IsOnCurve":
				return one(st, onNamed(n, x.bigv(st, a[1]), x.bigv(st, a[2])))
			case "ScalarBaseMult":
				k := BEInt(st.seqOf(a[1].(SliceV)))
				return one(st, x.newBig(st, UF("ec.G."+n+".x", IntS, k)), x.newBig(st, UF("ec.G."+n+".y", IntS, k)))
			}
			bail("%s on a NIST curve", name)
		}
		for _, v := range a {
			x.flat(st, v, &ts)
		}
		st = st.clone()
		if c.sig.Results().Len() == 1 {
			return one(st, UF("ec."+name, BoolS, ts...))
		}
		return one(st, x.newBig(st, UF("ec."+name+".x", IntS, ts...)), x.newBig(st, UF("ec."+name+".y", IntS, ts...)))
	}
	point := func(x *Exec, st *State, a *Term) []Value {
		return []Value{x.newBig(st, ecX(a)), x.newBig(st, ecY(a))}
	}
	// require the points to be on the curve (or at infinity)
	guard := func(x *Exec, st *State, c *CallCtx, pts [][2]*Term) (*State, []Outcome) {
		var out []Outcome
		for _, p := range pts {
			ok := Or(onCurve(p[0], p[1]), And(EqI(p[0], Zero), EqI(p[1], Zero)))
			if Decide(ok) == 1 {
				continue
			}
			s2 := st.clone()
			s2.assume(Not(ok))
			if s2.ctx.Feasible() {
				out = append(out, Outcome{st: s2, panic: "point not on the curve", where: c.pos})
			}
			st = st.clone()
			st.assume(ok)
			if !st.ctx.Feasible() {
				return nil, out
			}
			cur = st.ctx
		}
		return st, out
	}
	R := func(name string, f Intrinsic) {
		intr["(*crypto/elliptic.CurveParams)."+name] = nilPanic(func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
			if !isSM2(x, st, a[0]) {
				return other(x, st, name, a, c)
			}
			return f(x, st.clone(), a, c)
		})
	}
	R("ScalarBaseMult", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		k := BEInt(st.seqOf(a[1].(SliceV)))
		return one(st, point(x, st, k)...)
	})
	R("ScalarMult", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		px, py := x.bigv(st, a[1]), x.bigv(st, a[2])
		k := BEInt(st.seqOf(a[3].(SliceV)))
		s, out := guard(x, st, c, [][2]*Term{{px, py}})
		if s == nil {
			return out
		}
		s = s.clone()
		return append(out, one(s, point(x, s, Mul(dlogOf(px, py), k))...)...)
	})
	R("Add", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		x1, y1, x2, y2 := x.bigv(st, a[1]), x.bigv(st, a[2]), x.bigv(st, a[3]), x.bigv(st, a[4])
		s, out := guard(x, st, c, [][2]*Term{{x1, y1}, {x2, y2}})
		if s == nil {
			return out
		}
		s = s.clone()
		return append(out, one(s, point(x, s, Add(dlogOf(x1, y1), dlogOf(x2, y2)))...)...)
	})
	R("Double", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		x1, y1 := x.bigv(st, a[1]), x.bigv(st, a[2])
		s, out := guard(x, st, c, [][2]*Term{{x1, y1}})
		if s == nil {
			return out
		}
		s = s.clone()
		return append(out, one(s, point(x, s, MulC(dlogOf(x1, y1), big.NewInt(2)))...)...)
	})
	R("IsOnCurve", func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, onCurve(x.bigv(st, a[1]), x.bigv(st, a[2])))
	})
	intr["(*crypto/elliptic.CurveParams).Params"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, a[0])
	}
	// GenerateKey of a curve value implementing the interface with SM2 parameters
	intr["crypto/elliptic.GenerateKey"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		iv := a[0].(IfaceV)
		pm := x.prog.LookupMethod(iv.T, nil, "Params")
		if pm == nil {
			bail("GenerateKey of %s", iv.T)
		}
		os := x.Call(st, pm, []Value{iv.V}, nil, c.pos)
		if len(os) != 1 || os[0].panic != "" || !isSM2(x, os[0].st, os[0].ret[0]) {
			bail("elliptic.GenerateKey of another curve")
		}
		var out []Outcome
		for _, r := range x.readFull(os[0].st, a[1], IC(32), c) {
			if r.panic != "" {
				out = append(out, r)
				continue
			}
			if r.ret[0] == nil {
				out = append(out, Outcome{st: r.st, ret: []Value{SliceV{Nil: true, Off: Zero, Len: Zero, Cap: Zero, Elem: types.Typ[types.Byte]}, Ptr{}, Ptr{}, r.ret[1]}})
				continue
			}
			s := r.st.clone()
			d := FreshR("scalar", new(big.Int), new(big.Int).Sub(sm2N, bigs[0]))
			out = append(out, Outcome{st: s, ret: append(append([]Value{s.newBytes(Fix(d, IC(32)))}, point(x, s, d)...), IfaceV{})})
		}
		return out
	}
}

func (x *Exec) curveType() types.Type {
	for _, p := range x.prog.AllPackages() {
		if p.Pkg.Path() == "crypto/elliptic" {
			return types.NewPointer(p.Type("CurveParams").Type())
		}
	}
	panic("no crypto/elliptic")
}

var _ *ssa.Function

// params of the receiver: the SM2 curve?
func (x *Exec) isSM2Params(st *State, recv Value) bool {
	p, ok := recv.(Ptr)
	if !ok {
		bail("curve receiver %T", recv)
	}
	if p.O == 0 {
		panic(nilDeref{})
	}
	s, ok := st.load(p).(StructV)
	if !ok {
		return false
	}
	for i, want := range []*big.Int{sm2P, sm2N, sm2B, sm2Gx, sm2Gy} {
		q, ok := s.F[i].(Ptr)
		if !ok || q.O == 0 {
			return false
		}
		if t := x.bigv(st, q); !t.IsC() || t.N.Cmp(want) != 0 {
			return false
		}
	}
	return true
}

package main

import (
	"crypto/elliptic"
	"go/types"
	"math/big"
	"strconv"
)

// The NIST curves of crypto/elliptic: parameter objects with the real
// parameters; the group operations are uninterpreted functions of the
// coordinates and the scalar value, one family per curve. Base point multiples by a
// non-zero scalar lie on the curve.

var nistCurves = map[string]elliptic.Curve{"P224": elliptic.P224(), "P256": elliptic.P256(), "P384": elliptic.P384(), "P521": elliptic.P521()}
var nistObj = map[string]int{}

func (x *Exec) nistCurve(st *State, n string) (*State, IfaceV) {
	t := x.curveType()
	if nistObj[n] == 0 {
		nistObj[n] = newObj(t.(*types.Pointer).Elem())
	}
	o := nistObj[n]
	if st.heap.get(o) == nil {
		p := nistCurves[n].Params()
		st = st.clone()
		st.heap.set(o, StructV{[]Value{x.newBig(st, ICB(p.P)), x.newBig(st, ICB(p.N)), x.newBig(st, ICB(p.B)), x.newBig(st, ICB(p.Gx)), x.newBig(st, ICB(p.Gy)), IC(int64(p.BitSize)), SC(p.Name)}})
	}
	return st, IfaceV{T: t, V: Ptr{O: o}}
}

func nistName(v Value) string {
	p, ok := v.(Ptr)
	if !ok || len(p.P) > 0 {
		return ""
	}
	for n, o := range nistObj {
		if o == p.O {
			return n
		}
	}
	return ""
}

// curveOf: name and parameters of a curve value ("SM2", a NIST name or "").
func (x *Exec) curveOf(st *State, v Value, c *CallCtx) (string, Ptr) {
	iv := v.(IfaceV)
	if iv.T == nil {
		return "nil", Ptr{}
	}
	if n := nistName(iv.V); n != "" {
		return n, iv.V.(Ptr)
	}
	pm := x.prog.LookupMethod(iv.T, nil, "Params")
	if pm == nil {
		bail("Params of %s", iv.T)
	}
	os := x.Call(st, pm, []Value{iv.V}, nil, c.pos)
	if len(os) != 1 || os[0].panic != "" {
		bail("Params of %s", iv.T)
	}
	p := os[0].ret[0].(Ptr)
	if x.isSM2Params(os[0].st, p) {
		return "SM2", p
	}
	bail("unknown curve %s", iv.T)
	return "", Ptr{}
}

// onNamed: (px,py) is on the named curve
func onNamed(n string, px, py *Term) *Term {
	if n == "SM2" {
		return onCurve(px, py)
	}
	if px.IsC() && py.IsC() {
		c := nistCurves[n]
		p := c.Params().P
		return BC(px.N.Sign() >= 0 && py.N.Sign() >= 0 && px.N.Cmp(p) < 0 && py.N.Cmp(p) < 0 && c.Params().IsOnCurve(px.N, py.N))
	}
	return UF("ec.on."+n, BoolS, px, py)
}

func init() {
	for n, c := range nistCurves {
		n, c := n, c
		pm1 := new(big.Int).Sub(c.Params().P, bigs[0])
		ufInfo["ec.on."+n] = &ufI{facts: func(t *Term) []*Term {
			a, b := t.Args[0], t.Args[1]
			return []*Term{Implies(t, And(Le(Zero, a), Le(a, ICB(pm1)), Le(Zero, b), Le(b, ICB(pm1))))}
		}}
		for _, co := range []string{"x", "y"} {
			ufInfo["ec.G."+n+"."+co] = &ufI{rangeOf: func(t *Term) (lo, hi *big.Int) { return new(big.Int), pm1 },
				facts: func(t *Term) []*Term {
					k := t.Args[0]
					return []*Term{Implies(And(Lt(Zero, k), Lt(k, ICB(c.Params().N))), UF("ec.on."+n, BoolS, UF("ec.G."+n+".x", IntS, k), UF("ec.G."+n+".y", IntS, k)))}
				}}
		}
		intr["crypto/elliptic."+n] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
			st, v := x.nistCurve(st, n)
			return one(st, v)
		}
	}
	size := func(n string) int64 {
		if n == "SM2" {
			return 32
		}
		return int64((nistCurves[n].Params().BitSize + 7) / 8)
	}
	intr["crypto/elliptic.Marshal"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		n, _ := x.curveOf(st, a[0], c)
		if n == "nil" {
			return []Outcome{{st: st, panic: "nil curve", where: c.pos}}
		}
		if p, ok := a[1].(Ptr); ok && p.O == 0 {
			return []Outcome{{st: st, panic: "nil coordinate", where: c.pos}}
		}
		px, py := x.bigv(st, a[1]), x.bigv(st, a[2])
		var out []Outcome
		inf := And(EqI(px, Zero), EqI(py, Zero))
		_ = inf
		split(st, onNamed(n, px, py), func(s *State) {
			l := IC(size(n))
			out = append(out, one(s, s.newBytes(SCat(BytesS, SC("\x04"), Fix(px, l), Fix(py, l))))...)
		}, func(s *State) {
			out = append(out, Outcome{st: s, panic: "elliptic: attempted operation on invalid point", where: c.pos})
		})
		return out
	}
	intr["crypto/elliptic.Unmarshal"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		n, _ := x.curveOf(st, a[0], c)
		if n == "nil" {
			return []Outcome{{st: st, panic: "nil curve", where: c.pos}}
		}
		s := Renorm(st.seqOf(a[1].(SliceV)))
		l := size(n)
		bad := func(q *State) []Outcome { return one(q, Ptr{}, Ptr{}) }
		var out []Outcome
		split(st, And(EqI(SLen(s), IC(1+2*l)), Eq(At(s, Zero), BVCi(4, 8))), func(q *State) {
			cur = q.ctx
			px, py := BEInt(SSub(s, One, IC(l))), BEInt(SSub(s, IC(1+l), IC(l)))
			split(q, onNamed(n, px, py), func(q *State) {
				q = q.clone()
				out = append(out, one(q, x.newBig(q, px), x.newBig(q, py))...)
			}, func(q *State) { out = append(out, bad(q)...) })
		}, func(q *State) { out = append(out, bad(q)...) })
		return out
	}
	_ = strconv.Itoa
}

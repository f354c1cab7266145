package main

import (
	"fmt"
	"os"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	Name   string
	Status string // proved, failed
	Inst   int    // path instances
	Why    string
	SMT    string
	Secs   float64
}
type HarnessResult struct {
	Name                 string
	Props                []string
	Oblig                map[string]*Oblig
	Order                []string
	Paths                int
	Covered              bool
	Err                  string
	Bounded              map[string]int
	Used                 map[string]int
	Inlined              map[string]int
	Loops                map[string]int
	Secs                 float64
	Queries              int
	SMTSecs              float64
	Steps                int
	Checks, ChecksFailed int // implicit obligations (bounds, nil, loop invariants)
	Backends             map[string]int
	Closed               map[string]int
	Hints                []map[string]interface{}
}

func (r *HarnessResult) ob(name string) *Oblig {
	o := r.Oblig[name]
	if o == nil {
		o = &Oblig{Name: name, Status: "proved"}
		r.Oblig[name] = o
		r.Order = append(r.Order, name)
	}
	return o
}

var vIntr = map[string]Intrinsic{}
var intr = map[string]Intrinsic{}

func (x *Exec) lookupIntr(fn *ssa.Function, name string) (Intrinsic, bool) {
	if fn.Pkg != nil && x.own[fn.Pkg] && fn.Signature.Recv() == nil && strings.HasPrefix(fn.Name(), "v") {
		if in, ok := vIntr[fn.Name()]; ok && strings.Contains(x.prog.Fset.Position(fn.Pos()).Filename, "zz_govc") {
			return in, true
		}
	}
	if fn.Pkg != nil && fn.Pkg == x.pkgMain && x.own[fn.Pkg] {
		return nil, false // the package under verification is executed, not abstracted
	}
	in, ok := x.intr[name]
	return in, ok
}

func strArg(v Value) string {
	t := v.(*Term)
	if t.Op == OSCst {
		return t.Str
	}
	return "?"
}

func tm(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		bail("expected scalar, got %T", v)
	}
	return t
}

func init() {
	v := vIntr
	v["vBytes"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		st = st.clone()
		return one(st, st.newBytes(FreshBytes(strArg(a[0]))))
	}
	v["vBytesCap"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		st = st.clone()
		s := st.newBytes(FreshBytes(strArg(a[0])))
		n := FreshR("len", new(big.Int), lenMax)
		st.assume(Le(n, s.Cap))
		s.Len = n
		return one(st, s)
	}
	v["vFixedBytes"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		st = st.clone()
		return one(st, st.newBytes(FreshSeq(strArg(a[0]), ByteS, tm(a[1]))))
	}
	v["vString"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, FreshBytes(strArg(a[0])))
	}
	v["vInt"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		st = st.clone()
		lo, hi := tm(a[1]), tm(a[2])
		t := FreshR(strArg(a[0]), intKind{64, true, false}.lo(), intKind{64, true, false}.hi())
		if lo.IsC() && hi.IsC() {
			t = FreshR(strArg(a[0]), lo.N, hi.N)
		} else {
			st.assume(And(Le(lo, t), Le(t, hi)))
		}
		return one(st, t)
	}
	v["vIntGen"] = v["vInt"]
	v["vUint64"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, FreshR(strArg(a[0]), new(big.Int), bmask(64)))
	}
	v["vUint32"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, Fresh(strArg(a[0]), BVS(32)))
	}
	v["vUint16"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, Fresh(strArg(a[0]), BVS(16)))
	}
	v["vByte"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, Fresh(strArg(a[0]), BVS(8)))
	}
	v["vBool"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, Fresh(strArg(a[0]), BoolS))
	}
	v["vChoice"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		n := int(tm(a[1]).Int64())
		var out []Outcome
		t := FreshR(strArg(a[0]), new(big.Int), big.NewInt(int64(n-1)))
		for i := 0; i < n; i++ {
			s := st.clone()
			s.assume(EqI(t, IC(int64(i))))
			out = append(out, Outcome{st: s, ret: []Value{IC(int64(i))}})
		}
		return out
	}
	v["vBig"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		st = st.clone()
		lo, hi := x.bigv(st, a[1]), x.bigv(st, a[2])
		var t *Term
		if lo.IsC() && hi.IsC() {
			t = FreshR(strArg(a[0]), lo.N, hi.N)
		} else {
			t = FreshR(strArg(a[0]), nil, nil)
			st.assume(And(Le(lo, t), Le(t, hi)))
		}
		return one(st, x.newBig(st, t))
	}
	v["vAssume"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		st = st.clone()
		st.assume(tm(a[0]))
		if !st.ctx.Feasible() {
			return nil
		}
		return one(st)
	}
	v["vAssert"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		st = st.clone()
		t := tm(a[1])
		if x.mute == 0 {
			x.assert(st, strArg(a[0]), t)
		}
		st.assume(t)
		return one(st)
	}
	v["vEqual"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, Eq(st.seqOf(a[0].(SliceV)), st.seqOf(a[1].(SliceV))))
	}
	v["vExec"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome { return one(st, False) }
	v["vSame"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		cur = st.ctx
		return one(st, x.deepEq(st, a[0], a[1], 0))
	}
	v["vPanics"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		outs, ok := x.callFunc(st, a[0].(FuncV), nil, c.pos, nil, func(string) {})
		if !ok {
			return one(st, True)
		}
		var r []Outcome
		for _, o := range outs {
			if o.panic != "" {
				r = append(r, Outcome{st: o.st, ret: []Value{True}})
			} else {
				r = append(r, Outcome{st: o.st, ret: []Value{False}})
			}
		}
		return r
	}

	in := intr
	in["bytes.Equal"] = vIntr["vEqual"]
	in["bytes.Repeat"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		p, n := st.seqOf(a[0].(SliceV)), tm(a[1])
		var out []Outcome
		if Decide(Le(Zero, n)) != 1 {
			s2 := st.clone()
			s2.assume(Lt(n, Zero))
			if s2.ctx.Feasible() {
				out = append(out, Outcome{st: s2, panic: "bytes: negative Repeat count", where: c.pos})
			}
		}
		st = st.clone()
		st.assume(Le(Zero, n))
		cur = st.ctx
		v := Fresh("j", IntS)
		m := SLen(p)
		var r *Term
		if m.IsC() {
			r = Comp(n, v, p)
		} else {
			r = Build(Mul(n, m), v, At(p, Sub(v, Mul(m, DivT(v, m)))))
		}
		return append(out, one(st, st.newBytes(r))...)
	}
	in["crypto/hmac.Equal"] = vIntr["vEqual"]
	in["bytes.Compare"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		p, q := st.seqOf(a[0].(SliceV)), st.seqOf(a[1].(SliceV))
		return one(st, Ite(Eq(p, q), Zero, Ite(UF("bytes.less", BoolS, p, q), IC(-1), IC(1))))
	}
	in["crypto/subtle.ConstantTimeCompare"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, Ite(Eq(st.seqOf(a[0].(SliceV)), st.seqOf(a[1].(SliceV))), IC(1), Zero))
	}
	in["crypto/subtle.ConstantTimeByteEq"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, Ite(Eq(tm(a[0]), tm(a[1])), IC(1), Zero))
	}
	in["crypto/subtle.ConstantTimeEq"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, Ite(Eq(tm(a[0]), tm(a[1])), IC(1), Zero))
	}
	in["errors.New"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		st = st.clone()
		et := x.errType()
		o := st.alloc(et.(*types.Pointer).Elem(), StructV{[]Value{a[0]}})
		return one(st, IfaceV{T: et, V: Ptr{O: o}})
	}
	in["fmt.Errorf"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		st = st.clone()
		return one(st, x.newErr(st, strArg(a[0])))
	}
	noop := func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		st = st.clone()
		var r []Value
		for i := 0; i < c.sig.Results().Len(); i++ {
			r = append(r, x.freshOrNil(st, c.sig.Results().At(i).Type()))
		}
		return one(st, r...)
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		in[n] = noop
	}
	in["fmt.Sprintf"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, FreshBytes("sprintf"))
	}
	in["fmt.Sprint"] = in["fmt.Sprintf"]
	in["math/bits.RotateLeft32"] = rotIntr(32)
	in["math/bits.RotateLeft16"] = rotIntr(16)
	in["math/bits.RotateLeft8"] = rotIntr(8)
}

func rotIntr(w int) Intrinsic {
	return func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, BRotlV(tm(a[0]), tm(a[1])))
	}
}

func (x *Exec) freshOrNil(st *State, t types.Type) Value {
	if types.Identical(t, errorT) {
		return IfaceV{}
	}
	return x.freshValue(st, "r", t, 0)
}

func (x *Exec) bigv(st *State, v Value) *Term {
	p, ok := v.(Ptr)
	if !ok {
		bail("big.Int %T", v)
	}
	if p.O == 0 {
		panic(nilDeref{})
	}
	t, ok := st.load(p).(*Term)
	if !ok {
		bail("big.Int content %T", st.load(p))
	}
	return t
}

type nilDeref struct{}

func (x *Exec) newBig(st *State, t *Term) Ptr {
	return Ptr{O: st.alloc(x.bigType(), t)}
}

var bigT types.Type

func (x *Exec) bigType() types.Type {
	if bigT == nil {
		for _, p := range x.prog.AllPackages() {
			if p.Pkg.Path() == "math/big" {
				bigT = p.Type("Int").Type()
			}
		}
	}
	return bigT
}

func (x *Exec) modelMethod(st *State, iv IfaceV, m string) string {
	if p, ok := iv.V.(Ptr); ok && p.O != 0 && len(p.P) == 0 {
		switch c := st.heap.get(p.O).(type) {
		case HashV:
			return "hash." + m
		case ModelV:
			if _, ok := x.intr["model."+c.Kind+"."+m]; ok {
				return "model." + c.Kind + "." + m
			}
		}
	}
	if o, ok := iv.V.(OpaqueV); ok {
		_ = o
		k := "opaque." + iv.T.String() + "." + m
		if _, ok := x.intr[k]; ok {
			return k
		}
	}
	return ""
}

func (x *Exec) modelGlobal(st *State, g *ssa.Global, t types.Type) Value {
	switch g.String() {
	case "encoding/asn1.NullRawValue":
		v := zeroValue(t).(StructV)
		v.F[1] = IC(5)
		return v
	case "encoding/asn1.NullBytes":
		return st.newBytes(SC("\x05\x00"))
	}
	if n, ok := strings.CutPrefix(g.String(), "crypto/x509/pkix.oid"); ok {
		if arc := map[string]int64{"Country": 6, "Organization": 10, "OrganizationalUnit": 11, "CommonName": 3, "SerialNumber": 5, "Locality": 7, "Province": 8, "StreetAddress": 9, "PostalCode": 17}[n]; arc != 0 {
			return st.newSeqSlice(types.Typ[types.Int], Lit(IntS, IC(2), IC(5), IC(4), IC(arc)))
		}
	}
	return nil
}

func (x *Exec) assert(st *State, name string, t *Term) {
	o := x.result.ob(name)
	o.Inst++
	x.result.Covered = true
	if o.Status == "failed" {
		return
	}
	if os.Getenv("GOVC_ASSERT") != "" {
		fmt.Fprintln(os.Stderr, "assert", name)
		for _, f := range st.ctx.Facts() {
			fmt.Fprintln(os.Stderr, "      ", f)
		}
		fmt.Fprintln(os.Stderr, "   ?  ", t)
	}
	q0 := smtStats.queries + smtStats.hits
	ok, why := Prove(st.ctx, t)
	if x.result.Closed == nil {
		x.result.Closed = map[string]int{}
	}
	if ok {
		if smtStats.queries+smtStats.hits == q0 {
			x.result.Closed["closed by rewriting alone"]++
		} else {
			x.result.Closed["closed with SMT queries"]++
		}
	}
	if !ok {
		if !st.ctx.Feasible() {
			return
		}
		o.Status = "failed"
		o.Why = why
	}
}

// deepEq: equal structures; nil and empty slices are the same.
func (x *Exec) deepEq(st *State, a, b Value, depth int) *Term {
	if depth > 40 {
		bail("comparison of a cyclic structure")
	}
	switch v := a.(type) {
	case *Term:
		if w, ok := b.(*Term); ok {
			return Eq(v, w)
		}
	case IfaceV:
		w, ok := b.(IfaceV)
		if !ok {
			break
		}
		if v.T == nil || w.T == nil {
			return BC(v.T == nil && w.T == nil)
		}
		if !types.Identical(v.T, w.T) {
			return False
		}
		return x.deepEq(st, v.V, w.V, depth+1)
	case StructV:
		w, ok := b.(StructV)
		if !ok {
			break
		}
		r := True
		for i := range v.F {
			r = And(r, x.deepEq(st, v.F[i], w.F[i], depth+1))
		}
		return r
	case ArrV:
		w, ok := b.(ArrV)
		if !ok {
			break
		}
		r := True
		for i := range v.E {
			r = And(r, x.deepEq(st, v.E[i], w.E[i], depth+1))
		}
		return r
	case SliceV:
		w, ok := b.(SliceV)
		if !ok {
			break
		}
		if seqElem(v.Elem) != nil {
			return Eq(st.seqOf(v), st.seqOf(w))
		}
		p, q := st.listOf(v), st.listOf(w)
		if len(p) != len(q) {
			return False
		}
		r := True
		for i := range p {
			r = And(r, x.deepEq(st, p[i], q[i], depth+1))
		}
		return r
	case Ptr:
		w, ok := b.(Ptr)
		if !ok {
			break
		}
		if v.O == 0 || w.O == 0 {
			return BC(v.O == w.O)
		}
		if sameValue(v, w) {
			return True
		}
		return x.deepEq(st, st.load(v), st.load(w), depth+1)
	case OpaqueV:
		if w, ok := b.(OpaqueV); ok {
			return Eq(v.X, w.X)
		}
	}
	if sameValue(a, b) {
		return True
	}
	bail("vSame %T %T", a, b)
	return nil
}

package main

// Term language of the verifier: hash-consed terms over Bool, Int (mathematical
// integers, kept as polynomials in a normal form), fixed-width bit vectors and
// finite sequences ("ropes").

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type SK int

const (
	SBool SK = iota
	SInt
	SBV
	SSeq
	SU
)

type Sort struct {
	K    SK
	W    int    // BV width
	Elem *Sort  // Seq element
	Name string // uninterpreted
}

var (
	BoolS = &Sort{K: SBool}
	IntS  = &Sort{K: SInt}
	bvS   = map[int]*Sort{}
	seqS  = map[*Sort]*Sort{}
	uS    = map[string]*Sort{}
)

func BVS(w int) *Sort {
	s := bvS[w]
	if s == nil {
		s = &Sort{K: SBV, W: w}
		bvS[w] = s
	}
	return s
}
func SeqS(e *Sort) *Sort {
	s := seqS[e]
	if s == nil {
		s = &Sort{K: SSeq, Elem: e}
		seqS[e] = s
	}
	return s
}
func US(n string) *Sort {
	s := uS[n]
	if s == nil {
		s = &Sort{K: SU, Name: n}
		uS[n] = s
	}
	return s
}
func (s *Sort) String() string {
	switch s.K {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	case SBV:
		return fmt.Sprintf("BV%d", s.W)
	case SSeq:
		return "Seq(" + s.Elem.String() + ")"
	}
	return "U:" + s.Name
}

var ByteS = BVS(8)
var BytesS = SeqS(ByteS)

type Op int

const (
	OConst Op = iota // Int, BV, Bool(0/1)
	OVar             // Str name; N=lo, M=hi for Int (may be nil)
	OBound           // bound variable, I = depth
	OPoly            // Int: sum Cs[i]*Args[i] + N
	OMon             // Int: product of atoms
	ODiv             // Int: floor div by constant N>0   Args[0]
	OMod             // Int: mod by constant N>0
	ODivT            // Int: Args[0] div Args[1] (Euclid)
	OModT            // Int: Args[0] mod Args[1]
	OLen             // Int: len(seq atom)
	OBV2I            // Int of BV (unsigned)
	OIte             // any sort
	OUF              // uninterpreted function Str(Args), any sort
	OAt              // element Args[1] of seq Args[0]
	// Bool
	ONot
	OAnd
	OOr
	OEq  // Args[0]==Args[1]; for Int: Args[0] == 0 represented by OEq0
	OEq0 // Int poly == 0
	OGe0 // Int poly >= 0
	OUlt // BV
	OUle
	OSlt
	OSle
	OForall // Args[0]=count n, Args[1]=body(bound I): forall 0<=b<n
	OExists
	// BV
	OBAnd
	OBOr
	OBXor
	OBNot
	OBLin // BV linear: sum Cs*Args + N mod 2^W
	OBMul
	OBShl // by BV/Int term Args[1] (Int)
	OBLshr
	OBAshr
	OBRotl // const I
	OBRotlV
	OBCat // concat msb first
	OBExt // extract I=hi J=lo
	OBSext
	OI2BV // Int -> BV
	OBUdiv
	OBUrem
	// Seq
	OLit  // units: Args
	OSCst // constant bytes: Str  (elem BV8)
	OCat
	OSub   // Args: s, off, len
	ORep   // Args: elem, n
	OBuild // Args: n, body  (bound I)
	OComp  // catcomp Args: n, body(seq; bound I)  concatenation of body(0..n-1)
	OUpd   // seq update Args: s, i, v
)

type Term struct {
	neg  *Term
	Op   Op
	S    *Sort
	Args []*Term
	Cs   []*big.Int
	N    *big.Int
	M    *big.Int
	Str  string
	I, J int
	id   int
	bd   int // max depth of bound binder inside (for canonical naming)
	fb   int // 1 if has free bound variables (mask by depth)
	lo   *big.Int
	hi   *big.Int
	rng  bool
}

var (
	termTab = map[string]*Term{}
	termCnt int
	varTab  = map[string]*Term{}
)

func key(t *Term) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%p|", t.Op, t.S)
	for _, a := range t.Args {
		fmt.Fprintf(&b, "%d,", a.id)
	}
	if t.Cs != nil {
		b.WriteByte('|')
		for _, c := range t.Cs {
			b.WriteString(c.Text(36))
			b.WriteByte(',')
		}
	}
	if t.N != nil {
		b.WriteByte('#')
		b.WriteString(t.N.Text(36))
	}
	if t.M != nil {
		b.WriteByte('%')
		b.WriteString(t.M.Text(36))
	}
	fmt.Fprintf(&b, "|%s|%d|%d", t.Str, t.I, t.J)
	return b.String()
}

func mk(t *Term) *Term {
	k := key(t)
	if x := termTab[k]; x != nil {
		return x
	}
	termCnt++
	t.id = termCnt
	for _, a := range t.Args {
		if a.bd > t.bd {
			t.bd = a.bd
		}
		t.fb |= a.fb
	}
	switch t.Op {
	case OBound:
		t.fb = 1 << uint(t.I)
	case OForall, OExists, OBuild, OComp:
		t.fb = (t.Args[1].fb &^ (1 << uint(t.I))) | t.Args[0].fb
		if t.I > t.bd {
			t.bd = t.I
		}
	}
	termTab[k] = t
	return t
}

var (
	bigs  [70]*big.Int
	Zero  *Term
	One   *Term
	True  *Term
	False *Term
)

func pow2(n int) *big.Int {
	if n < 70 {
		return bigs[n]
	}
	return new(big.Int).Lsh(big.NewInt(1), uint(n))
}

func IC(n int64) *Term     { return ICB(big.NewInt(n)) }
func ICB(n *big.Int) *Term { return mk(&Term{Op: OConst, S: IntS, N: n}) }
func BC(b bool) *Term {
	if b {
		return True
	}
	return False
}
func BVC(n *big.Int, w int) *Term {
	n = new(big.Int).And(n, new(big.Int).Sub(pow2(w), big.NewInt(1)))
	return mk(&Term{Op: OConst, S: BVS(w), N: n})
}
func BVCi(n int64, w int) *Term { return BVC(big.NewInt(n), w) }

func (t *Term) IsC() bool     { return t.Op == OConst }
func (t *Term) Int64() int64  { return t.N.Int64() }
func (t *Term) IsInt64() bool { return t.Op == OConst && t.N.IsInt64() }

var freshCnt int

func Fresh(name string, s *Sort) *Term {
	freshCnt++
	return mk(&Term{Op: OVar, S: s, Str: fmt.Sprintf("%s!%d", name, freshCnt)})
}
func FreshR(name string, lo, hi *big.Int) *Term {
	freshCnt++
	return mk(&Term{Op: OVar, S: IntS, Str: fmt.Sprintf("%s!%d", name, freshCnt), N: lo, M: hi})
}
func Var(name string, s *Sort) *Term { return mk(&Term{Op: OVar, S: s, Str: name}) }

// ---------- ranges of Int terms (context free) ----------

func (t *Term) Range() (lo, hi *big.Int) {
	if t.rng {
		return t.lo, t.hi
	}
	lo, hi = t.calcRange()
	t.lo, t.hi, t.rng = lo, hi, true
	return
}

var lenMax = new(big.Int).Lsh(big.NewInt(1), 48)

func (t *Term) calcRange() (lo, hi *big.Int) {
	switch t.Op {
	case OConst:
		return t.N, t.N
	case OVar:
		return t.N, t.M
	case OLen:
		return big.NewInt(0), lenMax
	case OBV2I:
		w := t.Args[0].S.W
		h := new(big.Int).Sub(pow2(w), big.NewInt(1))
		if m := bvMax(t.Args[0]); m != nil {
			h = m
		}
		return big.NewInt(0), h
	case OMod:
		return big.NewInt(0), new(big.Int).Sub(t.N, big.NewInt(1))
	case OModT:
		l, h := t.Args[1].Range()
		if l != nil && l.Sign() > 0 {
			if h != nil {
				return big.NewInt(0), new(big.Int).Sub(h, big.NewInt(1))
			}
			return big.NewInt(0), nil
		}
	case ODiv:
		l, h := t.Args[0].Range()
		if l != nil {
			l = floorDiv(l, t.N)
		}
		if h != nil {
			h = floorDiv(h, t.N)
		}
		return l, h
	case ODivT:
		l, h := t.Args[0].Range()
		l2, _ := t.Args[1].Range()
		if l != nil && l.Sign() >= 0 && l2 != nil && l2.Sign() > 0 {
			return big.NewInt(0), h
		}
	case OIte:
		l1, h1 := t.Args[1].Range()
		l2, h2 := t.Args[2].Range()
		return minB(l1, l2), maxB(h1, h2)
	case OAt:
		if a := t.Args[0]; a.Op == OUF && a.S.Elem == IntS {
			if r, ok := elemRange[a.Str]; ok {
				return big.NewInt(r[0]), big.NewInt(r[1])
			}
		}
	case OUF:
		if f := ufInfo[t.Str]; f != nil {
			if f.rangeOf != nil {
				return f.rangeOf(t)
			}
		}
	case OMon:
		// non-negative factors
		lo, hi := big.NewInt(1), big.NewInt(1)
		for _, a := range t.Args {
			l, h := a.Range()
			if l == nil || l.Sign() < 0 {
				return nil, nil
			}
			lo = new(big.Int).Mul(lo, l)
			if hi != nil && h != nil {
				hi = new(big.Int).Mul(hi, h)
			} else {
				hi = nil
			}
		}
		return lo, hi
	case OPoly:
		lo, hi := new(big.Int).Set(t.N), new(big.Int).Set(t.N)
		for i, a := range t.Args {
			l, h := a.Range()
			c := t.Cs[i]
			if c.Sign() < 0 {
				l, h = h, l
			}
			if lo != nil && l != nil {
				lo.Add(lo, new(big.Int).Mul(c, l))
			} else {
				lo = nil
			}
			if hi != nil && h != nil {
				hi.Add(hi, new(big.Int).Mul(c, h))
			} else {
				hi = nil
			}
		}
		return lo, hi
	}
	return nil, nil
}

func minB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}
func floorDiv(a, b *big.Int) *big.Int {
	q, _ := new(big.Int).DivMod(a, b, new(big.Int))
	return q
}

// ---------- Int ----------

type lin struct {
	n  *big.Int
	m  []*Term
	cs []*big.Int
}

func toLin(t *Term) lin {
	switch t.Op {
	case OConst:
		return lin{n: t.N}
	case OPoly:
		return lin{t.N, t.Args, t.Cs}
	}
	return lin{big.NewInt(0), []*Term{t}, []*big.Int{big.NewInt(1)}}
}

type linAcc struct {
	n *big.Int
	m map[*Term]*big.Int
}

func newAcc() *linAcc { return &linAcc{new(big.Int), map[*Term]*big.Int{}} }
func (a *linAcc) add(t *Term, c *big.Int) {
	if c.Sign() == 0 {
		return
	}
	l := toLin(t)
	a.n.Add(a.n, new(big.Int).Mul(l.n, c))
	for i, m := range l.m {
		x := a.m[m]
		if x == nil {
			x = new(big.Int)
			a.m[m] = x
		}
		x.Add(x, new(big.Int).Mul(l.cs[i], c))
	}
}
func (a *linAcc) done() *Term {
	var ms []*Term
	for m, c := range a.m {
		if c.Sign() != 0 {
			ms = append(ms, m)
		}
	}
	if len(ms) == 0 {
		return ICB(a.n)
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].id < ms[j].id })
	// c*(x mod c') style recombination: N*div(x,N) + mod(x,N) = x
	for i, m := range ms {
		if m.Op == OMod {
			for j, d := range ms {
				if i != j && d.Op == ODiv && d.Args[0] == m.Args[0] && d.N.Cmp(m.N) == 0 {
					cm, cd := a.m[m], a.m[d]
					if new(big.Int).Mul(cm, m.N).Cmp(cd) == 0 {
						c := cm
						delete(a.m, m)
						delete(a.m, d)
						a.add(m.Args[0], c)
						return a.done()
					}
				}
			}
		}
	}
	if len(ms) == 1 && a.n.Sign() == 0 && a.m[ms[0]].Cmp(bigs[0]) == 0 {
		return ms[0]
	}
	cs := make([]*big.Int, len(ms))
	for i, m := range ms {
		cs[i] = a.m[m]
	}
	return mk(&Term{Op: OPoly, S: IntS, Args: ms, Cs: cs, N: a.n})
}

func Add(ts ...*Term) *Term {
	a := newAcc()
	for _, t := range ts {
		a.add(t, bigs[0])
	}
	return a.done()
}

var minus1 = big.NewInt(-1)

func Sub(x, y *Term) *Term {
	a := newAcc()
	a.add(x, bigs[0])
	a.add(y, minus1)
	return a.done()
}
func Neg(x *Term) *Term { return MulC(x, minus1) }
func MulC(x *Term, c *big.Int) *Term {
	a := newAcc()
	a.add(x, c)
	return a.done()
}
func AddC(x *Term, c int64) *Term { return Add(x, IC(c)) }

func monFactors(m *Term) []*Term {
	if m.Op == OMon {
		return m.Args
	}
	return []*Term{m}
}
func mulMon(x, y *Term) *Term {
	fs := append(append([]*Term{}, monFactors(x)...), monFactors(y)...)
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return mk(&Term{Op: OMon, S: IntS, Args: fs})
}
func Mul(x, y *Term) *Term {
	if x.IsC() {
		return MulC(y, x.N)
	}
	if y.IsC() {
		return MulC(x, y.N)
	}
	lx, ly := toLin(x), toLin(y)
	a := newAcc()
	a.n.Mul(lx.n, ly.n)
	for i, m := range lx.m {
		if ly.n.Sign() != 0 {
			a.add(m, new(big.Int).Mul(lx.cs[i], ly.n))
		}
		for j, k := range ly.m {
			a.add(mulMon(m, k), new(big.Int).Mul(lx.cs[i], ly.cs[j]))
		}
	}
	if lx.n.Sign() != 0 {
		for j, k := range ly.m {
			a.add(k, new(big.Int).Mul(ly.cs[j], lx.n))
		}
	}
	return a.done()
}

// splitBy returns p = c*q + r with r's coefficients in [0,c).
func splitBy(t *Term, c *big.Int) (q, r *Term) {
	l := toLin(t)
	qa, ra := newAcc(), newAcc()
	f := func(x *big.Int) (*big.Int, *big.Int) {
		return new(big.Int).DivMod(x, c, new(big.Int))
	}
	d, m := f(l.n)
	qa.n.Set(d)
	ra.n.Set(m)
	for i, mo := range l.m {
		d, m := f(l.cs[i])
		// keep small negative coefficients as they are for readability
		qa.add(mo, d)
		ra.add(mo, m)
	}
	return qa.done(), ra.done()
}

func DivC(t *Term, c *big.Int) *Term {
	if c.Sign() <= 0 {
		panic("DivC")
	}
	if c.Cmp(bigs[0]) == 0 {
		return t
	}
	if t.IsC() {
		return ICB(floorDiv(t.N, c))
	}
	if lo, hi := t.Range(); lo != nil && hi != nil {
		a, b := floorDiv(lo, c), floorDiv(hi, c)
		if a.Cmp(b) == 0 {
			return ICB(a)
		}
	}
	q, r := splitBy(t, c)
	if q != Zero {
		return Add(q, DivC(r, c))
	}
	if r.Op == ODiv {
		return DivC(r.Args[0], new(big.Int).Mul(c, r.N))
	}
	if l := toLin(r); l.n.Sign() > 0 && cur != nil {
		// (c*A + n) div c = A when 0 <= n < c
		b := Add(r, ICB(new(big.Int).Neg(l.n)))
		if m := ModC(b, c); m == Zero || cur.Has(EqI(m, Zero)) {
			return DivC(b, c)
		}
	}
	// common factor
	g := new(big.Int).Set(c)
	l := toLin(r)
	for _, x := range l.cs {
		g.GCD(nil, nil, g, x)
	}
	if g.Cmp(bigs[0]) > 0 {
		// (g*A + n) div (g*c') = (A + n div g) div c'
		a := newAcc()
		a.n = floorDiv(l.n, g)
		for i, m := range l.m {
			a.add(m, new(big.Int).Div(l.cs[i], g))
		}
		return DivC(a.done(), new(big.Int).Div(c, g))
	}
	return mk(&Term{Op: ODiv, S: IntS, Args: []*Term{r}, N: c})
}

func ModC(t *Term, c *big.Int) *Term {
	if c.Sign() <= 0 {
		panic("ModC")
	}
	if c.Cmp(bigs[0]) == 0 {
		return Zero
	}
	if t.IsC() {
		return ICB(new(big.Int).Mod(t.N, c))
	}
	if lo, hi := t.Range(); lo != nil && hi != nil {
		if a := floorDiv(lo, c); a.Cmp(floorDiv(hi, c)) == 0 {
			return Sub(t, ICB(new(big.Int).Mul(a, c)))
		}
	}
	r := modArg(t, c)
	if r != t {
		return ModC(r, c)
	}
	return mk(&Term{Op: OMod, S: IntS, Args: []*Term{r}, N: c})
}

// modArg normalises t modulo c: coefficients reduced, inner (k*c)-mods dropped.
func modArg(t *Term, c *big.Int) *Term {
	l := toLin(t)
	a := newAcc()
	a.n.Mod(l.n, c)
	for i, m := range l.m {
		co := new(big.Int).Mod(l.cs[i], c)
		if co.Sign() == 0 {
			continue
		}
		fs := monFactors(m)
		changed := false
		if r := invReduce(fs, c); r != nil {
			a.add(modArg(r, c), co)
			continue
		}
		prod := One
		for _, f := range fs {
			if f.Op == OMod && new(big.Int).Mod(f.N, c).Sign() == 0 {
				prod = Mul(prod, f.Args[0])
				changed = true
			} else {
				prod = Mul(prod, f)
			}
		}
		if changed {
			a.add(modArg(prod, c), co)
		} else {
			a.add(m, co)
		}
	}
	// re-reduce
	r := a.done()
	l = toLin(r)
	b := newAcc()
	b.n.Mod(l.n, c)
	for i, m := range l.m {
		b.add(m, new(big.Int).Mod(l.cs[i], c))
	}
	return b.done()
}

// invReduce: a monomial containing inv_c(p) and the leading monomial of p is
// rewritten with inv_c(p)*p = 1 (mod c).
func invReduce(fs []*Term, c *big.Int) *Term {
	for i, f := range fs {
		if f.Op != OUF || len(f.Args) != 1 || len(f.Str) < 5 || f.Str[:4] != "inv_" || f.Str[4:] != c.String() {
			continue
		}
		p := toLin(f.Args[0])
		if len(p.m) == 0 {
			continue
		}
		// leading monomial: most factors, then largest id
		best := 0
		for j := range p.m {
			a, b := len(monFactors(p.m[j])), len(monFactors(p.m[best]))
			if a > b || a == b && p.m[j].id > p.m[best].id {
				best = j
			}
		}
		rest := append(append([]*Term{}, fs[:i]...), fs[i+1:]...)
		ok := true
		for _, g := range monFactors(p.m[best]) {
			found := false
			for k, h := range rest {
				if h == g {
					rest = append(append([]*Term{}, rest[:k]...), rest[k+1:]...)
					found = true
					break
				}
			}
			if !found {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		co := new(big.Int).ModInverse(p.cs[best], c)
		if co == nil {
			continue
		}
		// inv*lead = (1 - inv*(p - co*lead)) / co
		tail := Sub(f.Args[0], MulC(p.m[best], p.cs[best]))
		r := MulC(Sub(One, Mul(f, tail)), co)
		for _, h := range rest {
			r = Mul(r, h)
		}
		return r
	}
	return nil
}

// eqModInv: p = 0 where p is a residue modulo a prime n (or the difference of
// two) that mentions inverses modulo n: multiplied by the inverted terms, which
// are invertible wherever an inverse was formed.
func eqModInv(p *Term) *Term {
	l := toLin(p)
	if l.n.Sign() != 0 || len(l.m) == 0 || len(l.m) > 2 {
		return nil
	}
	var q *Term
	var n *big.Int
	for i, m := range l.m {
		if m.Op != OMod || l.cs[i].CmpAbs(bigs[0]) != 0 || n != nil && n.Cmp(m.N) != 0 {
			return nil
		}
		n = m.N
		if q == nil {
			q = Zero
		}
		q = Add(q, MulC(m.Args[0], l.cs[i]))
	}
	if len(l.m) == 2 && l.cs[0].Cmp(l.cs[1]) == 0 {
		return nil
	}
	pre := "inv_" + n.String()
	find := func(q *Term) *Term {
		for _, m := range toLin(q).m {
			for _, f := range monFactors(m) {
				if f.Op == OUF && f.Str == pre {
					return f
				}
			}
		}
		return nil
	}
	f := find(q)
	if f == nil {
		return nil
	}
	for k := 0; f != nil; k++ {
		if k > 6 {
			return nil
		}
		// common factor?
		t := toLin(q)
		common := t.n.Sign() == 0
		ac := Zero
		for i, m := range t.m {
			fs := monFactors(m)
			found := false
			prod := One
			for _, g := range fs {
				if g == f && !found {
					found = true
					continue
				}
				prod = Mul(prod, g)
			}
			if !found {
				common = false
				break
			}
			ac = Add(ac, MulC(prod, t.cs[i]))
		}
		if common {
			q = modArg(ac, n)
		} else {
			q = modArg(Mul(q, f.Args[0]), n)
		}
		f = find(q)
	}
	return EqI(ModC(q, n), Zero)
}

func DivT(x, y *Term) *Term {
	if y.IsC() && y.N.Sign() > 0 {
		return DivC(x, y.N)
	}
	return mk(&Term{Op: ODivT, S: IntS, Args: []*Term{x, y}})
}
func ModT(x, y *Term) *Term {
	if y.IsC() && y.N.Sign() > 0 {
		return ModC(x, y.N)
	}
	return mk(&Term{Op: OModT, S: IntS, Args: []*Term{x, y}})
}

func BV2I(t *Term) *Term {
	if t.IsC() {
		return ICB(t.N)
	}
	if t.Op == OBCat {
		// leading zeros
		if t.Args[0].IsC() && t.Args[0].N.Sign() == 0 {
			return BV2I(BCat(t.Args[1:]...))
		}
		// trailing zeros: shift left
		last := t.Args[len(t.Args)-1]
		if last.IsC() && last.N.Sign() == 0 {
			return MulC(BV2I(BCat(t.Args[:len(t.Args)-1]...)), pow2(last.S.W))
		}
		// sum of parts
		r := Zero
		for _, a := range t.Args {
			r = Add(MulC(r, pow2(a.S.W)), BV2I(a))
		}
		return r
	}
	if t.Op == OI2BV {
		if lo, hi := t.Args[0].Range(); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(pow2(t.S.W)) < 0 {
			return t.Args[0]
		}
	}
	if t.Op == OIte {
		return Ite(t.Args[0], BV2I(t.Args[1]), BV2I(t.Args[2]))
	}
	return mk(&Term{Op: OBV2I, S: IntS, Args: []*Term{t}})
}

func bvMax(t *Term) *big.Int {
	switch t.Op {
	case OBAnd:
		for _, a := range t.Args {
			if a.IsC() {
				return a.N
			}
		}
	case OBUrem:
		if t.Args[1].IsC() && t.Args[1].N.Sign() > 0 {
			return new(big.Int).Sub(t.Args[1].N, bigs[0])
		}
	}
	return nil
}

// ---------- Bool ----------

func Not(t *Term) *Term {
	if t.neg == nil {
		t.neg = not1(t)
	}
	return t.neg
}
func not1(t *Term) *Term {
	switch t.Op {
	case OConst:
		return BC(t.N.Sign() == 0)
	case ONot:
		return t.Args[0]
	case OGe0: // !(p>=0) == -p-1>=0
		return Ge0(Sub(Neg(t.Args[0]), One))
	case OUlt:
		return Ule(t.Args[1], t.Args[0])
	case OUle:
		return Ult(t.Args[1], t.Args[0])
	case OAnd, OOr:
		ns := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			ns[i] = Not(a)
		}
		if t.Op == OAnd {
			return Or(ns...)
		}
		return And(ns...)
	}
	return mk(&Term{Op: ONot, S: BoolS, Args: []*Term{t}})
}

func And(ts ...*Term) *Term { return andor(OAnd, ts) }
func Or(ts ...*Term) *Term  { return andor(OOr, ts) }
func andor(op Op, ts []*Term) *Term {
	var unit, zero *Term = True, False
	if op == OOr {
		unit, zero = False, True
	}
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(ts []*Term) bool
	rec = func(ts []*Term) bool {
		for _, t := range ts {
			if t == unit {
				continue
			}
			if t == zero {
				return false
			}
			if t.Op == op {
				if !rec(t.Args) {
					return false
				}
				continue
			}
			if seen[t] {
				continue
			}
			if seen[Not(t)] {
				return false
			}
			seen[t] = true
			out = append(out, t)
		}
		return true
	}
	if !rec(ts) {
		return zero
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	// unit resolution against siblings
	dual := OAnd
	if op == OAnd {
		dual = OOr
	}
	for i, t := range out {
		if t.Op != dual {
			continue
		}
		var keep []*Term
		for _, a := range t.Args {
			if seen[a] { // absorption
				keep = nil
				break
			}
			if !seen[Not(a)] {
				keep = append(keep, a)
			}
		}
		absorbed := false
		for _, a := range t.Args {
			if seen[a] {
				absorbed = true
			}
		}
		if absorbed || len(keep) < len(t.Args) {
			rest := append(append([]*Term{}, out[:i]...), out[i+1:]...)
			if absorbed {
				return andor(op, rest)
			}
			if dual == OAnd {
				return andor(op, append(rest, And(keep...)))
			}
			return andor(op, append(rest, Or(keep...)))
		}
	}
	// (A and B) or (A and not B) => A  (common in path merging)
	if op == OOr && len(out) == 2 {
		if r := factorOr(out[0], out[1]); r != nil {
			return r
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(&Term{Op: op, S: BoolS, Args: out})
}

func conj(t *Term) []*Term {
	if t.Op == OAnd {
		return t.Args
	}
	return []*Term{t}
}
func factorOr(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	in := func(x *Term, l []*Term) bool {
		for _, y := range l {
			if x == y {
				return true
			}
		}
		return false
	}
	var common, ra, rb []*Term
	for _, x := range ca {
		if in(x, cb) {
			common = append(common, x)
		} else {
			ra = append(ra, x)
		}
	}
	for _, x := range cb {
		if !in(x, ca) {
			rb = append(rb, x)
		}
	}
	if len(common) == 0 {
		// a or (not a and B) = a or B
		if len(ca) == 1 && in(Not(ca[0]), cb) {
			var r []*Term
			for _, x := range cb {
				if x != Not(ca[0]) {
					r = append(r, x)
				}
			}
			return Or(a, And(r...))
		}
		if len(cb) == 1 && in(Not(cb[0]), ca) {
			var r []*Term
			for _, x := range ca {
				if x != Not(cb[0]) {
					r = append(r, x)
				}
			}
			return Or(And(r...), b)
		}
		return nil
	}
	return And(append(common, Or(And(ra...), And(rb...)))...)
}
func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ge0(p *Term) *Term {
	lo, hi := p.Range()
	if lo != nil && lo.Sign() >= 0 {
		return True
	}
	if hi != nil && hi.Sign() < 0 {
		return False
	}
	// gcd tighten
	l := toLin(p)
	g := new(big.Int)
	for _, c := range l.cs {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	if g.Cmp(bigs[0]) > 0 {
		a := newAcc()
		a.n = floorDiv(l.n, g)
		for i, m := range l.m {
			a.add(m, new(big.Int).Quo(l.cs[i], g))
		}
		return Ge0(a.done())
	}
	// single ite: push
	if p.Op == OPoly && len(p.Args) == 1 && p.Args[0].Op == OIte || p.Op == OIte {
		m := p
		if p.Op == OPoly {
			m = p.Args[0]
		}
		sb := func(x *Term) *Term {
			if p == m {
				return x
			}
			return Add(MulC(x, p.Cs[0]), ICB(p.N))
		}
		x, y := sb(m.Args[1]), sb(m.Args[2])
		if x.IsC() || y.IsC() {
			return IteB(m.Args[0], Ge0(x), Ge0(y))
		}
	}
	return mk(&Term{Op: OGe0, S: BoolS, Args: []*Term{p}})
}
func IteB(c, a, b *Term) *Term {
	switch {
	case c == True || a == b:
		return a
	case c == False:
		return b
	case a == True:
		return Or(c, b)
	case a == False:
		return And(Not(c), b)
	case b == True:
		return Or(Not(c), a)
	case b == False:
		return And(c, a)
	}
	return Or(And(c, a), And(Not(c), b))
}
func Le(a, b *Term) *Term { return Ge0(Sub(b, a)) }
func Lt(a, b *Term) *Term { return Ge0(AddC(Sub(b, a), -1)) }
func EqI(a, b *Term) *Term {
	p := Sub(a, b)
	if p.IsC() {
		return BC(p.N.Sign() == 0)
	}
	lo, hi := p.Range()
	if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return False
	}
	l := toLin(p)
	if l.cs[0].Sign() < 0 {
		p = Neg(p)
		l = toLin(p)
	}
	g := new(big.Int)
	for _, c := range l.cs {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	if new(big.Int).Mod(l.n, g).Sign() != 0 {
		return False
	}
	if g.Cmp(bigs[0]) > 0 {
		ac := newAcc()
		ac.n = new(big.Int).Quo(l.n, g)
		for i, m := range l.m {
			ac.add(m, new(big.Int).Quo(l.cs[i], g))
		}
		p = ac.done()
	}
	if r := eqModInv(p); r != nil {
		return r
	}
	if p.Op == OPoly && len(p.Args) == 1 && p.Args[0].Op == OIte || p.Op == OIte {
		m := p
		if p.Op == OPoly {
			m = p.Args[0]
		}
		sb := func(x *Term) *Term {
			if p == m {
				return x
			}
			return Add(MulC(x, p.Cs[0]), ICB(p.N))
		}
		x, y := sb(m.Args[1]), sb(m.Args[2])
		if x.IsC() || y.IsC() {
			return IteB(m.Args[0], EqI(x, Zero), EqI(y, Zero))
		}
	}
	return mk(&Term{Op: OEq0, S: BoolS, Args: []*Term{p}})
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("Eq sorts %v %v: %v / %v", a.S, b.S, a, b))
	}
	switch a.S.K {
	case SInt:
		return EqI(a, b)
	case SBool:
		if a.IsC() {
			a, b = b, a
		}
		if b == True {
			return a
		}
		if b == False {
			return Not(a)
		}
		return And(Implies(a, b), Implies(b, a))
	case SBV:
		if a.IsC() && b.IsC() {
			return BC(a.N.Cmp(b.N) == 0)
		}
		if a.IsC() {
			a, b = b, a
		}
		if b.IsC() {
			if a.Op == OBCat {
				var r []*Term
				pos := a.S.W
				for _, x := range a.Args {
					pos -= x.S.W
					r = append(r, Eq(x, BVC(new(big.Int).Rsh(b.N, uint(pos)), x.S.W)))
				}
				return And(r...)
			}
			if a.Op == OIte && (a.Args[1].IsC() || a.Args[2].IsC()) {
				return IteB(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
			}
			if a.Op == OI2BV {
				if lo, hi := a.Args[0].Range(); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(pow2(a.S.W)) < 0 {
					return EqI(a.Args[0], ICB(b.N))
				}
			}
		}
		if d := BSub(a, b); d.IsC() && d.N.Sign() != 0 {
			return False
		}
	case SSeq:
		la, lb := SLen(a), SLen(b)
		if EqI(la, lb) == False {
			return False
		}
		if a.Op == OSCst && b.Op == OSCst {
			return BC(a.Str == b.Str)
		}
		if la == Zero || lb == Zero {
			return EqI(la, lb)
		}
		if la.IsC() && lb.IsC() && la.Int64() <= 64 && la.N.Cmp(lb.N) == 0 {
			if a.Op == OSCst || b.Op == OSCst || a.Op == OLit || b.Op == OLit {
				var cs []*Term
				for i := int64(0); i < la.Int64(); i++ {
					cs = append(cs, Eq(At(a, IC(i)), At(b, IC(i))))
				}
				return And(cs...)
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{Op: OEq, S: BoolS, Args: []*Term{a, b}})
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.S == BoolS {
		return IteB(c, a, b)
	}
	if c.Op == ONot {
		c, a, b = c.Args[0], b, a
	}
	if a.Op == OIte && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == OIte && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	return mk(&Term{Op: OIte, S: a.S, Args: []*Term{c, a, b}})
}

// canonical binders
func maxBD(ts ...*Term) int {
	d := 0
	for _, t := range ts {
		if t.bd > d {
			d = t.bd
		}
	}
	return d
}
func Bound(i int) *Term {
	return mk(&Term{Op: OBound, S: IntS, I: i})
}

// Bind makes the canonical binder over a fresh variable v in body.
func Bind(op Op, s *Sort, n, v, body *Term) *Term {
	d := body.bd + 1
	// avoid capture: choose depth not used free
	for body.fb&(1<<uint(d)) != 0 {
		d++
	}
	b := Bound(d)
	nb := Subst(body, map[*Term]*Term{v: b})
	return mk(&Term{Op: op, S: s, Args: []*Term{n, nb}, I: d})
}
func Forall(n, v, body *Term) *Term {
	if body == True || n == Zero {
		return True
	}
	if !occurs(body, v) {
		return Or(Le(n, Zero), body)
	}
	return Bind(OForall, BoolS, n, v, body)
}
func Exists(n, v, body *Term) *Term { return Not(Forall(n, v, Not(body))) }

// Inst instantiates a binder term at index i.
func Inst(t, i *Term) *Term {
	return Subst(t.Args[1], map[*Term]*Term{Bound(t.I): i})
}

func occurs(t, v *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// Subst replaces terms by terms and rebuilds through the simplifying constructors.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return substM(t, m, memo)
}
func substM(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 || t.Op == OVar {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	same := true
	for i, a := range t.Args {
		args[i] = substM(a, m, memo)
		if args[i] != a {
			same = false
		}
	}
	r := t
	if !same {
		r = Rebuild(t, args)
	}
	memo[t] = r
	return r
}

func Rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case OPoly:
		acc := newAcc()
		acc.n.Set(t.N)
		for i := range a {
			acc.add(a[i], t.Cs[i])
		}
		return acc.done()
	case OMon:
		r := One
		for _, x := range a {
			r = Mul(r, x)
		}
		return r
	case ODiv:
		return DivC(a[0], t.N)
	case OMod:
		return ModC(a[0], t.N)
	case ODivT:
		return DivT(a[0], a[1])
	case OModT:
		return ModT(a[0], a[1])
	case OLen:
		return SLen(a[0])
	case OBV2I:
		return BV2I(a[0])
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OUF:
		return UF(t.Str, t.S, a...)
	case OAt:
		return At(a[0], a[1])
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OEq:
		return Eq(a[0], a[1])
	case OEq0:
		return EqI(a[0], Zero)
	case OGe0:
		return Ge0(a[0])
	case OUlt:
		return Ult(a[0], a[1])
	case OUle:
		return Ule(a[0], a[1])
	case OSlt:
		return Slt(a[0], a[1])
	case OSle:
		return Sle(a[0], a[1])
	case OForall, OExists, OBuild, OComp:
		// depth may need re-canonicalisation
		v := Fresh("rb", IntS)
		body := Subst(a[1], map[*Term]*Term{Bound(t.I): v})
		switch t.Op {
		case OForall:
			return Forall(a[0], v, body)
		case OBuild:
			return Build(a[0], v, body)
		case OComp:
			return Comp(a[0], v, body)
		}
		return Exists(a[0], v, body)
	case OBAnd, OBOr, OBXor:
		return bvNary(t.Op, a)
	case OBNot:
		return BNot(a[0])
	case OBLin:
		acc := newBAcc(t.S.W)
		acc.n.Set(t.N)
		for i := range a {
			acc.add(a[i], t.Cs[i])
		}
		return acc.done()
	case OBMul:
		return BMul(a[0], a[1])
	case OBShl:
		return BShl(a[0], a[1])
	case OBLshr:
		return BLshr(a[0], a[1])
	case OBAshr:
		return BAshr(a[0], a[1])
	case OBRotl:
		return BRotl(a[0], t.I)
	case OBRotlV:
		return BRotlV(a[0], a[1])
	case OBCat:
		return BCat(a...)
	case OBExt:
		return BExt(a[0], t.I, t.J)
	case OBSext:
		return BSext(a[0], t.S.W)
	case OI2BV:
		return I2BV(a[0], t.S.W)
	case OBUdiv:
		return BUdiv(a[0], a[1])
	case OBUrem:
		return BUrem(a[0], a[1])
	case OLit:
		return Lit(t.S.Elem, a...)
	case OCat:
		return SCat(t.S, a...)
	case OSub:
		return SSub(a[0], a[1], a[2])
	case ORep:
		return Rep(a[0], a[1])
	case OUpd:
		return SUpd(a[0], a[1], a[2])
	}
	panic(fmt.Sprintf("Rebuild %d", t.Op))
}

// ---------- uninterpreted functions ----------

type ufI struct {
	rangeOf func(t *Term) (lo, hi *big.Int)
	lenOf   func(args []*Term) *Term // for Seq results
	simp    func(args []*Term) *Term // may return nil
	facts   func(t *Term) []*Term    // axioms instantiated at every application
}

var ufInfo = map[string]*ufI{}

func UF(name string, s *Sort, args ...*Term) *Term {
	if f := ufInfo[name]; f != nil && f.simp != nil {
		if r := f.simp(args); r != nil {
			return r
		}
	}
	return mk(&Term{Op: OUF, S: s, Str: name, Args: args})
}

// ---------- printing ----------

var opNames = map[Op]string{ODiv: "div", OMod: "mod", ODivT: "divt", OModT: "modt", OLen: "len", OBV2I: "int", OIte: "ite", OAt: "at",
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OEq0: "=0", OGe0: ">=0", OUlt: "u<", OUle: "u<=", OSlt: "s<", OSle: "s<=", OForall: "forall", OExists: "exists",
	OBAnd: "&", OBOr: "|", OBXor: "^", OBNot: "~", OBMul: "b*", OBShl: "shl", OBLshr: "lshr", OBAshr: "ashr", OBRotl: "rotl", OBRotlV: "rotlv", OBCat: "concat", OBExt: "extract", OBSext: "sext", OI2BV: "i2bv",
	OBUdiv: "udiv", OBUrem: "urem", OLit: "lit", OCat: "cat", OSub: "sub", ORep: "rep", OBuild: "build", OComp: "catcomp", OUpd: "upd", OMon: "*"}

func (t *Term) String() string {
	var b strings.Builder
	budget := 4000
	t.print(&b, &budget)
	return b.String()
}
func (t *Term) print(b *strings.Builder, budget *int) {
	if *budget <= 0 {
		b.WriteString("…")
		return
	}
	*budget -= 4
	switch t.Op {
	case OConst:
		if t.S == BoolS {
			fmt.Fprint(b, t.N.Sign() != 0)
			return
		}
		if t.S.K == SBV {
			fmt.Fprintf(b, "0x%s:%d", t.N.Text(16), t.S.W)
			return
		}
		b.WriteString(t.N.String())
		return
	case OVar:
		b.WriteString(t.Str)
		return
	case OBound:
		fmt.Fprintf(b, "$%d", t.I)
		return
	case OSCst:
		fmt.Fprintf(b, "%q", t.Str)
		return
	case OPoly, OBLin:
		b.WriteByte('(')
		for i, a := range t.Args {
			if i > 0 {
				b.WriteString(" + ")
			}
			if t.Cs[i].Cmp(bigs[0]) != 0 {
				fmt.Fprintf(b, "%s*", t.Cs[i])
			}
			a.print(b, budget)
		}
		if t.N.Sign() != 0 {
			fmt.Fprintf(b, " + %s", t.N)
		}
		b.WriteByte(')')
		return
	}
	b.WriteByte('(')
	if t.Op == OUF {
		b.WriteString(t.Str)
	} else {
		b.WriteString(opNames[t.Op])
	}
	if t.Op == OBExt {
		fmt.Fprintf(b, "[%d:%d]", t.I, t.J)
	}
	if t.Op == OBRotl || t.Op == OForall || t.Op == OBuild || t.Op == OComp {
		fmt.Fprintf(b, "$%d", t.I)
	}
	if t.N != nil {
		fmt.Fprintf(b, "/%s", t.N)
	}
	for _, a := range t.Args {
		b.WriteByte(' ')
		a.print(b, budget)
	}
	b.WriteByte(')')
}

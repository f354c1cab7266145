package main

import (
	"math/big"
	"sort"
)

func bmask(w int) *big.Int { return new(big.Int).Sub(pow2(w), big.NewInt(1)) }

// ---------- segments: msb-first list of slices ----------

// segs splits t into concat pieces.
func segs(t *Term) []*Term {
	if t.Op == OBCat {
		return t.Args
	}
	return []*Term{t}
}

func BCat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		for _, a := range segs(t) {
			if a.S.W == 0 {
				continue
			}
			if len(out) > 0 {
				p := out[len(out)-1]
				if p.IsC() && a.IsC() {
					out[len(out)-1] = BVC(new(big.Int).Or(new(big.Int).Lsh(p.N, uint(a.S.W)), a.N), p.S.W+a.S.W)
					continue
				}
				if p.Op == OBExt && a.Op == OBExt && p.Args[0] == a.Args[0] && p.J == a.I+1 {
					out[len(out)-1] = BExt(p.Args[0], p.I, a.J)
					continue
				}
			}
			out = append(out, a)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, o := range out {
		w += o.S.W
	}
	// merged extracts may have become concats
	for _, o := range out {
		if o.Op == OBCat {
			return BCat(out...)
		}
	}
	if len(out) == 2 && out[0].Op == OBExt && out[1].Op == OBExt {
		h, l := out[0], out[1]
		if h.Args[0] == l.Args[0] && h.Args[0].S.W == w && h.J == 0 && l.I == w-1 && l.J == h.I+1 {
			return BRotl(h.Args[0], w-l.J)
		}
	}
	if w >= 16 && w%8 == 0 && len(out) >= w/8 && len(out) <= w/8+1 {
		if t := rotWord(out, w); t != nil {
			return t
		}
	}
	return mk(&Term{Op: OBCat, S: BVS(w), Args: out})
}

// rotWord recognises a rotation of consecutive bytes s[i],s[i+1],.. of a sequence.
func rotWord(out []*Term, w int) *Term {
	n := w / 8
	s0 := 0
	l := out
	if len(out) == n+1 {
		f, e := out[0], out[n]
		if f.Op != OBExt || e.Op != OBExt || f.Args[0] != e.Args[0] || f.J != 0 || e.I != 7 || e.J != f.I+1 || f.Args[0].S.W != 8 {
			return nil
		}
		s0 = 7 - f.I
		l = append([]*Term{f.Args[0]}, out[1:n]...)
	}
	for _, t := range l {
		if t.Op != OAt || t.Args[0] != l[0].Args[0] {
			return nil
		}
	}
	r := 0
	for i := 1; i < n; i++ { // the smallest index
		d := Sub(l[i].Args[1], l[r].Args[1])
		if !d.IsC() {
			return nil
		}
		if d.N.Sign() < 0 {
			r = i
		}
	}
	for i := 0; i < n; i++ {
		if Sub(l[(r+i)%n].Args[1], l[r].Args[1]) != IC(int64(i)) {
			return nil
		}
	}
	k := (8*(n-r) + s0) % w
	if r == 0 {
		k = s0
	}
	if k == 0 || n == 2 && k == 8 {
		return nil
	}
	base := append(append([]*Term{}, l[r:]...), l[:r]...)
	return mk(&Term{Op: OBRotl, S: BVS(w), Args: []*Term{mk(&Term{Op: OBCat, S: BVS(w), Args: base})}, I: k})
}

func BExt(t *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == t.S.W {
		return t
	}
	switch t.Op {
	case OConst:
		return BVC(new(big.Int).Rsh(t.N, uint(lo)), w)
	case OBExt:
		return BExt(t.Args[0], t.J+hi, t.J+lo)
	case OBCat:
		var out []*Term
		pos := t.S.W
		for _, a := range t.Args {
			top := pos - 1
			pos -= a.S.W
			h, l := hi, lo
			if h > top {
				h = top
			}
			if l < pos {
				l = pos
			}
			if h >= l {
				out = append(out, BExt(a, h-pos, l-pos))
			}
		}
		return BCat(out...)
	case OBAnd, OBOr, OBXor:
		push := false
		for _, a := range t.Args {
			if a.Op == OBCat || a.IsC() {
				push = true
			}
		}
		if push {
			var out []*Term
			for _, a := range t.Args {
				out = append(out, BExt(a, hi, lo))
			}
			return bvNary(t.Op, out)
		}
	case OBNot:
		return BNot(BExt(t.Args[0], hi, lo))
	case OIte:
		return Ite(t.Args[0], BExt(t.Args[1], hi, lo), BExt(t.Args[2], hi, lo))
	case OI2BV:
		if lo == 0 {
			return I2BV(t.Args[0], w)
		}
		return I2BV(DivC(t.Args[0], pow2(lo)), w)
	case OBLin:
		all := true
		for _, a := range t.Args {
			all = all && a.Op == OI2BV
		}
		if all {
			sum := ICB(t.N)
			for i, a := range t.Args {
				c := new(big.Int).Set(t.Cs[i])
				if c.Bit(t.S.W-1) == 1 {
					c.Sub(c, pow2(t.S.W))
				}
				sum = Add(sum, MulC(a.Args[0], c))
			}
			return I2BV(DivC(sum, pow2(lo)), w)
		}
	case OBSext:
		if hi < t.Args[0].S.W {
			return BExt(t.Args[0], hi, lo)
		}
	case OBRotl:
		x, k, w0 := t.Args[0], t.I, t.S.W
		return BExt2(BExt(x, w0-k-1, 0), BExt(x, w0-1, w0-k), hi, lo)
	}
	return mk(&Term{Op: OBExt, S: BVS(w), Args: []*Term{t}, I: hi, J: lo})
}

// BExt2 extracts [hi:lo] from concat(a,b) without building the concat.
func BExt2(a, b *Term, hi, lo int) *Term {
	wb := b.S.W
	switch {
	case lo >= wb:
		return BExt(a, hi-wb, lo-wb)
	case hi < wb:
		return BExt(b, hi, lo)
	}
	return BCat(BExt(a, hi-wb, 0), BExt(b, wb-1, lo))
}

func BZext(t *Term, w int) *Term {
	if w == t.S.W {
		return t
	}
	return BCat(BVCi(0, w-t.S.W), t)
}
func BSext(t *Term, w int) *Term {
	if w == t.S.W {
		return t
	}
	if t.IsC() {
		n := new(big.Int).Set(t.N)
		if n.Bit(t.S.W-1) == 1 {
			n.Sub(n, pow2(t.S.W))
		}
		return BVC(n, w)
	}
	return mk(&Term{Op: OBSext, S: BVS(w), Args: []*Term{t}})
}

// align two or more concats on the union of their cut points; returns nil if no cuts.
func alignCuts(ts []*Term) []int {
	cuts := map[int]bool{}
	any := false
	for _, t := range ts {
		if t.Op == OBCat {
			any = true
			pos := t.S.W
			for _, a := range t.Args {
				pos -= a.S.W
				if pos > 0 {
					cuts[pos] = true
				}
			}
		}
	}
	if !any {
		return nil
	}
	var cs []int
	for c := range cuts {
		cs = append(cs, c)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(cs)))
	return cs
}

func hasConstPiece(ts []*Term) bool {
	for _, t := range ts {
		if t.Op == OBCat {
			for _, a := range t.Args {
				if a.IsC() {
					return true
				}
			}
		}
	}
	return false
}

func bvNary(op Op, ts []*Term) *Term {
	w := ts[0].S.W
	ones := bmask(w)
	var c *big.Int
	switch op {
	case OBAnd:
		c = new(big.Int).Set(ones)
	default:
		c = new(big.Int)
	}
	cnt := map[*Term]int{}
	var rec func(ts []*Term)
	rec = func(ts []*Term) {
		for _, t := range ts {
			switch {
			case t.IsC():
				switch op {
				case OBAnd:
					c.And(c, t.N)
				case OBOr:
					c.Or(c, t.N)
				case OBXor:
					c.Xor(c, t.N)
				}
			case t.Op == op:
				rec(t.Args)
			case op == OBXor && t.Op == OBNot:
				c.Xor(c, ones)
				rec(t.Args[:1])
			default:
				cnt[t]++
			}
		}
	}
	rec(ts)
	var out []*Term
	for t, n := range cnt {
		if op == OBXor && n%2 == 0 {
			continue
		}
		if op != OBXor {
			if cnt[BNot(t)] > 0 {
				if op == OBAnd {
					return BVCi(0, w)
				}
				return BVC(ones, w)
			}
		}
		out = append(out, t)
	}
	if op == OBAnd && c.Sign() == 0 {
		return BVCi(0, w)
	}
	if op == OBOr && c.Cmp(ones) == 0 {
		return BVC(ones, w)
	}
	if len(out) == 0 {
		return BVC(c, w)
	}
	unit := c.Sign() == 0
	if op == OBAnd {
		unit = c.Cmp(ones) == 0
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	if len(out) == 1 && unit {
		return out[0]
	}
	// and with a mask made of runs / concat alignment: split into segments
	all := out
	var maskCuts []int
	if !unit {
		all = append(append([]*Term{}, out...), BVC(c, w))
		if op == OBAnd || op == OBOr {
			// constant runs of zeros/ones cut the word
			prev := c.Bit(w - 1)
			runs := 0
			for i := w - 2; i >= 0; i-- {
				if c.Bit(i) != prev {
					maskCuts = append(maskCuts, i+1)
					prev = c.Bit(i)
					runs++
				}
			}
			if runs > 3 {
				maskCuts = nil
			}
		}
	}
	var cuts []int
	if len(maskCuts) > 0 || hasConstPiece(out) {
		cuts = alignCuts(out)
	}
	cuts = append(cuts, maskCuts...)
	if len(cuts) > 0 && (len(out) > 1 || !unit) {
		cs := map[int]bool{}
		for _, x := range cuts {
			cs[x] = true
		}
		var l []int
		for x := range cs {
			l = append(l, x)
		}
		sort.Sort(sort.Reverse(sort.IntSlice(l)))
		l = append(l, 0)
		var parts []*Term
		hi := w - 1
		nontriv := false
		for _, lo := range l {
			var xs []*Term
			for _, t := range all {
				xs = append(xs, BExt(t, hi, lo))
			}
			p := bvNary(op, xs)
			if p.Op != op {
				nontriv = true
			}
			parts = append(parts, p)
			hi = lo - 1
		}
		if nontriv {
			return BCat(parts...)
		}
	}
	if !unit {
		out = append(out, BVC(c, w))
	}
	if p := anfOp(op, out, w); p != nil {
		return p.term(w)
	}
	if op == OBXor && len(out) == 2 && out[1].IsC() && c.Cmp(ones) == 0 {
		return mk(&Term{Op: OBNot, S: BVS(w), Args: out[:1]})
	}
	return mk(&Term{Op: op, S: BVS(w), Args: out})
}

// Bitwise expressions over few words are kept in algebraic normal form: an
// exclusive-or of conjunctions of distinct words, each under a constant mask.
type anfMono struct {
	atoms []*Term
	coef  *big.Int
}
type anf map[string]*anfMono

const anfMax = 40

func anfKey(as []*Term) string {
	b := make([]byte, 0, 8*len(as))
	for _, a := range as {
		b = append(b, byte(a.id), byte(a.id>>8), byte(a.id>>16), byte(a.id>>24))
	}
	return string(b)
}
func (p anf) add(as []*Term, c *big.Int) {
	if c.Sign() == 0 {
		return
	}
	k := anfKey(as)
	m := p[k]
	if m == nil {
		p[k] = &anfMono{as, c}
		return
	}
	n := new(big.Int).Xor(m.coef, c)
	if n.Sign() == 0 {
		delete(p, k)
		return
	}
	p[k] = &anfMono{as, n}
}
func (p anf) addAll(q anf) {
	for _, m := range q {
		p.add(m.atoms, m.coef)
	}
}
func anfMul(p, q anf) anf {
	r := anf{}
	if len(p)*len(q) > 12*anfMax {
		return nil
	}
	for _, a := range p {
		for _, b := range q {
			var as []*Term
			i, j := 0, 0
			for i < len(a.atoms) || j < len(b.atoms) {
				switch {
				case j == len(b.atoms) || i < len(a.atoms) && a.atoms[i].id < b.atoms[j].id:
					as = append(as, a.atoms[i])
					i++
				case i == len(a.atoms) || b.atoms[j].id < a.atoms[i].id:
					as = append(as, b.atoms[j])
					j++
				default:
					as = append(as, a.atoms[i])
					i++
					j++
				}
			}
			r.add(as, new(big.Int).And(a.coef, b.coef))
		}
	}
	if len(r) > anfMax {
		return nil
	}
	return r
}
func anfOf(t *Term, w int) anf {
	switch t.Op {
	case OConst:
		p := anf{}
		p.add(nil, t.N)
		return p
	case OBNot:
		p := anfOf(t.Args[0], w)
		if p != nil {
			p.add(nil, bmask(w))
		}
		return p
	case OBXor, OBAnd, OBOr:
		return anfOp(t.Op, t.Args, w)
	}
	p := anf{}
	p.add([]*Term{t}, bmask(w))
	return p
}
func anfOp(op Op, ts []*Term, w int) anf {
	var r anf
	for i, t := range ts {
		q := anfOf(t, w)
		if q == nil {
			return nil
		}
		if i == 0 {
			r = q
			continue
		}
		switch op {
		case OBXor:
			r.addAll(q)
			if len(r) > 4*anfMax {
				return nil
			}
		case OBAnd:
			if r = anfMul(r, q); r == nil {
				return nil
			}
		case OBOr:
			m := anfMul(r, q)
			if m == nil {
				return nil
			}
			r.addAll(q)
			r.addAll(m)
		}
		if op != OBXor && len(r) > anfMax {
			return nil
		}
	}
	return r
}
func (p anf) term(w int) *Term {
	ones := bmask(w)
	c := new(big.Int)
	var ts []*Term
	for _, m := range p {
		if len(m.atoms) == 0 {
			c = m.coef
			continue
		}
		as := m.atoms
		if m.coef.Cmp(ones) != 0 {
			as = append(append([]*Term{}, as...), BVC(m.coef, w))
		}
		if len(as) == 1 {
			ts = append(ts, as[0])
		} else {
			ts = append(ts, mk(&Term{Op: OBAnd, S: BVS(w), Args: as}))
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) == 0 {
		return BVC(c, w)
	}
	var t *Term
	if c.Cmp(ones) == 0 {
		t = ts[0]
		if len(ts) > 1 {
			t = mk(&Term{Op: OBXor, S: BVS(w), Args: ts})
		}
		return mk(&Term{Op: OBNot, S: BVS(w), Args: []*Term{t}})
	}
	if c.Sign() != 0 {
		ts = append(ts, BVC(c, w))
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return mk(&Term{Op: OBXor, S: BVS(w), Args: ts})
}

func BAnd(a, b *Term) *Term { return bvNary(OBAnd, []*Term{a, b}) }
func BOr(a, b *Term) *Term  { return bvNary(OBOr, []*Term{a, b}) }
func BXor(a, b *Term) *Term { return bvNary(OBXor, []*Term{a, b}) }
func BNot(a *Term) *Term {
	if a.IsC() {
		return BVC(new(big.Int).Xor(a.N, bmask(a.S.W)), a.S.W)
	}
	if a.Op == OBNot {
		return a.Args[0]
	}
	return mk(&Term{Op: OBNot, S: a.S, Args: []*Term{a}})
}

// ---------- linear ----------

type bAcc struct {
	w int
	n *big.Int
	m map[*Term]*big.Int
}

func newBAcc(w int) *bAcc { return &bAcc{w, new(big.Int), map[*Term]*big.Int{}} }
func (a *bAcc) add(t *Term, c *big.Int) {
	switch t.Op {
	case OConst:
		a.n.Add(a.n, new(big.Int).Mul(t.N, c))
		return
	case OBLin:
		a.n.Add(a.n, new(big.Int).Mul(t.N, c))
		for i, x := range t.Args {
			a.add(x, new(big.Int).Mul(c, t.Cs[i]))
		}
		return
	case OBNot: // ~x = -x-1
		a.n.Sub(a.n, c)
		a.add(t.Args[0], new(big.Int).Neg(c))
		return
	}
	x := a.m[t]
	if x == nil {
		x = new(big.Int)
		a.m[t] = x
	}
	x.Add(x, c)
}
func (a *bAcc) done() *Term {
	mask := bmask(a.w)
	a.n.And(a.n, mask)
	var ts []*Term
	for t, c := range a.m {
		c.And(c, mask)
		if c.Sign() != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return BVC(a.n, a.w)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	// disjoint concats: addition acts as or
	if len(ts) > 1 || a.n.Sign() != 0 {
		var parts []*Term
		ok := true
		for _, t := range ts {
			c := a.m[t]
			if c.Cmp(bigs[0]) != 0 {
				ok = false
				break
			}
			parts = append(parts, t)
		}
		if ok {
			if a.n.Sign() != 0 {
				parts = append(parts, BVC(a.n, a.w))
			}
			if disjoint(parts) {
				return bvNary(OBOr, parts)
			}
		}
	}
	if len(ts) == 1 && a.n.Sign() == 0 {
		c := a.m[ts[0]]
		if c.Cmp(bigs[0]) == 0 {
			return ts[0]
		}
		if new(big.Int).And(c, new(big.Int).Sub(c, bigs[0])).Sign() == 0 { // power of two
			return BShl(ts[0], IC(int64(c.BitLen()-1)))
		}
	}
	cs := make([]*big.Int, len(ts))
	for i, t := range ts {
		cs[i] = a.m[t]
	}
	return mk(&Term{Op: OBLin, S: BVS(a.w), Args: ts, Cs: cs, N: a.n})
}

// disjoint: the possibly-nonzero bit ranges of the terms do not overlap.
func disjoint(ts []*Term) bool {
	used := new(big.Int)
	for _, t := range ts {
		m := nzMask(t)
		if new(big.Int).And(used, m).Sign() != 0 {
			return false
		}
		used.Or(used, m)
	}
	return true
}
func nzMask(t *Term) *big.Int {
	if t.IsC() {
		return t.N
	}
	if t.Op != OBCat {
		return bmask(t.S.W)
	}
	m := new(big.Int)
	for _, a := range t.Args {
		m.Lsh(m, uint(a.S.W))
		if a.IsC() {
			m.Or(m, a.N)
		} else {
			m.Or(m, bmask(a.S.W))
		}
	}
	return m
}

func BAdd(a, b *Term) *Term {
	x := newBAcc(a.S.W)
	x.add(a, bigs[0])
	x.add(b, bigs[0])
	return x.done()
}
func BSub(a, b *Term) *Term {
	x := newBAcc(a.S.W)
	x.add(a, bigs[0])
	x.add(b, minus1)
	return x.done()
}
func BMul(a, b *Term) *Term {
	if a.IsC() {
		a, b = b, a
	}
	if b.IsC() {
		x := newBAcc(a.S.W)
		x.add(a, b.N)
		return x.done()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{Op: OBMul, S: a.S, Args: []*Term{a, b}})
}
func BUdiv(a, b *Term) *Term {
	if a.IsC() && b.IsC() && b.N.Sign() > 0 {
		return BVC(new(big.Int).Div(a.N, b.N), a.S.W)
	}
	if b.IsC() && b.N.Sign() > 0 && new(big.Int).And(b.N, new(big.Int).Sub(b.N, bigs[0])).Sign() == 0 {
		return BLshr(a, IC(int64(b.N.BitLen()-1)))
	}
	return mk(&Term{Op: OBUdiv, S: a.S, Args: []*Term{a, b}})
}
func BUrem(a, b *Term) *Term {
	if a.IsC() && b.IsC() && b.N.Sign() > 0 {
		return BVC(new(big.Int).Mod(a.N, b.N), a.S.W)
	}
	if b.IsC() && b.N.Sign() > 0 && new(big.Int).And(b.N, new(big.Int).Sub(b.N, bigs[0])).Sign() == 0 {
		return BAnd(a, BVC(new(big.Int).Sub(b.N, bigs[0]), a.S.W))
	}
	return mk(&Term{Op: OBUrem, S: a.S, Args: []*Term{a, b}})
}

// shifts: amount is an Int term (already interpreted as non-negative)
func BShl(a, n *Term) *Term {
	w := a.S.W
	if n.IsC() {
		if n.N.Cmp(big.NewInt(int64(w))) >= 0 {
			return BVCi(0, w)
		}
		k := int(n.Int64())
		if k == 0 {
			return a
		}
		return BCat(BExt(a, w-k-1, 0), BVCi(0, k))
	}
	return mk(&Term{Op: OBShl, S: a.S, Args: []*Term{a, n}})
}
func BLshr(a, n *Term) *Term {
	w := a.S.W
	if n.IsC() {
		if n.N.Cmp(big.NewInt(int64(w))) >= 0 {
			return BVCi(0, w)
		}
		k := int(n.Int64())
		if k == 0 {
			return a
		}
		return BCat(BVCi(0, k), BExt(a, w-1, k))
	}
	return mk(&Term{Op: OBLshr, S: a.S, Args: []*Term{a, n}})
}
func BAshr(a, n *Term) *Term {
	if a.IsC() && n.IsC() {
		x := new(big.Int).Set(a.N)
		if x.Bit(a.S.W-1) == 1 {
			x.Sub(x, pow2(a.S.W))
		}
		sh := uint(a.S.W)
		if n.IsInt64() && n.Int64() < int64(a.S.W) {
			sh = uint(n.Int64())
		}
		return BVC(x.Rsh(x, sh), a.S.W)
	}
	return mk(&Term{Op: OBAshr, S: a.S, Args: []*Term{a, n}})
}

// BRotl: constant left rotation; distributes over bitwise operators.
func BRotl(a *Term, k int) *Term {
	w := a.S.W
	k = ((k % w) + w) % w
	if k == 0 {
		return a
	}
	switch a.Op {
	case OBRotl:
		return BRotl(a.Args[0], a.I+k)
	case OBXor, OBAnd, OBOr:
		var xs []*Term
		for _, x := range a.Args {
			xs = append(xs, BRotl(x, k))
		}
		return bvNary(a.Op, xs)
	case OBNot:
		return BNot(BRotl(a.Args[0], k))
	case OConst, OBCat:
		return BCat(BExt(a, w-k-1, 0), BExt(a, w-1, w-k))
	}
	return mk(&Term{Op: OBRotl, S: a.S, Args: []*Term{a}, I: k})
}

func BRotlV(a, n *Term) *Term {
	if n.IsC() {
		m := new(big.Int).Mod(n.N, big.NewInt(int64(a.S.W)))
		return BRotl(a, int(m.Int64()))
	}
	return mk(&Term{Op: OBRotlV, S: a.S, Args: []*Term{a, n}})
}

func I2BV(t *Term, w int) *Term {
	if t.IsC() {
		return BVC(t.N, w)
	}
	t = modArg(t, pow2(w))
	if t.IsC() {
		return BVC(t.N, w)
	}
	if t.Op == OIte {
		return Ite(t.Args[0], I2BV(t.Args[1], w), I2BV(t.Args[2], w))
	}
	l := toLin(t)
	if len(l.m) == 1 && l.n.Sign() == 0 && l.cs[0].Cmp(bigs[0]) == 0 {
		m := l.m[0]
		if m.Op == OBV2I {
			b := m.Args[0]
			if b.S.W >= w {
				return BExt(b, w-1, 0)
			}
			return BZext(b, w)
		}
		if m.Op == OMod && new(big.Int).Mod(m.N, pow2(w)).Sign() == 0 {
			return I2BV(m.Args[0], w)
		}
		if m.Op == ODiv && m.Args[0].Op == OBV2I {
			// shift right of a bit vector
			k := m.N
			if new(big.Int).And(k, new(big.Int).Sub(k, bigs[0])).Sign() == 0 {
				b := m.Args[0].Args[0]
				s := BLshr(b, IC(int64(k.BitLen()-1)))
				if s.S.W >= w {
					return BExt(s, w-1, 0)
				}
				return BZext(s, w)
			}
		}
		return mk(&Term{Op: OI2BV, S: BVS(w), Args: []*Term{t}})
	}
	acc := newBAcc(w)
	acc.n.Set(l.n)
	for i, m := range l.m {
		acc.add(I2BV(m, w), l.cs[i])
	}
	return acc.done()
}

func Ult(a, b *Term) *Term {
	if a.IsC() && b.IsC() {
		return BC(a.N.Cmp(b.N) < 0)
	}
	if a == b || b.IsC() && b.N.Sign() == 0 || a.IsC() && a.N.Cmp(bmask(a.S.W)) == 0 {
		return False
	}
	return mk(&Term{Op: OUlt, S: BoolS, Args: []*Term{a, b}})
}
func Ule(a, b *Term) *Term {
	if a.IsC() && b.IsC() {
		return BC(a.N.Cmp(b.N) <= 0)
	}
	if a == b || a.IsC() && a.N.Sign() == 0 || b.IsC() && b.N.Cmp(bmask(a.S.W)) == 0 {
		return True
	}
	return mk(&Term{Op: OUle, S: BoolS, Args: []*Term{a, b}})
}
func signedOf(t *Term) *big.Int {
	x := new(big.Int).Set(t.N)
	if x.Bit(t.S.W-1) == 1 {
		x.Sub(x, pow2(t.S.W))
	}
	return x
}
func Slt(a, b *Term) *Term {
	if a.IsC() && b.IsC() {
		return BC(signedOf(a).Cmp(signedOf(b)) < 0)
	}
	if a == b {
		return False
	}
	return mk(&Term{Op: OSlt, S: BoolS, Args: []*Term{a, b}})
}
func Sle(a, b *Term) *Term {
	if a.IsC() && b.IsC() {
		return BC(signedOf(a).Cmp(signedOf(b)) <= 0)
	}
	if a == b {
		return True
	}
	return mk(&Term{Op: OSle, S: BoolS, Args: []*Term{a, b}})
}

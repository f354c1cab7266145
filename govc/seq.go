package main

import (
	"math/big"
	"strings"
)

// ---------- decisions under the current context ----------

// Decide returns +1/-1/0 for true/false/unknown under the current context.
func Decide(c *Term) int {
	if c == True {
		return 1
	}
	if c == False {
		return -1
	}
	if cur == nil || c.fb != 0 {
		return 0
	}
	return cur.Decide(c)
}

// ---------- constructors ----------

func FreshSeq(name string, elem *Sort, n *Term) *Term {
	freshCnt++
	return mk(&Term{Op: OVar, S: SeqS(elem), Str: sprintf("%s!%d", name, freshCnt), Args: []*Term{n}})
}
func FreshBytes(name string) *Term {
	n := FreshR("len_"+name, new(big.Int), lenMax)
	return FreshSeq(name, ByteS, n)
}
func SC(s string) *Term { return mk(&Term{Op: OSCst, S: BytesS, Str: s}) }
func Empty(elem *Sort) *Term {
	if elem == ByteS {
		return SC("")
	}
	return mk(&Term{Op: OLit, S: SeqS(elem)})
}

func SLen(s *Term) *Term {
	switch s.Op {
	case OVar:
		if len(s.Args) > 0 {
			return s.Args[0]
		}
	case OSCst:
		return IC(int64(len(s.Str)))
	case OLit:
		return IC(int64(len(s.Args)))
	case OCat:
		var ls []*Term
		for _, a := range s.Args {
			ls = append(ls, SLen(a))
		}
		return Add(ls...)
	case OSub:
		return s.Args[2]
	case ORep:
		return s.Args[1]
	case OBuild:
		return s.Args[0]
	case OUpd:
		return SLen(s.Args[0])
	case OIte:
		return Ite(s.Args[0], SLen(s.Args[1]), SLen(s.Args[2]))
	case OComp:
		l := SLen(s.Args[1])
		if l.fb&(1<<uint(s.I)) == 0 {
			return Mul(s.Args[0], l)
		}
	case OUF:
		if f := ufInfo[s.Str]; f != nil && f.lenOf != nil {
			if l := f.lenOf(s.Args); l != nil {
				return l
			}
		}
	}
	return mk(&Term{Op: OLen, S: IntS, Args: []*Term{s}})
}

func pieces(s *Term) []*Term {
	if s.Op == OCat {
		return s.Args
	}
	return []*Term{s}
}

// Lit builds a sequence of units; folds constants and consecutive elements.
func Lit(elem *Sort, us ...*Term) *Term {
	if elem == ByteS {
		all := true
		for _, u := range us {
			if !u.IsC() {
				all = false
				break
			}
		}
		if all {
			b := make([]byte, len(us))
			for i, u := range us {
				b[i] = byte(u.N.Int64())
			}
			return SC(string(b))
		}
	}
	// one run at(s,c), at(s,c+1).. covering everything
	if len(us) >= 2 && us[0].Op == OAt {
		s := us[0].Args[0]
		ok := true
		for i, u := range us {
			if u.Op != OAt || u.Args[0] != s || Sub(u.Args[1], us[0].Args[1]) != IC(int64(i)) {
				ok = false
				break
			}
		}
		if ok {
			return SSub(s, us[0].Args[1], IC(int64(len(us))))
		}
	}
	return mk(&Term{Op: OLit, S: SeqS(elem), Args: us})
}

func litUnits(s *Term) []*Term {
	if s.Op == OSCst {
		var r []*Term
		for i := 0; i < len(s.Str); i++ {
			r = append(r, BVCi(int64(s.Str[i]), 8))
		}
		return r
	}
	return s.Args
}

func SCat(srt *Sort, ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		for _, a := range pieces(t) {
			if SLen(a) == Zero {
				continue
			}
			if len(out) > 0 {
				p := out[len(out)-1]
				if m := mergeAdj(p, a); m != nil {
					out[len(out)-1] = m
					continue
				}
			}
			out = append(out, a)
		}
	}
	if len(out) == 0 {
		return Empty(srt.Elem)
	}
	if len(out) == 1 {
		return out[0]
	}
	for _, o := range out {
		if o.Op == OCat {
			return SCat(srt, out...)
		}
	}
	return mk(&Term{Op: OCat, S: srt, Args: out})
}
func mergeAdj(p, a *Term) *Term {
	switch {
	case p.Op == OSCst && a.Op == OSCst:
		return SC(p.Str + a.Str)
	case p.Op == OLit && a.Op == OLit:
		if len(p.Args)+len(a.Args) <= 600 {
			return mk(&Term{Op: OLit, S: p.S, Args: append(append([]*Term{}, p.Args...), a.Args...)})
		}
	case p.Op == OSub && a.Op == OSub && p.Args[0] == a.Args[0]:
		if Add(p.Args[1], p.Args[2]) == a.Args[1] {
			return SSub(p.Args[0], p.Args[1], Add(p.Args[2], a.Args[2]))
		}
	case a.Op == OUF && a.Str == "be.fix" && isZeros(p):
		return Fix(a.Args[0], Add(SLen(p), a.Args[1]))
	case p.Op == ORep && a.Op == ORep && p.Args[0] == a.Args[0]:
		return Rep(p.Args[0], Add(p.Args[1], a.Args[1]))
	}
	return nil
}

func Rep(e, n *Term) *Term {
	if n.IsInt64() {
		if n.Int64() <= 0 {
			return Empty(e.S)
		}
		if n.Int64() <= 300 {
			us := make([]*Term, n.Int64())
			for i := range us {
				us[i] = e
			}
			return Lit(e.S, us...)
		}
	}
	return mk(&Term{Op: ORep, S: SeqS(e.S), Args: []*Term{e, n}})
}

// Build: sequence of n elements body(v).
func Build(n, v, body *Term) *Term {
	if !occurs(body, v) {
		return Rep(body, n)
	}
	if body.Op == OAt && !occurs(body.Args[0], v) {
		o := Sub(body.Args[1], v)
		if !occurs(o, v) {
			return SSub(body.Args[0], o, n)
		}
	}
	if n.IsInt64() && n.Int64() <= 300 {
		us := make([]*Term, n.Int64())
		for i := range us {
			us[i] = Subst(body, map[*Term]*Term{v: IC(int64(i))})
		}
		return Lit(body.S, us...)
	}
	return Bind(OBuild, SeqS(body.S), n, v, body)
}

// Comp: concatenation of n sequences body(v).
func Comp(n, v, body *Term) *Term {
	if n.IsInt64() && n.Int64() <= 64 {
		var ps []*Term
		for i := int64(0); i < n.Int64(); i++ {
			ps = append(ps, Subst(body, map[*Term]*Term{v: IC(i)}))
		}
		return SCat(body.S, ps...)
	}
	if l := SLen(body); l == One {
		return Build(n, v, At(body, Zero))
	}
	// contiguous chunks of one sequence: sub(s, o+L*v, L)
	if body.Op == OSub && !occurs(body.Args[0], v) && !occurs(body.Args[2], v) {
		o := Sub(body.Args[1], Mul(body.Args[2], v))
		if !occurs(o, v) {
			return SSub(body.Args[0], o, Mul(n, body.Args[2]))
		}
	}
	return Bind(OComp, body.S, n, v, body)
}

func SSub(s, off, n *Term) *Term {
	if n == Zero {
		return Empty(s.S.Elem)
	}
	if off == Zero && n == SLen(s) {
		return s
	}
	switch s.Op {
	case OSub:
		return SSub(s.Args[0], Add(s.Args[1], off), n)
	case OSCst:
		if off.IsInt64() && n.IsInt64() && off.Int64() >= 0 && off.Int64()+n.Int64() <= int64(len(s.Str)) {
			return SC(s.Str[off.Int64() : off.Int64()+n.Int64()])
		}
		if len(s.Str) > 0 && strings.Count(s.Str, s.Str[:1]) == len(s.Str) {
			return Rep(BVCi(int64(s.Str[0]), 8), n)
		}
	case OLit:
		if off.IsInt64() && n.IsInt64() && off.Int64() >= 0 && off.Int64()+n.Int64() <= int64(len(s.Args)) {
			return Lit(s.S.Elem, s.Args[off.Int64():off.Int64()+n.Int64()]...)
		}
	case ORep:
		return Rep(s.Args[0], n)
	case OUF:
		// the last n bytes of an encoding
		if s.Str == "be.fix" && n.IsInt64() && !s.Args[1].IsC() && (Add(off, n) == s.Args[1] || Decide(EqI(Add(off, n), s.Args[1])) == 1) {
			return Fix(s.Args[0], n)
		}
	case OBuild:
		v := Fresh("bs", IntS)
		return Build(n, v, Inst(s, Add(v, off)))
	case OIte:
		return Ite(s.Args[0], SSub(s.Args[1], off, n), SSub(s.Args[2], off, n))
	case OComp:
		l := SLen(s.Args[1])
		if l.IsC() {
			q, r := DivC(off, l.N), ModC(off, l.N)
			if r == Zero {
				// aligned start: drop q whole chunks
				if off != Zero {
					v := Fresh("cs", IntS)
					return SSub(Comp(Sub(s.Args[0], q), v, Inst(s, Add(v, q))), Zero, n)
				}
				// aligned end
				if ModC(n, l.N) == Zero {
					v := Fresh("cs", IntS)
					return Comp(DivC(n, l.N), v, Inst(s, v))
				}
			}
		}
	}
	if Decide(EqI(n, Zero)) == 1 {
		return Empty(s.S.Elem)
	}
	if Decide(And(EqI(off, Zero), EqI(n, SLen(s)))) == 1 {
		return s
	}
	if s.Op == OCat {
		return subCat(s, off, n)
	}
	return mk(&Term{Op: OSub, S: s.S, Args: []*Term{s, off, n}})
}

// subCat extracts [off,off+n) of a concatenation; positions are decided under
// the current context, an undecided position leaves a sub over the remaining pieces.
func subCat(s, off, n *Term) *Term {
	ps := s.Args
	// drop leading pieces
	i := 0
	for i < len(ps) {
		l := SLen(ps[i])
		if Decide(Le(l, off)) == 1 {
			off = Sub(off, l)
			i++
			continue
		}
		break
	}
	if i == len(ps) { // n must be 0
		return Empty(s.S.Elem)
	}
	// drop trailing pieces
	j := len(ps)
	end := Add(off, n)
	tot := Zero
	for _, p := range ps[i:] {
		tot = Add(tot, SLen(p))
	}
	for j > i {
		st := Sub(tot, SLen(ps[j-1]))
		if Decide(Le(end, st)) == 1 {
			tot = st
			j--
			continue
		}
		break
	}
	if i == j {
		return Empty(s.S.Elem)
	}
	if i == 0 && j == len(ps) {
		// try splitting inside first / last piece
		first, last := ps[0], ps[len(ps)-1]
		if len(ps) > 1 {
			l := SLen(first)
			cutF := off != Zero && Decide(And(Le(off, l), Le(Zero, off))) == 1
			st := Sub(tot, SLen(last))
			cutL := end != tot && Decide(And(Le(st, end), Le(end, tot))) == 1
			if (off == Zero || cutF) && (end == tot || cutL) {
				var r []*Term
				if off == Zero {
					r = append(r, first)
				} else {
					r = append(r, SSub(first, off, Sub(l, off)))
				}
				r = append(r, ps[1:len(ps)-1]...)
				if end == tot {
					r = append(r, last)
				} else {
					r = append(r, SSub(last, Zero, Sub(end, st)))
				}
				return SCat(s.S, r...)
			}
			if cutF {
				r := SCat(s.S, append([]*Term{SSub(first, off, Sub(l, off))}, ps[1:]...)...)
				return SSub(r, Zero, n)
			}
			if cutL {
				nl := SSub(last, Zero, Sub(end, st))
				if nl == last { // the end is known to be tot
					return SSub(s, off, Sub(tot, off))
				}
				r := SCat(s.S, append(append([]*Term{}, ps[:len(ps)-1]...), nl)...)
				return SSub(r, off, n)
			}
			// interior split when off is exactly on an undecided boundary is left alone
		}
		return mk(&Term{Op: OSub, S: s.S, Args: []*Term{s, off, n}})
	}
	return SSub(SCat(s.S, ps[i:j]...), off, n)
}

func SUpd(s, i, v *Term) *Term {
	if i.IsInt64() && (s.Op == OLit || s.Op == OSCst) {
		k := i.Int64()
		us := append([]*Term{}, litUnits(s)...)
		if k >= 0 && k < int64(len(us)) {
			us[k] = v
			return Lit(s.S.Elem, us...)
		}
	}
	n := SLen(s)
	if i.IsInt64() && n.IsInt64() && n.Int64() <= 300 && i.Int64() < n.Int64() {
		us := make([]*Term, n.Int64())
		for k := range us {
			if int64(k) == i.Int64() {
				us[k] = v
			} else {
				us[k] = At(s, IC(int64(k)))
			}
		}
		return Lit(s.S.Elem, us...)
	}
	return SCat(s.S, SSub(s, Zero, i), mk(&Term{Op: OLit, S: s.S, Args: []*Term{v}}), SSub(s, AddC(i, 1), Sub(AddC(n, -1), i)))
}

func At(s, i *Term) *Term {
	switch s.Op {
	case OSCst:
		if i.IsInt64() && i.Int64() >= 0 && i.Int64() < int64(len(s.Str)) {
			return BVCi(int64(s.Str[i.Int64()]), 8)
		}
	case OLit:
		if i.IsInt64() && i.Int64() >= 0 && i.Int64() < int64(len(s.Args)) {
			return s.Args[i.Int64()]
		}
		if len(s.Args) == 1 {
			return s.Args[0]
		}
	case OSub:
		return At(s.Args[0], Add(s.Args[1], i))
	case OUF:
		if s.Str == "der.tlv" && i == Zero {
			return I2BV(s.Args[0], 8)
		}
	case ORep:
		return s.Args[0]
	case OBuild:
		return Inst(s, i)
	case OIte:
		return Ite(s.Args[0], At(s.Args[1], i), At(s.Args[2], i))
	case OComp:
		l := SLen(s.Args[1])
		if l.IsC() && l.N.Sign() > 0 {
			return At(Inst(s, DivC(i, l.N)), ModC(i, l.N))
		}
	case OCat:
		pos := Zero
		for k, p := range s.Args {
			l := SLen(p)
			if k == len(s.Args)-1 {
				return At(p, Sub(i, pos))
			}
			end := Add(pos, l)
			d := Decide(Lt(i, end))
			if d == 1 {
				return At(p, Sub(i, pos))
			}
			if d == 0 {
				if k > 0 {
					return At(SCat(s.S, s.Args[k:]...), Sub(i, pos))
				}
				break
			}
			pos = end
		}
	}
	return mk(&Term{Op: OAt, S: s.S.Elem, Args: []*Term{s, i}})
}

// Renorm rebuilds a term under the current context, applying its rewrite
// equations.
func Renorm(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.Args) == 0 {
			if cur != nil {
				if r := cur.rewrite(t); r != nil {
					return rec(r)
				}
			}
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		if cur != nil {
			if r := cur.rewrite(t); r != nil {
				r = rec(r)
				memo[t] = r
				return r
			}
		}
		var r *Term
		if t.Op == OVar {
			r = t // length argument is part of the variable's identity
			if t.S.K == SSeq && cur != nil {
				if n := rec(t.Args[0]); n == Zero || cur.Has(EqI(n, Zero)) {
					r = Empty(t.S.Elem)
				}
			}
		} else {
			args := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				args[i] = rec(a)
			}
			r = Rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

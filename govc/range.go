package main

import "os"

// Case distinction over a small range. When the bound of a quantifier or the
// length of a repetition is one of a few numbers, the obligation is shown for
// each of them, with quantifiers and short sequences expanded.

const smallRange = 16

var rangeDebug = os.Getenv("GOVC_RANGE") != ""

// rangeAtoms: atoms a such that a (+ constant) bounds a quantifier or a repetition.
func rangeAtoms(ts []*Term) []*Term {
	seen, in := map[*Term]bool{}, map[*Term]bool{}
	var r []*Term
	note := func(n *Term) {
		if n.IsC() {
			return
		}
		if n.Op == OPoly {
			if len(n.Args) != 1 || n.Cs[0].CmpAbs(bigs[1]) != 0 {
				return
			}
			n = n.Args[0]
		}
		if !in[n] && n.Op != OPoly {
			in[n] = true
			r = append(r, n)
		}
	}
	var rec func(t *Term, under bool)
	rec = func(t *Term, under bool) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case OForall:
			note(t.Args[0])
		case ORep:
			note(t.Args[1])
		}
		for _, a := range t.Args {
			rec(a, under)
		}
	}
	for _, t := range ts {
		rec(t, false)
	}
	return r
}

// expandSmall unfolds quantifiers with a small constant bound and equations of
// short sequences.
func expandSmall(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.S != BoolS {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		switch t.Op {
		case OForall:
			if n := t.Args[0]; n.IsInt64() && n.Int64() <= smallRange {
				var cs []*Term
				for i := int64(0); i < n.Int64(); i++ {
					cs = append(cs, rec(Inst(t, IC(i))))
				}
				r = And(cs...)
			}
		case OEq:
			a, b := t.Args[0], t.Args[1]
			if a.S.K == SSeq {
				n, m := SLen(a), SLen(b)
				if n.IsInt64() && n == m && n.Int64() <= smallRange && (a.Op == OLit || b.Op == OLit || a.Op == OSCst || b.Op == OSCst) {
					var cs []*Term
					for i := int64(0); i < n.Int64(); i++ {
						cs = append(cs, Eq(At(a, IC(i)), At(b, IC(i))))
					}
					r = And(cs...)
				}
			}
		case OAnd, OOr, ONot, OIte:
			as := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				as[i] = rec(a)
			}
			r = Rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// proveRange tries the case distinction.
func proveRange(c *Ctx, goal *Term) bool {
	facts := c.Facts()
	for _, a := range rangeAtoms(append(append([]*Term{}, facts...), goal)) {
		if !c.proves(And(Le(Zero, a), Le(a, IC(smallRange))), 500) {
			continue
		}
		all := true
		for v := int64(0); v <= smallRange && all; v++ {
			cv := IC(v)
			if !c.Assume(EqI(a, cv)).Feasible() {
				continue
			}
			m := map[*Term]*Term{a: cv}
			cur = nil
			if a.Op == OBV2I && a.Args[0].S.W <= 64 {
				m[a.Args[0]] = BVC(cv.N, a.Args[0].S.W)
			}
			d := rootCtx
			for i := 0; i < len(facts); i++ {
				cur = nil
				d = d.Assume(expandSmall(Subst(facts[i], m)))
			}
			// subterms may come back when subsequences are unfolded
			d = d.Assume(EqI(a, cv))
			cur = d
			if d.dead == 1 || !d.Feasible() {
				continue
			}
			p := &prover{}
			g := expandSmall(Subst(goal, m))
			all = p.prove(d, g, 0)
			if !all && rangeDebug {
				println("range", a.String(), v, p.why)
			}
		}
		if all {
			return true
		}
	}
	return false
}

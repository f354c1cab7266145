package main

import (
	"fmt"
	"strings"
)

func hasPrefix(s, p string) bool { return strings.HasPrefix(s, p) }

var verbose int

// Prove discharges goal under ctx; it returns whether it was proved and, if
// not, a description of what remained.
func Prove(c *Ctx, goal *Term) (bool, string) {
	save := cur
	defer func() { cur = save }()
	return proveSplit(c, goal, 3)
}

// proveSplit first distinguishes the cases of a fact that offers a choice
// between values of a sequence.
func proveSplit(c *Ctx, goal *Term, n int) (bool, string) {
	save := cur
	defer func() { cur = save }()
	cur = c
	if n > 0 {
		if f := choiceFact(c); f != nil {
			if g := Renorm(goal); g == True || c.Has(g) || c.proves(g, 1000) {
				return true, ""
			}
			rest := c
			for _, d := range f.Args {
				c2 := rest.Assume(d)
				rest = rest.Assume(Not(d))
				if c2.dead == 1 || !c2.Feasible() {
					continue
				}
				if ok, why := proveSplit(c2, goal, n-1); !ok {
					return false, why
				}
			}
			return true, ""
		}
	}
	p := &prover{}
	ok := p.prove(c, goal, 0)
	if ok || proveRange(c, goal) {
		return true, ""
	}
	return false, p.why
}

// choiceFact: an open disjunction of equations of one sequence with constants.
func choiceFact(c *Ctx) *Term {
facts:
	for _, f := range c.Facts() {
		if f.Op != OOr {
			continue
		}
		eqs := 0
		for _, d := range f.Args {
			if c.Has(d) {
				continue facts
			}
			e := d
			if e.Op == ONot {
				e = e.Args[0]
			}
			if e.Op != OEq || e.Args[0].S.K != SSeq || !isConstSeq(e.Args[0]) && !isConstSeq(e.Args[1]) {
				continue facts
			}
			eqs++
		}
		if eqs > 0 {
			return f
		}
	}
	return nil
}

type prover struct {
	why string
	ms  int
	// congruence attempts left, shared by nested searches
	left *int
}

func (p *prover) limit() int {
	if p.ms > 0 {
		return p.ms
	}
	return 4000
}

func (p *prover) fail(c *Ctx, t *Term, msg string) bool {
	if p.why == "" {
		p.why = sprintf("%s: %s\nunder:", msg, t)
		for _, f := range c.Facts() {
			p.why += "\n    " + f.String()
		}
	}
	return false
}

func (p *prover) prove(c *Ctx, g *Term, depth int) bool {
	save := cur
	defer func() { cur = save }()
	cur = c
	g = Renorm(g)
	if g == True || c.Has(g) {
		return true
	}
	if c.dead == 1 {
		return true
	}
	switch g.Op {
	case OAnd:
		for _, a := range g.Args {
			if !p.prove(c, a, depth) {
				return false
			}
		}
		return true
	case OForall:
		v := Fresh("sk", IntS)
		c2 := c.Assume(And(Le(Zero, v), Lt(v, g.Args[0])))
		cur = c2
		return p.prove(c2, Inst(g, v), depth)
	case OOr:
		// assume the negation of the simple disjuncts, prove the structured one
		if c.proves(g, 3000) {
			return true
		}
		for i, a := range g.Args {
			if structured(a) {
				c2 := c
				for j, b := range g.Args {
					if j != i {
						c2 = c2.Assume(Not(b))
					}
				}
				cur = c2
				q := &prover{}
				if q.prove(c2, a, depth+1) {
					return true
				}
				if p.why == "" {
					p.why = q.why
				}
				cur = c
			}
		}
		c2 := c
		for _, b := range g.Args {
			c2 = c2.Assume(Not(b))
		}
		if instForalls(c2, False) {
			return true
		}
		return p.fail(c, g, "disjunction not proved")
	case OEq:
		a, b := g.Args[0], g.Args[1]
		if a.S.K == SSeq {
			if p.seqEq(c, a, b, depth) {
				return true
			}
			// through a known equality
			if depth < 7 {
				for _, f := range c.Facts() {
					if f.Op != OEq || f.Args[0].S != a.S {
						continue
					}
					for _, o := range [][2]*Term{{f.Args[0], f.Args[1]}, {f.Args[1], f.Args[0]}} {
						q := &prover{}
						c2 := c.withoutRule(f)
						if o[0] == b && o[1] != a && q.seqEq(c2, a, o[1], depth+1) || o[0] == a && o[1] != b && q.seqEq(c2, b, o[1], depth+1) {
							return true
						}
					}
				}
			}
			return false
		}
	}
	if p.smt(c, g, depth) {
		return true
	}
	return p.fail(c, g, "not proved")
}

// structured goals contain sequence equalities or quantifiers.
func structured(t *Term) bool {
	switch t.Op {
	case OEq:
		return t.Args[0].S.K == SSeq || t.Args[0].S.K == SU || t.Args[0].Op == OUF || t.Args[1].Op == OUF
	case OForall:
		return true
	case OAnd, OOr:
		for _, a := range t.Args {
			if structured(a) {
				return true
			}
		}
	case OEq0:
		return len(collectUF(t)) > 0
	}
	return false
}

func (p *prover) smt(c *Ctx, g *Term, depth int) bool {
	if c.proves(g, p.limit()) {
		return true
	}
	if p.ms == 0 && instForalls(c, g) {
		return true
	}
	// congruence: try to identify applications of the same function
	if p.left == nil {
		p.left = new(int)
		*p.left = 1500
	}
	if depth < 3 && *p.left > 0 {
		ufs := collectUF(g)
		for _, f := range c.Facts() {
			ufs = append(ufs, collectUF(f)...)
		}
		c2 := c
		seen := map[*Term]bool{}
		var u []*Term
		for _, x := range ufs {
			if !seen[x] && x.fb == 0 {
				seen[x] = true
				u = append(u, x)
			}
		}
		if len(u) <= 40 {
			for i := range u {
				for j := 0; j < i; j++ {
					a, b := u[i], u[j]
					if a.Op != b.Op || a.Str != b.Str || a.S != b.S || len(a.Args) != len(b.Args) {
						continue
					}
					if *p.left--; *p.left < 0 {
						break
					}
					q := &prover{ms: 400, left: p.left}
					ok := !hasPrefix(a.Str, "sm2.X") && !hasPrefix(a.Str, "sm2.Y")
					for k := range a.Args {
						if !ok {
							break
						}
						if a.Args[k] == b.Args[k] {
							continue
						}
						if a.Args[k].S != b.Args[k].S {
							ok = false
							break
						}
						if !q.prove(c, Eq(a.Args[k], b.Args[k]), depth+1) {
							ok = false
							break
						}
					}
					if ok {
						c2 = c2.Assume(Eq(a, b))
					}
				}
			}
		}
		if c2 != c {
			return c2.proves(Renorm(g), 4000)
		}
	}
	return false
}

func collectUF(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if (t.Op == OUF || t.Op == OAt) && len(t.Args) > 0 {
			out = append(out, t)
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	return out
}

func (p *prover) valid(c *Ctx, g *Term) bool {
	if g == True {
		return true
	}
	if g == False {
		return false
	}
	return c.Decide(g) == 1
}

// seqEq proves a == b by aligning the two ropes.
func (p *prover) seqEq(c *Ctx, a, b *Term, depth int) bool {
	save := cur
	defer func() { cur = save }()
	cur = c
	a, b = Renorm(a), Renorm(b)
	if a == b {
		return true
	}
	if depth > 8 {
		return p.fail(c, Eq(a, b), "depth")
	}
	// case split on if-then-else conditions at top level
	for _, s := range []*Term{a, b} {
		for _, q := range pieces(s) {
			if q.Op == OIte {
				c1 := c.Assume(q.Args[0])
				c2 := c.Assume(Not(q.Args[0]))
				return (!c1.Feasible() || p.seqEq(c1, pick(a, q, 1), pick(b, q, 1), depth+1)) &&
					(!c2.Feasible() || p.seqEq(c2, pick(a, q, 2), pick(b, q, 2), depth+1))
			}
		}
	}
	if !p.valid(c, EqI(SLen(a), SLen(b))) {
		return p.fail(c, EqI(SLen(a), SLen(b)), "lengths differ")
	}
	pa, pb := append([]*Term{}, pieces(a)...), append([]*Term{}, pieces(b)...)
	for steps := 0; ; steps++ {
		if steps > 400 {
			return p.fail(c, Eq(a, b), "too many alignment steps")
		}
		// drop empty pieces
		for len(pa) > 0 && p.valid(c, EqI(SLen(pa[0]), Zero)) {
			pa = pa[1:]
		}
		for len(pb) > 0 && p.valid(c, EqI(SLen(pb[0]), Zero)) {
			pb = pb[1:]
		}
		if len(pa) == 0 && len(pb) == 0 {
			return true
		}
		if len(pa) == 0 || len(pb) == 0 {
			// the rest must be empty (lengths agree)
			return true
		}
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			continue
		}
		lx, ly := SLen(x), SLen(y)
		switch {
		case p.valid(c, EqI(lx, ly)):
			if !p.pieceEq(c, x, y, depth) {
				// whole-tail comparison may still succeed elementwise
				return false
			}
			pa, pb = pa[1:], pb[1:]
		case p.valid(c, Lt(lx, ly)):
			h, t := SSub(y, Zero, lx), SSub(y, lx, Sub(ly, lx))
			pb = append(append([]*Term{}, pieces(h)...), append(append([]*Term{}, pieces(t)...), pb[1:]...)...)
			if len(pb) > 0 && pb[0] == y {
				return p.pieceExt(c, SCat(a.S, pa...), SCat(a.S, pb...), depth)
			}
		case p.valid(c, Lt(ly, lx)):
			h, t := SSub(x, Zero, ly), SSub(x, ly, Sub(lx, ly))
			pa = append(append([]*Term{}, pieces(h)...), append(append([]*Term{}, pieces(t)...), pa[1:]...)...)
			if len(pa) > 0 && pa[0] == x {
				return p.pieceExt(c, SCat(a.S, pa...), SCat(a.S, pb...), depth)
			}
		default:
			if depth > 5 {
				return p.fail(c, Eq(SCat(a.S, pa...), SCat(a.S, pb...)), "cannot align")
			}
			ra, rb := SCat(a.S, pa...), SCat(a.S, pb...)
			for _, k := range []*Term{Lt(lx, ly), EqI(lx, ly), Lt(ly, lx)} {
				c2 := c.Assume(k)
				if !c2.Feasible() {
					continue
				}
				if !p.seqEq(c2, ra, rb, depth+1) {
					return false
				}
			}
			return true
		}
	}
}

func pick(s, q *Term, k int) *Term {
	var out []*Term
	for _, x := range pieces(s) {
		if x.Op == OIte && x.Args[0] == q.Args[0] {
			x = x.Args[k]
		}
		out = append(out, x)
	}
	return SCat(s.S, out...)
}

// pieceEq: two pieces of provably equal length.
func (p *prover) pieceEq(c *Ctx, x, y *Term, depth int) bool {
	if x == y {
		return true
	}
	if x.Op == OSub && y.Op == OSub {
		if p.valid(c, EqI(x.Args[1], y.Args[1])) {
			q := &prover{}
			if x.Args[0] == y.Args[0] || q.seqEq(c, x.Args[0], y.Args[0], depth+1) {
				return true
			}
		}
	}
	if x.Op == OUF && y.Op == OUF && x.Str == y.Str && len(x.Args) == len(y.Args) {
		ok := true
		q := &prover{}
		for i := range x.Args {
			if x.Args[i].S != y.Args[i].S || !q.prove(c, Eq(x.Args[i], y.Args[i]), depth+1) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
		if p.why == "" {
			p.why = q.why
		}
	}
	if x.Op == OComp && y.Op == OComp {
		v := Fresh("sk", IntS)
		bx, by := Inst(x, v), Inst(y, v)
		if p.valid(c, EqI(x.Args[0], y.Args[0])) {
			c2 := c.Assume(And(Le(Zero, v), Lt(v, x.Args[0])))
			q := &prover{}
			if q.seqEq(c2, bx, by, depth+1) {
				return true
			}
			if p.why == "" {
				p.why = q.why
			}
		}
	}
	return p.pieceExt(c, x, y, depth)
}

// pieceExt: extensionality with a fresh index.
func (p *prover) pieceExt(c *Ctx, x, y *Term, depth int) bool {
	lx := SLen(x)
	if lx.IsInt64() && lx.Int64() <= 80 {
		for i := int64(0); i < lx.Int64(); i++ {
			g := Eq(At(x, IC(i)), At(y, IC(i)))
			if g == True {
				continue
			}
			if !p.elemEq(c, g, depth) {
				return p.fail(c, g, fmt.Sprintf("element %d of %s vs %s", i, x, y))
			}
		}
		return true
	}
	v := Fresh("sk", IntS)
	c2 := c.Assume(And(Le(Zero, v), Lt(v, lx)))
	save := cur
	cur = c2
	defer func() { cur = save }()
	g := Eq(At(x, v), At(y, v))
	if g == True || p.elemEq(c2, g, depth) {
		return true
	}
	return p.fail(c2, g, fmt.Sprintf("sequences differ: %s vs %s", x, y))
}

func (p *prover) elemEq(c *Ctx, g *Term, depth int) bool {
	if g == True {
		return true
	}
	q := &prover{}
	if g.Op == OAnd {
		for _, a := range g.Args {
			if !p.elemEq(c, a, depth) {
				return false
			}
		}
		return true
	}
	return q.smt(c, g, depth+1)
}

// instForalls instantiates the quantified facts at the indices that occur in
// the goal and the other facts (matching sequence elements) and asks the solver
// for the quantifier-free rest.
func instForalls(c *Ctx, g *Term) bool {
	var fas, ats []*Term
	seen := map[*Term]bool{}
	coll := func(t *Term) {
		for _, u := range collectUF(t) {
			if u.Op == OAt && u.fb == 0 && !seen[u] {
				seen[u] = true
				ats = append(ats, u)
			}
		}
	}
	coll(g)
	var rest0 []*Term
	var scan func(f *Term)
	scan = func(f *Term) {
		switch f.Op {
		case OForall:
			fas = append(fas, f)
		case OAnd:
			for _, a := range f.Args {
				scan(a)
			}
		default:
			coll(f)
			rest0 = append(rest0, f)
		}
	}
	for _, f := range c.Facts() {
		scan(f)
	}
	if len(fas) == 0 {
		return false
	}
	save := cur
	cur = nil
	defer func() { cur = save }()
	var ins []*Term
	done := map[*Term]bool{}
	for _, f := range fas {
		b := Bound(f.I)
		for _, u := range collectUF(f.Args[1]) {
			if u.Op != OAt || u.Args[0].fb != 0 || u.fb == 0 {
				continue
			}
			rest := Sub(u.Args[1], b)
			if rest.fb != 0 {
				continue
			}
			for _, a := range ats {
				if a.Args[0] != u.Args[0] {
					continue
				}
				i := Sub(a.Args[1], rest)
				in := Or(Lt(i, Zero), Le(f.Args[0], i), Inst(f, i))
				if in == True || done[in] {
					continue
				}
				done[in] = true
				if ins = append(ins, in); len(ins) > 60 {
					break
				}
			}
		}
	}
	if len(ins) == 0 {
		return false
	}
	as := append(append(rest0, ins...), Not(g))
	// first with the elements abstracted to constants
	m := map[*Term]*Term{}
	var abs []*Term
	for _, a := range as {
		for _, u := range collectUF(a) {
			if u.Op == OAt && u.fb == 0 && m[u] == nil {
				m[u] = Fresh("el", u.S)
			}
		}
	}
	for _, a := range as {
		abs = append(abs, Subst(a, m))
	}
	if smtCheck(abs, 2000) == "unsat" {
		return true
	}
	return smtCheck(as, 4000) == "unsat"
}

// isConstSeq: a sequence of constants.
func isConstSeq(t *Term) bool {
	if t.Op == OSCst {
		return true
	}
	if t.Op != OLit {
		return false
	}
	for _, a := range t.Args {
		if !a.IsC() {
			return false
		}
	}
	return true
}

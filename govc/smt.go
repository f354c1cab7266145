package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

var sprintf = fmt.Sprintf

// ---------- path contexts ----------

type Ctx struct {
	parent *Ctx
	fact   *Term
	depth  int
	id     int
	eqs    map[*Term]*Term // rewrite rules, cumulative (copied on change)
	cache  map[*Term]int
	dead   int // 1 known infeasible, 2 known feasible
	all    map[*Term]bool
}

var ctxCnt int
var cur *Ctx

var rootCtx = &Ctx{cache: map[*Term]int{}}

func (c *Ctx) Assume(t *Term) *Ctx {
	for _, f := range conj(t) {
		c = c.assume1(f).units(f).refuted(f)
	}
	return c
}

// refuted: when a sequence variable becomes known, the facts that exclude
// constants may turn out false.
func (c *Ctx) refuted(t *Term) *Ctx {
	if c.dead == 1 || t.Op != OEq || t.Args[0].S.K != SSeq {
		return c
	}
	v, k := t.Args[0], t.Args[1]
	if v.Op != OVar {
		v, k = k, v
	}
	if v.Op != OVar || !isConstSeq(k) {
		return c
	}
	save := cur
	defer func() { cur = save }()
	cur = c
	for p := c; p != nil; p = p.parent {
		f := p.fact
		if f == nil || f == t {
			continue
		}
		e := f
		if e.Op == ONot {
			e = e.Args[0]
		}
		if e.Op != OEq || e.Args[0].S.K != SSeq {
			continue
		}
		if cur = c; e == f {
			cur = c.withoutRule(f)
		}
		if Renorm(f) == False {
			c.dead = 1
			break
		}
	}
	return c
}

// units: disjunctions of which all but one member are refuted (unit propagation).
func (c *Ctx) units(t *Term) *Ctx {
	if c.dead == 1 {
		return c
	}
	left := func(o *Term) *Term {
		var l *Term
		for _, d := range o.Args {
			if c.Has(d) {
				return nil
			}
			if c.Has(Not(d)) {
				continue
			}
			if l != nil {
				return nil
			}
			l = d
		}
		return l
	}
	if t.Op == OOr {
		if l := left(t); l != nil {
			return c.Assume(l)
		}
		return c
	}
	n := Not(t)
	for p := c; p != nil; p = p.parent {
		if o := p.fact; o != nil && o.Op == OOr {
			for _, d := range o.Args {
				if d == n {
					if l := left(o); l != nil {
						return c.Assume(l)
					}
				}
			}
		}
	}
	return c
}
func (c *Ctx) assume1(t *Term) *Ctx {
	if t == True || c.Has(t) {
		return c
	}
	ctxCnt++
	n := &Ctx{parent: c, fact: t, depth: c.depth + 1, id: ctxCnt, eqs: c.eqs, cache: map[*Term]int{}}
	if t == False || c.Has(Not(t)) {
		n.dead = 1
	}
	if c.dead == 1 {
		n.dead = 1
	}
	add := func(l, r *Term) {
		m := map[*Term]*Term{}
		for k, v := range n.eqs {
			m[k] = v
		}
		m[l] = r
		n.eqs = m
	}
	switch t.Op {
	case OEq:
		a, b := t.Args[0], t.Args[1]
		if a.S.K == SSeq || a.S.K == SU || a.S.K == SBV {
			if l, r := orient(a, b); l != nil {
				add(l, r)
			}
		}
	case OEq0:
		p := t.Args[0]
		l := toLin(p)
		// var = poly (unit coefficient)
		for i, m := range l.m {
			if (m.Op == OVar || m.Op == OUF) && l.cs[i].CmpAbs(bigs[0]) == 0 {
				rest := Sub(p, MulC(m, l.cs[i]))
				if l.cs[i].Sign() > 0 {
					rest = Neg(rest)
				}
				if !occurs(rest, m) && n.eqs[m] == nil && rest.IsC() {
					add(m, rest)
					break
				}
			}
		}
	}
	return n
}

// withoutRule is c without the rewrite rules made of the equation f (the fact
// itself stays).
func (c *Ctx) withoutRule(f *Term) *Ctx {
	m := map[*Term]*Term{}
	for k, v := range c.eqs {
		if (k != f.Args[0] || v != f.Args[1]) && (k != f.Args[1] || v != f.Args[0]) {
			m[k] = v
		}
	}
	ctxCnt++
	return &Ctx{parent: c, fact: True, depth: c.depth + 1, id: ctxCnt, eqs: m, cache: map[*Term]int{}, dead: c.dead}
}

// orient an equation for rewriting: variables or larger terms to smaller.
func orient(a, b *Term) (l, r *Term) {
	switch {
	case a.Op == OVar && !occurs(b, a) && b.Op != OVar:
		return a, b
	case b.Op == OVar && !occurs(a, b) && a.Op != OVar:
		return b, a
	case a.IsC() || a.Op == OSCst:
		return b, a
	case b.IsC() || b.Op == OSCst:
		return a, b
	}
	if a.id < b.id {
		a, b = b, a
	}
	if !occurs(b, a) {
		return a, b
	}
	if !occurs(a, b) {
		return b, a
	}
	return nil, nil
}
func (c *Ctx) rewrite(t *Term) *Term { return c.eqs[t] }

func (c *Ctx) Facts() []*Term {
	var r []*Term
	for x := c; x != nil && x.fact != nil; x = x.parent {
		r = append(r, x.fact)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}
func (c *Ctx) Has(t *Term) bool {
	for x := c; x != nil && x.fact != nil; x = x.parent {
		if x.fact == t {
			return true
		}
	}
	return false
}
func (c *Ctx) Ext(root *Ctx) []*Term { // facts added since root
	var r []*Term
	for x := c; x != nil && x != root && x.fact != nil; x = x.parent {
		r = append(r, x.fact)
	}
	return r
}

var inSMT bool

func (c *Ctx) Decide(t *Term) int {
	if t == True {
		return 1
	}
	if t == False {
		return -1
	}
	if r, ok := c.cache[t]; ok {
		return r
	}
	r := 0
	for x := c; x != nil; x = x.parent {
		if v, ok := x.cache[t]; ok && v != 0 && x != c {
			r = v
			break
		}
	}
	if r == 0 {
		if c.Has(t) {
			r = 1
		} else if c.Has(Not(t)) {
			r = -1
		} else if inSMT {
			return 0
		} else {
			if c.proves(t, 500) {
				r = 1
			} else if c.proves(Not(t), 500) {
				r = -1
			}
		}
	}
	c.cache[t] = r
	return r
}

// proves: facts entail t, by SMT.
func (c *Ctx) proves(t *Term, ms int) bool {
	if dagSize(t, 3000) >= 3000 {
		return false // out of reach for the solvers
	}
	return smtCheck(append(c.Facts(), Not(t)), ms) == "unsat"
}

// Feasible reports whether the facts may be satisfiable (unknown counts as yes).
func (c *Ctx) Feasible() bool {
	if c.dead != 0 {
		return c.dead == 2
	}
	if c.fact == nil {
		return true
	}
	r := smtCheck(c.Facts(), 1000)
	if r == "unsat" {
		c.dead = 1
	} else {
		c.dead = 2
	}
	return c.dead == 2
}

// ---------- emission ----------

type emitter struct {
	decl     map[string]string
	order    []string
	defs     []string
	names    map[*Term]string
	sorts    map[string]bool
	extra    []string
	seqs     map[*Term]bool
	atoms    map[*Term]bool
	ufSeen   map[*Term]bool
	factSeen map[*Term]bool
	facts    []*Term
}

func newEmitter() *emitter {
	return &emitter{decl: map[string]string{}, names: map[*Term]string{}, sorts: map[string]bool{}, seqs: map[*Term]bool{}, ufSeen: map[*Term]bool{}, factSeen: map[*Term]bool{}}
}
func (e *emitter) sort(s *Sort) string {
	switch s.K {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	case SBV:
		return sprintf("(_ BitVec %d)", s.W)
	}
	n := "|" + s.String() + "|"
	if !e.sorts[n] {
		e.sorts[n] = true
	}
	return n
}
func (e *emitter) declare(name, sig string) {
	if _, ok := e.decl[name]; !ok {
		e.decl[name] = sig
		e.order = append(e.order, name)
	}
}

func boundList(mask int) []int {
	var r []int
	for i := 0; i < 60; i++ {
		if mask&(1<<uint(i)) != 0 {
			r = append(r, i)
		}
	}
	return r
}

// opaque term as a constant or a function of its free bound variables
func (e *emitter) opaque(t *Term, prefix string) string {
	name := sprintf("|%s%d|", prefix, t.id)
	bs := boundList(t.fb)
	if len(bs) == 0 {
		e.declare(name, "() "+e.sort(t.S))
		return name
	}
	sig := "("
	call := "(" + name
	for _, b := range bs {
		sig += "Int "
		call += sprintf(" b%d", b)
	}
	e.declare(name, sig+") "+e.sort(t.S))
	return call + ")"
}

func (e *emitter) emit(t *Term) string {
	if n, ok := e.names[t]; ok {
		return n
	}
	x := e.emit1(t)
	if t.fb == 0 && len(x) > 24 {
		n := sprintf("d%d", t.id)
		e.defs = append(e.defs, sprintf("(define-fun %s () %s %s)", n, e.sort(t.S), x))
		e.names[t] = n
		return n
	}
	e.names[t] = x
	return x
}
func smtInt(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}
func smtBV(n *big.Int, w int) string { return sprintf("(_ bv%s %d)", n.String(), w) }

func (e *emitter) nary(op string, ts []*Term) string {
	var b strings.Builder
	b.WriteString("(" + op)
	for _, t := range ts {
		b.WriteString(" " + e.emit(t))
	}
	b.WriteString(")")
	return b.String()
}

func (e *emitter) emit1(t *Term) string {
	switch t.Op {
	case OConst:
		switch t.S.K {
		case SBool:
			if t.N.Sign() != 0 {
				return "true"
			}
			return "false"
		case SBV:
			return smtBV(t.N, t.S.W)
		}
		return smtInt(t.N)
	case OVar:
		if t.S.K == SSeq {
			return e.seqConst(t)
		}
		n := "|" + t.Str + "|"
		if _, ok := e.decl[n]; !ok {
			e.declare(n, "() "+e.sort(t.S))
			if t.S.K == SInt {
				if t.N != nil {
					e.extra = append(e.extra, sprintf("(>= %s %s)", n, smtInt(t.N)))
				}
				if t.M != nil {
					e.extra = append(e.extra, sprintf("(<= %s %s)", n, smtInt(t.M)))
				}
			}
		}
		return n
	case OBound:
		return sprintf("b%d", t.I)
	case OPoly:
		var b strings.Builder
		b.WriteString("(+")
		for i, a := range t.Args {
			if t.Cs[i].Cmp(bigs[0]) == 0 {
				b.WriteString(" " + e.emit(a))
			} else {
				b.WriteString(sprintf(" (* %s %s)", smtInt(t.Cs[i]), e.emit(a)))
			}
		}
		if t.N.Sign() != 0 || len(t.Args) == 1 {
			b.WriteString(" " + smtInt(t.N))
		}
		b.WriteString(")")
		return b.String()
	case OMon:
		return e.nary("*", t.Args)
	case ODiv:
		return sprintf("(div %s %s)", e.emit(t.Args[0]), smtInt(t.N))
	case OMod:
		return sprintf("(mod %s %s)", e.emit(t.Args[0]), smtInt(t.N))
	case ODivT:
		r := e.nary("div", t.Args)
		if t.fb == 0 && !e.factSeen[t] {
			x, y := e.emit(t.Args[0]), e.emit(t.Args[1])
			e.factSeen[t] = true
			e.names[t] = r
			m := e.emit(Mul(t.Args[1], t))
			e.extra = append(e.extra, sprintf("(=> (> %s 0) (and (<= %s %s) (< %s (+ %s %s))))", y, m, x, x, m, y))
		}
		return r
	case OModT:
		return e.nary("mod", t.Args)
	case OLen:
		s := e.sort(t.Args[0].S)
		fn := "|len_" + t.Args[0].S.String() + "|"
		e.declare(fn, "("+s+") Int")
		x := sprintf("(%s %s)", fn, e.emit(t.Args[0]))
		if t.fb == 0 {
			e.extra = append(e.extra, sprintf("(>= %s 0)", x))
			e.extra = append(e.extra, sprintf("(<= %s %s)", x, lenMax))
		}
		return x
	case OBV2I:
		x := sprintf("(bv2nat %s)", e.emit(t.Args[0]))
		return x
	case OI2BV:
		return sprintf("((_ int2bv %d) %s)", t.S.W, e.emit(t.Args[0]))
	case OIte:
		if t.S.K == SSeq {
			return e.seqConst(t)
		}
		return e.nary("ite", t.Args)
	case OUF:
		if t.S.K == SSeq {
			return e.seqConst(t)
		}
		var sig, srt strings.Builder
		nm := t.Str
		for _, a := range t.Args {
			srt.WriteString(e.sort(a.S) + " ")
			sig.WriteString(a.S.String() + ",")
		}
		fn := "|" + nm + "/" + sig.String() + t.S.String() + "|"
		e.declare(fn, "("+srt.String()+") "+e.sort(t.S))
		var x string
		if len(t.Args) == 0 {
			x = fn
		} else {
			x = e.nary(fn, t.Args)
		}
		if u := ufInfo[t.Str]; u != nil && u.facts != nil && t.fb == 0 && !e.factSeen[t] {
			e.factSeen[t] = true
			save := cur
			cur = nil
			for _, f := range u.facts(t) {
				e.facts = append(e.facts, f)
			}
			cur = save
		}
		if t.S.K == SInt && t.fb == 0 && !e.ufSeen[t] {
			e.ufSeen[t] = true
			lo, hi := t.Range()
			if lo != nil {
				e.extra = append(e.extra, sprintf("(>= %s %s)", x, smtInt(lo)))
			}
			if hi != nil {
				e.extra = append(e.extra, sprintf("(<= %s %s)", x, smtInt(hi)))
			}
		}
		return x
	case OAt:
		return e.emitAt(t)
	case ONot:
		return e.nary("not", t.Args)
	case OAnd:
		return e.nary("and", t.Args)
	case OOr:
		return e.nary("or", t.Args)
	case OEq:
		return e.nary("=", t.Args)
	case OEq0:
		return sprintf("(= %s 0)", e.emit(t.Args[0]))
	case OGe0:
		return sprintf("(>= %s 0)", e.emit(t.Args[0]))
	case OUlt:
		return e.nary("bvult", t.Args)
	case OUle:
		return e.nary("bvule", t.Args)
	case OSlt:
		return e.nary("bvslt", t.Args)
	case OSle:
		return e.nary("bvsle", t.Args)
	case OForall:
		return sprintf("(forall ((b%d Int)) (=> (and (<= 0 b%d) (< b%d %s)) %s))", t.I, t.I, t.I, e.emit(t.Args[0]), e.emit(t.Args[1]))
	case OBAnd:
		return e.bin("bvand", t.Args)
	case OBOr:
		return e.bin("bvor", t.Args)
	case OBXor:
		return e.bin("bvxor", t.Args)
	case OBNot:
		return e.nary("bvnot", t.Args)
	case OBLin:
		x := smtBV(t.N, t.S.W)
		for i, a := range t.Args {
			if t.Cs[i].Cmp(bigs[0]) == 0 {
				x = sprintf("(bvadd %s %s)", x, e.emit(a))
			} else {
				x = sprintf("(bvadd %s (bvmul %s %s))", x, smtBV(t.Cs[i], t.S.W), e.emit(a))
			}
		}
		return x
	case OBMul:
		return e.nary("bvmul", t.Args)
	case OBUdiv:
		return e.nary("bvudiv", t.Args)
	case OBUrem:
		return e.nary("bvurem", t.Args)
	case OBShl, OBLshr, OBAshr:
		op := map[Op]string{OBShl: "bvshl", OBLshr: "bvlshr", OBAshr: "bvashr"}[t.Op]
		w := t.S.W
		n := e.emit(t.Args[1])
		a := e.emit(t.Args[0])
		sat := smtBV(big.NewInt(0), w)
		if t.Op == OBAshr {
			sat = sprintf("(bvashr %s %s)", a, smtBV(big.NewInt(int64(w-1)), w))
		}
		return sprintf("(ite (>= %s %d) %s (%s %s ((_ int2bv %d) %s)))", n, w, sat, op, a, w, n)
	case OBRotl:
		return sprintf("((_ rotate_left %d) %s)", t.I, e.emit(t.Args[0]))
	case OBRotlV:
		w := t.S.W
		a := e.emit(t.Args[0])
		k := sprintf("((_ int2bv %d) (mod %s %d))", w, e.emit(t.Args[1]), w)
		return sprintf("(bvor (bvshl %s %s) (bvlshr %s (bvsub %s %s)))", a, k, a, smtBV(big.NewInt(int64(w)), w), k)
	case OBCat:
		return e.nary("concat", t.Args)
	case OBExt:
		return sprintf("((_ extract %d %d) %s)", t.I, t.J, e.emit(t.Args[0]))
	case OBSext:
		return sprintf("((_ sign_extend %d) %s)", t.S.W-t.Args[0].S.W, e.emit(t.Args[0]))
	}
	if t.S.K == SSeq {
		return e.seqConst(t)
	}
	panic(sprintf("emit op %d", t.Op))
}
func (e *emitter) bin(op string, ts []*Term) string {
	x := e.emit(ts[0])
	for _, t := range ts[1:] {
		x = sprintf("(%s %s %s)", op, x, e.emit(t))
	}
	return x
}

// sequences are constants of an uninterpreted sort with len/at functions
func (e *emitter) seqConst(t *Term) string {
	x := e.opaque(t, "s")
	if t.fb == 0 && !e.seqs[t] {
		e.seqs[t] = true
		fn := "|len_" + t.S.String() + "|"
		e.declare(fn, "("+e.sort(t.S)+") Int")
		if l := SLen(t); l.Op != OLen || l.Args[0] != t {
			e.names[t] = x
			e.extra = append(e.extra, sprintf("(= (%s %s) %s)", fn, x, e.emit(l)))
		}
		if t.Op == OUF {
			if u := ufInfo[t.Str]; u != nil && u.facts != nil && !e.factSeen[t] {
				e.factSeen[t] = true
				e.names[t] = x
				save := cur
				cur = nil
				e.facts = append(e.facts, u.facts(t)...)
				cur = save
			}
		}
	}
	return x
}

func (e *emitter) emitAt(t *Term) string {
	s, i := t.Args[0], t.Args[1]
	switch s.Op {
	case OCat:
		pos := Zero
		var rec func(k int) *Term
		_ = rec
		var b strings.Builder
		cl := 0
		for k, p := range s.Args {
			l := SLen(p)
			if k == len(s.Args)-1 {
				b.WriteString(e.emit(At(p, Sub(i, pos))))
				break
			}
			end := Add(pos, l)
			c := Lt(i, end)
			if c == True {
				b.WriteString(e.emit(At(p, Sub(i, pos))))
				break
			}
			if c != False {
				b.WriteString(sprintf("(ite %s %s ", e.emit(c), e.emit(At(p, Sub(i, pos)))))
				cl++
			}
			pos = end
		}
		return b.String() + strings.Repeat(")", cl)
	case OLit, OSCst:
		us := litUnits(s)
		if len(us) == 0 {
			break
		}
		var b strings.Builder
		ie := e.emit(i)
		for k := 0; k < len(us)-1; k++ {
			b.WriteString(sprintf("(ite (= %s %d) %s ", ie, k, e.emit(us[k])))
		}
		b.WriteString(e.emit(us[len(us)-1]))
		return b.String() + strings.Repeat(")", len(us)-1)
	}
	fn := "|at_" + s.S.String() + "|"
	e.declare(fn, "("+e.sort(s.S)+" Int) "+e.sort(s.S.Elem))
	r := sprintf("(%s %s %s)", fn, e.emit(s), e.emit(i))
	if s.Op == OUF && s.S.Elem == IntS && t.fb == 0 && !e.ufSeen[t] {
		if lh, ok := elemRange[s.Str]; ok {
			e.ufSeen[t] = true
			e.extra = append(e.extra, sprintf("(and (>= %s %d) (<= %s %d))", r, lh[0], r, lh[1]))
			if s.Str == "runes" {
				e.extra = append(e.extra, sprintf("(or (< %s 55296) (> %s 57343))", r, r))
			}
		}
	}
	return r
}

// ---------- query ----------

func termAtoms(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.Op {
	case OVar, OUF:
		out[t] = true
		if t.Op == OVar {
			for _, a := range t.Args {
				termAtoms(a, out, seen)
			}
			return
		}
	}
	for _, a := range t.Args {
		termAtoms(a, out, seen)
	}
}

var atomMemo = map[*Term]map[*Term]bool{}

func atomsOf(t *Term) map[*Term]bool {
	if m := atomMemo[t]; m != nil {
		return m
	}
	m := map[*Term]bool{}
	termAtoms(t, m, map[*Term]bool{})
	atomMemo[t] = m
	return m
}

// relevant keeps the assertions connected to the last one.
func relevant(as []*Term) []*Term {
	n := len(as)
	if n <= 1 {
		return as
	}
	if len(atomsOf(as[n-1])) == 0 {
		return as
	}
	act := map[*Term]bool{}
	for a := range atomsOf(as[n-1]) {
		act[a] = true
	}
	used := make([]bool, n)
	used[n-1] = true
	for changed := true; changed; {
		changed = false
		for i := 0; i < n-1; i++ {
			if used[i] {
				continue
			}
			at := atomsOf(as[i])
			hit := len(at) == 0
			for a := range at {
				if act[a] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				for a := range at {
					act[a] = true
				}
			}
		}
	}
	var r []*Term
	for i := range as {
		if used[i] {
			r = append(r, as[i])
		}
	}
	return r
}

var smtCache = map[string]string{}
var smtStats struct {
	queries, hits int
	time          time.Duration
	unknown       int
	cvc5          int
}

func script(as []*Term) string {
	save := inSMT
	inSMT = true
	defer func() { inSMT = save }()
	e := newEmitter()
	var body []string
	for _, a := range as {
		body = append(body, e.emit(a))
	}
	for i := 0; i < len(e.facts) && i < 200; i++ {
		if f := e.facts[i]; f != True {
			body = append(body, e.emit(f))
		}
	}
	var b strings.Builder
	var ss []string
	for s := range e.sorts {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	for _, s := range ss {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	for _, n := range e.order {
		fmt.Fprintf(&b, "(declare-fun %s %s)\n", n, e.decl[n])
	}
	for _, d := range e.defs {
		b.WriteString(d + "\n")
	}
	seen := map[string]bool{}
	for _, x := range e.extra {
		if !seen[x] {
			seen[x] = true
			fmt.Fprintf(&b, "(assert %s)\n", x)
		}
	}
	for _, x := range body {
		fmt.Fprintf(&b, "(assert %s)\n", x)
	}
	return b.String()
}

// smtCheck: satisfiability of the conjunction; "sat", "unsat" or "unknown".
func smtCheck(as []*Term, ms int) string {
	for _, a := range as {
		if a == False {
			return "unsat"
		}
	}
	as = relevant(as)
	s := script(as)
	ck := sprintf("%d|", ms) + s
	if r, ok := smtCache[ck]; ok {
		smtStats.hits++
		return r
	}
	t0 := time.Now()
	r := z3Run(s, ms)
	if r == "unknown" && ms >= 2000 {
		if r2 := cvc5Run(s, ms); r2 != "unknown" {
			smtStats.cvc5++
			r = r2
		}
	}
	smtStats.queries++
	smtStats.time += time.Since(t0)
	if r == "unknown" {
		smtStats.unknown++
	}
	smtCache[ck] = r
	if dt := time.Since(t0); dt > time.Second && verbose > 0 {
		fmt.Printf("  [smt] slow query %v -> %s (goal %.300s)\n", dt, r, as[len(as)-1])
	}
	return r
}

type z3Proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

var z3p *z3Proc
var z3Uses int

func z3Start() *z3Proc {
	cmd := exec.Command("z3-new", "-in", "-smt2")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	return &z3Proc{cmd, in, bufio.NewReader(out)}
}
func z3Run(s string, ms int) string {
	if z3p == nil || z3Uses > 3000 {
		if z3p != nil {
			z3p.in.Close()
			z3p.cmd.Process.Kill()
			z3p.cmd.Wait()
		}
		z3p = z3Start()
		z3Uses = 0
	}
	z3Uses++
	fmt.Fprintf(z3p.in, "(push)\n(set-option :timeout %d)\n(set-option :rlimit %d)\n%s(check-sat)\n(pop)\n(echo \"end\")\n", 8*ms+2000, ms*5000, s)
	res := "unknown"
	done := make(chan bool)
	p := z3p
	go func() {
		for {
			line, err := p.out.ReadString('\n')
			if err != nil {
				break
			}
			line = strings.TrimSpace(line)
			if line == "end" {
				break
			}
			if line == "sat" || line == "unsat" || line == "unknown" {
				res = line
			} else if strings.HasPrefix(line, "(error") {
				res = "unknown"
				fmt.Println("  [smt] error:", line)
				if os.Getenv("GOVC_DUMP") != "" {
					fmt.Println(s)
				}
			}
		}
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(time.Duration(ms)*time.Millisecond*9 + 10*time.Second):
		p.cmd.Process.Kill()
		p.cmd.Wait()
		<-done
		z3p = nil
		return "unknown"
	}
	return res
}
func cvc5Run(s string, ms int) string {
	cmd := exec.Command("cvc5", "--lang=smt2", sprintf("--tlimit=%d", 8*ms), sprintf("--rlimit=%d", ms*300), "-")
	s = strings.ReplaceAll(s, "(bv2nat ", "(ubv_to_int ")
	s = strings.ReplaceAll(s, "((_ int2bv ", "((_ int_to_bv ")
	cmd.Stdin = strings.NewReader("(set-logic ALL)\n" + s + "(check-sat)\n")
	out, _ := cmd.Output()
	o := strings.TrimSpace(string(out))
	if strings.HasPrefix(o, "unsat") {
		return "unsat"
	}
	if strings.HasPrefix(o, "sat") {
		return "sat"
	}
	return "unknown"
}

func dagSize(t *Term, max int) int {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if len(seen) >= max || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	return len(seen)
}

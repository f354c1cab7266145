package main

import (
	"go/token"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop handling. A loop whose header condition is a literal constant at every
// visit is executed concretely. Otherwise the verifier synthesises an inductive
// invariant "at the k-th visit of the header the loop state is closed(k)" from
// one symbolic iteration, proves that it is preserved by re-executing the real
// body from closed(k), and continues with the exit states at a symbolic k.
// Components for which no closed form is found are left arbitrary. Only when
// this fails is the loop unrolled up to a bound (reported as bounded).

type leaf struct {
	typ   types.Type // of a list that is not examined
	name  string
	phi   int  // env index (-1: heap)
	comp  int  // slice component: 0 scalar, 1 off, 2 len, 3 cap, 4 content
	obj   int  // heap object
	path  []PE // heap path
	init  *Term
	sym   *Term
	upd   *Term
	at    func(k *Term) *Term // closed form
	next  func(k *Term) *Term // expected value after iteration k
	free  bool                // arbitrary in every iteration
	elem  types.Type
	noneg bool
	lens  []*Term // the two lengths this sequence can have
	nlens bool    // such an invariant was tried and given up
	isNil bool    // starts as a nil slice
	syms  []*Term // its symbols in the exploratory iterations
	probe bool    // explore the nil case first
	want  *Term   // the length in the case under consideration
}

var loopDebug = false

func (x *Exec) headerCond(f *frame, p *pend) *Term {
	// evaluate pure header instructions up to the If
	b := p.b
	env := append([]Value{}, p.env...)
	q := &pend{b: b, env: env, st: p.st.clone(), iter: p.iter, key: p.key}
	sub := &frame{x: x, fi: f.fi, fn: f.fn, obj0: f.obj0}
	var res *Term
	func() {
		defer func() { recover() }()
		for i, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.Phi:
				continue
			case *ssa.Call:
				if fn := y.Call.StaticCallee(); fn != nil && fn.String() == "(golang.org/x/crypto/cryptobyte.String).Empty" {
					save := cur
					cur = nil
					q.env[f.fi.num[y]] = EqI(sub.val(q, y.Call.Args[0]).(SliceV).Len, Zero)
					cur = save
					continue
				}
				if bi, ok := y.Call.Value.(*ssa.Builtin); !ok || (bi.Name() != "len" && bi.Name() != "cap") {
					return
				}
			case *ssa.If:
				res, _ = sub.val(q, y.Cond).(*Term)
				return
			case *ssa.Jump, *ssa.Return, *ssa.Panic:
				return
			}
			save := cur
			cur = nil
			ok := sub.step(q, in, i)
			cur = save
			if !ok {
				return
			}
		}
	}()
	cur = p.st.ctx
	return res
}

func (f *frame) enterLoop(l *loopInfo, p *pend) bool {
	x := f.x
	it := p.iter[p.b]
	c := x.headerCond(f, p)
	if c != nil && !c.IsC() && len(p.b.Succs) == 2 && !l.blocks[p.b.Succs[0]] && l.blocks[p.b.Succs[1]] {
		c = Not(c) // the condition for going on
	}
	concrete := c != nil && c.IsC()
	if concrete && !(x.sumFirst && it == 0 && loopHasLoop(f.fi, l)) {
		if it > 20000 {
			bail("loop does not terminate within the limit in %s", f.fn)
		}
		return false
	}
	if it == 0 || !concrete {
		if it < 2 {
			if f.summarise(l, p) {
				return true
			}
		}
	}
	if concrete {
		return false
	}
	if c != nil && Decide(c) == 1 && it < 300 {
		return false // number of iterations is determined by the path condition
	}
	if c == nil && it < x.symIter {
		// endless loop form: unroll
		if os.Getenv("GOVC_LOOP") != "" {
			fmt.Fprintln(os.Stderr, "NILCOND", f.fn, p.b, it)
		}
		return false
	}
	if it >= x.symIter {
		if os.Getenv("GOVC_LOOP") != "" {
			fmt.Fprintln(os.Stderr, "CUT", f.fn, p.b, it, c)
		}
		// cut: only the exit is explored
		x.bounded[f.fn.String()]++
		if c == nil {
			return true
		}
		p.st = p.st.clone()
		p.st.assume(Not(c))
		if !p.st.ctx.Feasible() {
			return true
		}
		cur = p.st.ctx
		return false
	}
	if os.Getenv("GOVC_LOOP") != "" {
		fmt.Fprintln(os.Stderr, "OPEN", f.fn, p.b, it, c)
	}
	return false
}

func loopHasLoop(fi *fnInfo, l *loopInfo) bool {
	for h, m := range fi.loops {
		if m != l && l.blocks[h] {
			return true
		}
	}
	return false
}

// runIter executes one iteration from the given header state.
func (f *frame) runIter(l *loopInfo, env []Value, st *State, p *pend) *frame {
	it := map[*ssa.BasicBlock]int{}
	for k, v := range p.iter {
		it[k] = v
	}
	it[l.head] = 0
	fr := &frame{x: f.x, fi: f.fi, fn: f.fn, loop: l, obj0: f.obj0}
	fr.push(&pend{b: l.head, env: env, st: st, key: f.fi.order[l.head], iter: it})
	fr.run()
	return fr
}

func pathKey(o int, p []PE) string {
	s := fmt.Sprint(o)
	for _, e := range p {
		if e.I != nil {
			s += fmt.Sprintf("[%d]", e.I.id)
		} else {
			s += fmt.Sprintf(".%d", e.F)
		}
	}
	return s
}

// diffLeaves: scalar locations where two heap values differ.
func diffLeaves(a, b Value, path []PE, out *[][]PE) bool {
	if sameValue(a, b) {
		return true
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.S == y.S {
			*out = append(*out, path)
			return true
		}
	case StructV:
		y, ok := b.(StructV)
		if !ok {
			return false
		}
		for i := range x.F {
			if !diffLeaves(x.F[i], y.F[i], append(append([]PE{}, path...), PE{F: i}), out) {
				return false
			}
		}
		return true
	case ArrV:
		y, ok := b.(ArrV)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		for i := range x.E {
			if !diffLeaves(x.E[i], y.E[i], append(append([]PE{}, path...), PE{I: IC(int64(i))}), out) {
				return false
			}
		}
		return true
	case HashV:
		y, ok := b.(HashV)
		if ok && x.Kind == y.Kind && x.Key == y.Key {
			*out = append(*out, append(append([]PE{}, path...), PE{F: -7}))
			return true
		}
	case ModelV:
		y, ok := b.(ModelV)
		if ok && x.Kind == y.Kind && len(x.T) == len(y.T) && len(x.V) == 0 {
			for i := range x.T {
				if x.T[i] != y.T[i] {
					*out = append(*out, append(append([]PE{}, path...), PE{F: -100 - i}))
				}
			}
			return true
		}
	case SliceV:
		y, ok := b.(SliceV)
		if ok && seqElem(x.Elem) != nil {
			_ = y
			*out = append(*out, append(append([]PE{}, path...), PE{F: -8}))
			return true
		}
	}
	if listsOpaque && isListV(a) && isListV(b) {
		*out = append(*out, append(append([]PE{}, path...), PE{F: -9}))
		return true
	}
	return false
}

// listsOpaque: a list of non-scalars that grows in a loop becomes a value that
// is not examined (harness flag longlists).
var listsOpaque bool

// isListV: a list that is not examined, or one without elements or room for any.
func isListV(v Value) bool {
	switch a := v.(type) {
	case OpaqueV:
		_, ok := a.T.Underlying().(*types.Slice)
		return ok
	case SliceV:
		return seqElem(a.Elem) == nil
	}
	return false
}

func noRoom(v Value) bool {
	a, ok := v.(SliceV)
	return !ok || a.Nil || a.Cap == Zero
}

func listTerm(v Value) *Term {
	switch a := v.(type) {
	case OpaqueV:
		return a.X
	case SliceV:
		return Fresh("list", US("opq"))
	}
	return nil
}

// leaf access in the heap (supports the pseudo fields used by diffLeaves)
func (s *State) loadLeaf(o int, path []PE, l *leaf) *Term {
	v := s.heap.get(o)
	for i, e := range path {
		switch {
		case e.F == -7:
			return v.(HashV).M
		case e.F <= -100:
			return v.(ModelV).T[-100-e.F]
		case e.F == -8:
			return s.seqOf(v.(SliceV))
		case e.F == -9:
			return listTerm(v)
		}
		v = getPath(v, path[i:i+1])
	}
	t, _ := v.(*Term)
	return t
}
func (s *State) storeLeaf(o int, path []PE, t *Term) {
	if n := len(path); n > 0 && path[n-1].F < 0 {
		base := Ptr{O: o, P: path[:n-1]}
		v := s.load(base)
		switch e := path[n-1]; {
		case e.F == -7:
			h := v.(HashV)
			h.M = t
			s.store(base, h)
		case e.F <= -100:
			m := v.(ModelV)
			ts := append([]*Term{}, m.T...)
			ts[-100-e.F] = t
			s.store(base, ModelV{m.Kind, ts, m.V})
		case e.F == -8:
			sl := v.(SliceV)
			s.store(base, s.newSeqSlice(sl.Elem, t))
		case e.F == -9:
			if sl, ok := v.(SliceV); ok {
				v = OpaqueV{T: types.NewSlice(sl.Elem)}
			}
			s.store(base, OpaqueV{T: v.(OpaqueV).T, X: t})
		}
		return
	}
	s.store(Ptr{O: o, P: path}, t)
}

type summar struct {
	f      *frame
	l      *loopInfo
	p      *pend
	leaves []*leaf
	objMax int
	bfacts []*Term // facts of a single back edge of the exploratory iteration
}

// dropMods removes reductions of integers that are in range in every executed iteration.
func (s *summar) dropMods(u, k *Term, base *Ctx, solved map[*Term]*Term) *Term {
	isLeaf := map[*Term]bool{}
	for _, l := range s.leaves {
		isLeaf[l.sym] = true
	}
	c := base.Assume(Le(Zero, k))
	for _, f := range s.bfacts {
		f = Subst(f, solved)
		ok := true
		for a := range atomsOf(f) {
			if isLeaf[a] && solved[a] == nil {
				ok = false
			}
		}
		if ok {
			c = c.Assume(f)
		}
	}
	return inRange(c, u)
}

// inRange removes reductions and conversions of integers that are in range
// under the facts of c.
func inRange(c *Ctx, u *Term) *Term {
	save := cur
	defer func() { cur = save }()
	cur = c
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.Args) == 0 || t.Op == OVar {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = rec(a)
		}
		r := Rebuild(t, args)
		if r.bd == 0 {
			switch {
			case r.Op == OMod:
				if z := r.Args[0]; Decide(And(Le(Zero, z), Lt(z, ICB(r.N)))) == 1 {
					r = z
				}
			case r.Op == OBV2I && r.Args[0].Op == OI2BV:
				if z := r.Args[0].Args[0]; Decide(And(Le(Zero, z), Lt(z, ICB(pow2(r.Args[0].S.W))))) == 1 {
					r = z
				}
			}
		}
		memo[t] = r
		return r
	}
	return rec(u)
}

func (f *frame) summarise(l *loopInfo, p *pend) (ok bool) {
	x := f.x
	nOut, nWork, nExit, nBack := len(f.out), len(f.work), len(f.exits), len(f.backs)
	stk := len(x.stack)
	savedBounded := map[string]int{}
	for k, v := range x.bounded {
		savedBounded[k] = v
	}
	savedMute := x.mute
	defer func() {
		x.mute = savedMute
		if r := recover(); r != nil {
			x.stack = x.stack[:stk]
			switch e := r.(type) {
			case unmodelled:
				if loopDebug {
					fmt.Printf("  [loop] %s block %d: summarisation failed: %s\n", f.fn, l.head.Index, e.msg)
				}
			case forkErr:
				if loopDebug {
					fmt.Printf("  [loop] %s: summarisation needs case split on %s\n", f.fn, e.t)
				}
			default:
				panic(r)
			}
			f.out, f.work, f.exits, f.backs = f.out[:nOut], f.work[:nWork], f.exits[:nExit], f.backs[:nBack]
			x.bounded = savedBounded
			cur = p.st.ctx
			ok = false
		}
	}()
	s := &summar{f: f, l: l, p: p, objMax: objCnt}
	return s.run()
}

func (s *summar) phiLeaves() {
	f := s.f
	for _, in := range s.l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n := f.fi.num[ph]
		v := s.p.env[n]
		switch t := v.(type) {
		case *Term:
			s.leaves = append(s.leaves, &leaf{name: ph.Comment, phi: n, init: t})
		case SliceV:
			if !t.Nil {
				for c, tm := range []*Term{t.Off, t.Len, t.Cap} {
					s.leaves = append(s.leaves, &leaf{name: ph.Comment, phi: n, comp: c + 1, init: tm, elem: t.Elem})
				}
			}
		}
	}
}

func (l *leaf) isInt() bool { return l.init.S == IntS }

// fresh symbol for a leaf in the exploratory iteration
func (l *leaf) mkSym() *Term {
	switch {
	case l.free && l.init.S == IntS && l.comp == 0:
		return FreshR("lp_"+l.name, nil, nil)
	case l.init.S == IntS && l.comp > 0:
		return FreshR("lp_"+l.name, new(big.Int), lenMax)
	case l.init.S == IntS:
		return FreshR("lp_"+l.name, new(big.Int).Neg(pow2(50)), pow2(50))
	case l.init.S.K == SSeq:
		n := SLen(l.init)
		if l.want != nil {
			return FreshSeq("lp_"+l.name, l.init.S.Elem, l.want)
		}
		if l.comp == 4 || !n.IsC() {
			return FreshSeq("lp_"+l.name, l.init.S.Elem, FreshR("lplen", new(big.Int), lenMax))
		}
		return FreshSeq("lp_"+l.name, l.init.S.Elem, n)
	}
	return Fresh("lp_"+l.name, l.init.S)
}

// build the header state with the given leaf values
func (s *summar) build(val func(l *leaf) *Term, ctx *Ctx) ([]Value, *State) {
	env := append([]Value{}, s.p.env...)
	st := s.p.st.clone()
	st.ctx = ctx
	cur = ctx
	for _, l := range s.leaves {
		t := val(l)
		if l.phi < 0 {
			st.storeLeaf(l.obj, l.path, t)
			continue
		}
		switch l.comp {
		case 0:
			env[l.phi] = t
		case 5:
			env[l.phi] = OpaqueV{T: l.typ, X: t}
		case 4:
			sv := st.newSeqSlice(l.elem, t)
			sv.Maybe = l.isNil && (!SLen(t).IsC() || SLen(t) == Zero)
			if l.isNil && l.want == Zero {
				sv = zeroValue(types.NewSlice(l.elem)).(SliceV)
			}
			env[l.phi] = sv
		default:
			sv := env[l.phi].(SliceV)
			switch l.comp {
			case 1:
				sv.Off = t
			case 2:
				sv.Len = t
			case 3:
				sv.Cap = t
			}
			env[l.phi] = sv
		}
	}
	return env, st
}

// value of a leaf in a back-edge state
func (s *summar) get(l *leaf, b *pend) *Term {
	cur = b.st.ctx
	if l.phi < 0 {
		return b.st.loadLeaf(l.obj, l.path, l)
	}
	v := b.env[l.phi]
	switch l.comp {
	case 0:
		t, _ := v.(*Term)
		return t
	case 5:
		return listTerm(v)
	case 4:
		sv := v.(SliceV)
		return b.st.seqOf(sv)
	}
	sv, ok := v.(SliceV)
	if !ok || sv.Nil {
		return nil
	}
	return []*Term{nil, sv.Off, sv.Len, sv.Cap}[l.comp]
}

func (s *summar) run() bool {
	f, x := s.f, s.f.x
	base := s.p.st.ctx
	x.mute++ // exploratory runs record no obligations
	s.phiLeaves()
	var backs []*pend
	for round := 0; ; round++ {
		if round > 8 {
			bail("leaf discovery does not converge")
		}
		for _, l := range s.leaves {
			l.sym, l.syms = nil, nil
		}
		fr := s.iterate(func(l *leaf) *Term {
			if l.sym == nil || l.want != nil {
				l.sym = l.mkSym()
				l.syms = append(l.syms, l.sym)
			}
			return l.sym
		}, base)
		backs = fr.backs
		if len(backs) == 0 {
			return false
		}
		changed := s.twoLengths(backs)
		// slices whose base changes become content leaves
		for _, in := range s.l.head.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			n := f.fi.num[ph]
			v0 := s.p.env[n]
			for _, b := range backs {
				v1 := b.env[n]
				if hasComp(s.leaves, n, 5) {
					continue
				}
				if listsOpaque && isListV(v0) && isListV(v1) && !sameValue(v0, v1) {
					if sl, ok := v0.(SliceV); ok && !noRoom(v0) && !s.owned(n, sl.B.O) {
						bail("slice %s has room and grows in the loop", ph.Comment)
					}
					var ls []*leaf
					for _, l := range s.leaves {
						if l.phi != n {
							ls = append(ls, l)
						}
					}
					cur = s.p.st.ctx
					s.leaves = append(ls, &leaf{name: ph.Comment, phi: n, comp: 5, init: listTerm(v0), typ: ph.Type()})
					changed = true
					break
				}
				switch t0 := v0.(type) {
				case *Term:
					if t1, ok := v1.(*Term); !ok || t1.S != t0.S {
						bail("phi %s changes shape", ph.Comment)
					}
				case SliceV:
					t1, ok := v1.(SliceV)
					if !ok {
						bail("phi %s changes shape", ph.Comment)
					}
					if hasComp(s.leaves, n, 4) {
						continue
					}
					if t0.Nil && t1.Nil || !t0.Nil && !t1.Nil && sameValue(t0.B, t1.B) {
						continue
					}
					if seqElem(t0.Elem) == nil {
						bail("slice phi %s of non-scalars", ph.Comment)
					}
					if !t0.Nil && t0.Cap != Zero {
						for _, b := range backs {
							for _, c := range s.changed(b.st.heap) {
								if c.o == t0.B.O && !sameValue(c.v, c.v0) && !s.growsOnly(t0) && !s.owned(n, t0.B.O) {
									bail("slice %s is written to and reassigned in the loop", ph.Comment)
								}
							}
						}
					}
					var ls []*leaf
					for _, l := range s.leaves {
						if l.phi != n {
							ls = append(ls, l)
						}
					}
					cur = s.p.st.ctx
					s.leaves = append(ls, &leaf{name: ph.Comment, phi: n, comp: 4, init: s.p.st.seqOf(t0), elem: t0.Elem, isNil: t0.Nil, probe: t0.Nil && comparesNil(s.l)})
					changed = true
				default:
					if !sameValue(v0, v1) {
						bail("phi %s: %T varies", ph.Comment, v0)
					}
				}
				if changed {
					break
				}
			}
		}
		// heap
		have := map[string]bool{}
		for _, l := range s.leaves {
			if l.phi < 0 {
				have[pathKey(l.obj, l.path)] = true
			}
		}
		cur = base
		for _, b := range backs {
			for _, c := range s.changed(b.st.heap) {
				o, v, v0 := c.o, c.v, c.v0
				var paths [][]PE
				if !diffLeaves(v0, v, nil, &paths) {
					bail("heap object %d (%v) changes shape in loop", o, objType[o])
				}
				for _, pt := range paths {
					k := pathKey(o, pt)
					if have[k] {
						continue
					}
					have[k] = true
					if n := len(pt); n > 0 && pt[n-1].F == -9 && !noRoom(s.p.st.load(Ptr{O: o, P: pt[:n-1]})) {
						bail("list in heap object %d has room and grows in the loop", o)
					}
					cur = s.p.st.ctx
					t0 := s.p.st.loadLeaf(o, pt, nil)
					if t0 == nil {
						bail("heap leaf")
					}
					s.leaves = append(s.leaves, &leaf{name: sprintf("h%d", o), phi: -1, obj: o, path: pt, init: t0})
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	s.noAlias(backs)
	// update terms (merge the back edges)
	for _, l := range s.leaves {
		var t *Term
		var cx *Ctx
		for _, b := range backs {
			u := s.get(l, b)
			if u == nil {
				bail("leaf %s has no update", l.name)
			}
			if loopDebug && len(backs) > 1 && l.init.S.K == SSeq {
				us := u.String()
				if len(us) > 1200 {
					us = us[:100] + " ... " + us[len(us)-300:]
				}
				fmt.Printf("   [back] %s len %s: %s\n", l.name, SLen(u), us)
			}
			if t == nil {
				t, cx = u, b.st.ctx
				continue
			}
			nc, lit := mergeCtx(cx, b.st.ctx)
			if u != t {
				t = Ite(lit, t, u)
			}
			cx = nc
		}
		l.upd = t
	}
	if len(backs) == 1 {
		s.bfacts = backs[0].st.ctx.Ext(base)
	}
	freshMark := freshCnt
	k := FreshR("k", new(big.Int), pow2(50))
	s.solve(k, base, freshMark)
	if loopDebug {
		for _, l := range s.leaves {
			d := "FREE"
			if !l.free {
				d = l.at(k).String()
			}
			fmt.Printf("  [loop] %s b%d leaf %s/%d init=%.100s upd=%.300s closed=%.300s\n", f.fn, s.l.head.Index, l.name, l.comp, l.init, l.upd, d)
		}
	}
	// C1: continuation facts
	ctxK := base.Assume(Le(Zero, k))
	mark := freshCnt
	val := func(l *leaf) *Term {
		if l.free {
			if l.sym == nil || l.want != nil {
				l.sym = l.mkSym()
			}
			return l.sym
		}
		return l.at(k)
	}
	renew := func() {
		for _, l := range s.leaves {
			if l.free {
				l.sym = nil
			}
		}
	}
	renew()
	fr := s.iterate(val, ctxK)
	if len(fr.backs) == 0 {
		return false
	}
	cont := s.contFacts(fr.backs, ctxK, k, mark)
	if loopDebug {
		fmt.Printf("  [loop] cont: %s\n", cont)
	}
	// C2: the verified iteration
	cur = base
	ctx2 := ctxK
	prev := Subst(cont, map[*Term]*Term{k: AddC(k, -1)})
	ctx2 = ctx2.Assume(Or(EqI(k, Zero), prev))
	for _, cj := range conj(cont) {
		if interesting(cj) && !linearMono(cj, k) {
			v := Fresh("j", IntS)
			ctx2 = ctx2.Assume(Forall(k, v, Subst(cj, map[*Term]*Term{k: v})))
		}
	}
	x.mute--
	renew()
	fr = s.iterate(val, ctx2)
	// inductive step
	for _, b := range fr.backs {
		for _, l := range s.leaves {
			if l.free {
				if l.lens != nil {
					got := s.get(l, b)
					cur = b.st.ctx
					if n := SLen(got); n != l.lens[1] && (n != l.lens[0] || !s.sameNil(l, b)) {
						bail("length of %s not preserved: %.200s", l.name, n)
					}
				}
				continue
			}
			got := s.get(l, b)
			want := l.next(k)
			cur = b.st.ctx
			if x.mute == 0 && x.result != nil {
				x.result.Checks++
			}
			if got == want {
				continue
			}
			if got != want && (got.S.K == SSeq || got.S.K == SBV) {
				got, want = inRange(b.st.ctx, got), inRange(b.st.ctx, want)
			}
			if ok, why := Prove(b.st.ctx, Eq(got, want)); !ok {
				bail("invariant for %s not preserved: got %.500s want %.500s (%.300s)", l.name, got, want, why)
			}
		}
		// anything else modified?
		for _, c := range s.changed(b.st.heap) {
			o, v, v0 := c.o, c.v, c.v0
			if sameValue(v, v0) {
				continue
			}
			var paths [][]PE
			if !diffLeaves(v0, v, nil, &paths) {
				bail("unexpected heap change")
			}
			for _, pt := range paths {
				found := false
				for _, l := range s.leaves {
					if l.phi < 0 && pathKey(l.obj, l.path) == pathKey(o, pt) {
						found = true
					}
				}
				if !found {
					bail("unexpected heap change in step")
				}
			}
		}
	}
	x.loops[f.fn.String()]++
	f.out = append(f.out, fr.out...)
	for _, e := range fr.exits {
		s.fixK(e, k, cont, base)
		f.accept(e)
	}
	return true
}

// iterate runs one iteration from the header state with the given leaf values,
// once per combination of the lengths of the leaves that have two of them.
func (s *summar) iterate(val func(l *leaf) *Term, ctx *Ctx) *frame {
	var two []*leaf
	for _, l := range s.leaves {
		l.want = nil
		if l.probe {
			l.want = Zero
		}
		if l.lens != nil {
			two = append(two, l)
		}
	}
	if len(two) > 2 {
		bail("too many leaves with two lengths")
	}
	var r *frame
	for m := 0; m < 1<<len(two); m++ {
		for i, l := range two {
			l.want = l.lens[m>>i&1]
		}
		env, st := s.build(val, ctx)
		fr := s.f.runIter(s.l, env, st, s.p)
		if r == nil {
			r = fr
			continue
		}
		r.backs = append(r.backs, fr.backs...)
		r.exits = append(r.exits, fr.exits...)
		r.out = append(r.out, fr.out...)
	}
	return r
}

// owned: at the start of the loop the array o, allocated since the function was
// entered, is referenced by the loop variable n and nothing else.
func (s *summar) owned(n, o int) bool {
	if s.f.obj0 == 0 || o <= s.f.obj0 {
		return false
	}
	fi := s.f.fi
	for v := range fi.live[s.l.head] {
		if v != n && v < len(s.p.env) && refersTo(s.p.env[v], o) {
			return false
		}
	}
	ok := true
	s.p.st.heap.diff(newHeap(), func(p int, v, _ Value) bool {
		ok = ok && (v == nil || !refersTo(v, o))
		return ok
	})
	return ok
}

func refersTo(v Value, o int) bool {
	any := func(vs []Value) bool {
		for _, e := range vs {
			if refersTo(e, o) {
				return true
			}
		}
		return false
	}
	switch a := v.(type) {
	case nil, *Term, OpaqueV, HashV:
		return false
	case Ptr:
		return a.O == o
	case SliceV:
		return !a.Nil && a.B.O == o
	case StructV:
		return any(a.F)
	case ArrV:
		return any(a.E)
	case IfaceV:
		return a.T != nil && refersTo(a.V, o)
	case FuncV:
		return any(a.B)
	case TupleV:
		return any(a.E)
	case MapV:
		return a.O == o
	case *MapObj:
		return any(a.K) || any(a.V)
	case ModelV:
		return any(a.V)
	}
	return true
}

// growsOnly: a full slice that the first iteration does not write to in place.
func (s *summar) growsOnly(t0 SliceV) bool {
	if t0.Cap != t0.Len {
		return false
	}
	st := s.p.st.clone()
	cur = st.ctx
	fr := s.f.runIter(s.l, append([]Value{}, s.p.env...), st, s.p)
	for _, b := range fr.backs {
		for _, c := range s.changed(b.st.heap) {
			if c.o == t0.B.O && !sameValue(c.v, c.v0) {
				return false
			}
		}
	}
	return true
}

// comparesNil: the loop compares a slice with nil.
func comparesNil(l *loopInfo) bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if op, ok := in.(*ssa.BinOp); ok && (op.Op == token.EQL || op.Op == token.NEQ) {
				if _, ok := op.X.Type().Underlying().(*types.Slice); ok {
					return true
				}
			}
		}
	}
	return false
}

// sameNil: a leaf that starts as nil is still nil in b.
func (s *summar) sameNil(l *leaf, b *pend) bool {
	if !l.isNil {
		return true
	}
	v, ok := b.env[l.phi].(SliceV)
	return ok && v.Nil
}

// noAlias refuses two loop-carried slices over one array.
func (s *summar) noAlias(backs []*pend) {
	for _, b := range backs {
		seen := map[int]string{}
		for _, l := range s.leaves {
			if l.phi < 0 || l.comp != 4 {
				continue
			}
			v, ok := b.env[l.phi].(SliceV)
			if !ok || v.Nil {
				continue
			}
			if o, ok := seen[v.B.O]; ok {
				bail("%s and %s share an array in the loop", o, l.name)
			}
			seen[v.B.O] = l.name
		}
	}
}

// twoLengths looks for sequences that start with one constant length, and that an
// iteration leaves as they are or gives another constant length.
func (s *summar) twoLengths(backs []*pend) bool {
	changed := false
	for _, l := range s.leaves {
		if l.init.S.K != SSeq || l.nlens || !SLen(l.init).IsC() {
			continue
		}
		probe := l.probe
		l.probe = false
		if l.lens == nil && SLen(l.sym).IsC() && !probe {
			continue
		}
		other, okk := (*Term)(nil), true
		for _, b := range backs {
			u := s.get(l, b)
			if u == nil {
				okk = false
				break
			}
			n := SLen(u)
			switch {
			case n == SLen(l.init) && u != l.sym && !s.sameNil(l, b):
				okk = false
			case n == SLen(l.init) || n == other || n == SLen(l.sym):
			case n.IsC() && other == nil:
				other = n
			default:
				okk = false
			}
		}
		switch {
		case l.lens != nil && (!okk || other != nil && other != l.lens[1]):
			l.lens, l.nlens, changed = nil, true, true
		case l.lens == nil && okk && other != nil:
			l.lens, changed = []*Term{SLen(l.init), other}, true
		case probe:
			l.nlens, changed = true, true
		}
	}
	return changed
}

type hchange struct {
	o     int
	v, v0 Value
}

// changed lists the objects that existed before the loop and that h may hold differently.
func (s *summar) changed(h *Heap) []hchange {
	var r []hchange
	h.diff(s.p.st.heap, func(o int, v, v0 Value) bool {
		if o <= s.objMax && v != nil && v0 != nil {
			r = append(r, hchange{o, v, v0})
		}
		return true
	})
	return r
}

func hasComp(ls []*leaf, phi, comp int) bool {
	for _, l := range ls {
		if l.phi == phi && l.comp == comp {
			return true
		}
	}
	return false
}

// accept an exit state of an inner loop in this frame.
func (f *frame) accept(n *pend) {
	n.idx = 0
	n.key = f.fi.order[n.b]
	if f.loop != nil {
		if n.b == f.loop.head {
			f.backs = append(f.backs, n)
			return
		}
		if !f.loop.blocks[n.b] {
			f.exits = append(f.exits, n)
			return
		}
	}
	if l := f.fi.loops[n.b]; l != nil {
		it := map[*ssa.BasicBlock]int{}
		for k, v := range n.iter {
			it[k] = v
		}
		// an inner-loop exit may be the back edge of an enclosing loop
		if n.iterOf(n.b) {
			n.back = true
			n.key = l.last + 1
			it[n.b]++
		} else {
			it[n.b] = 0
		}
		n.iter = it
	}
	f.push(n)
}
func (n *pend) iterOf(b *ssa.BasicBlock) bool { _, ok := n.iter[b]; return ok }

// contFacts: facts established by one completed iteration (only about k).
func (s *summar) contFacts(backs []*pend, root *Ctx, k *Term, mark int) *Term {
	save := cur
	cur = nil
	defer func() { cur = save }()
	r := False
	for _, b := range backs {
		fs := b.st.ctx.Ext(root)
		var keep []*Term
		for i := len(fs) - 1; i >= 0; i-- {
			if !hasFresh(fs[i], mark) {
				keep = append(keep, fs[i])
			}
		}
		r = Or(r, And(keep...))
	}
	return r
}

// hasFresh: mentions a variable created after mark.
func hasFresh(t *Term, mark int) bool {
	for a := range atomsOf(t) {
		if a.Op == OVar {
			if i := strings.LastIndexByte(a.Str, '!'); i >= 0 {
				n := 0
				fmt.Sscanf(a.Str[i+1:], "%d", &n)
				if n > mark {
					return true
				}
			}
		}
	}
	return false
}

func interesting(t *Term) bool { return t != True && !(t.Op == OGe0 && isPlainLinear(t.Args[0])) }
func isPlainLinear(p *Term) bool {
	l := toLin(p)
	for _, m := range l.m {
		if m.Op != OVar && m.Op != OLen {
			return false
		}
	}
	return true
}
func linearMono(t, k *Term) bool { return !occurs(t, k) }

// fixK: replace the iteration counter by its closed value on exits where it is determined.
func (s *summar) fixK(e *pend, k, cont *Term, base *Ctx) {
	var cands []*Term
	for _, cj := range conj(cont) {
		if cj.Op != OGe0 {
			continue
		}
		l := toLin(cj.Args[0])
		for i, m := range l.m {
			if m == k && l.cs[i].Sign() < 0 {
				b := new(big.Int).Neg(l.cs[i])
				A := Sub(cj.Args[0], MulC(k, l.cs[i]))
				if occurs(A, k) {
					continue
				}
				cur = base
				cands = append(cands, DivC(Add(A, ICB(b)), b))
				// with divisibility knowledge the quotient may be exact
			}
		}
	}
	for _, K := range cands {
		if e.st.ctx.Decide(EqI(k, K)) == 1 {
			s.substK(e, k, K, base)
			return
		}
	}
	// exits in the first iteration only
	if e.st.ctx.Decide(EqI(k, Zero)) == 1 {
		s.substK(e, k, Zero, base)
	}
}

func (s *summar) substK(e *pend, k, K *Term, base *Ctx) {
	m := map[*Term]*Term{k: K}
	nc := base
	cur = base
	ext := e.st.ctx.Ext(base)
	for i := len(ext) - 1; i >= 0; i-- {
		f := Subst(ext[i], m)
		nc = nc.Assume(f)
		cur = nc
	}
	for i, v := range e.env {
		if v != nil {
			e.env[i] = substValue(v, m)
		}
	}
	st := e.st.clone()
	st.ctx = nc
	e.st.heap.diff(s.p.st.heap, func(o int, v, _ Value) bool {
		if v != nil {
			st.heap.set(o, substValue(v, m))
		}
		return true
	})
	e.st = st
}

func substValue(v Value, m map[*Term]*Term) Value {
	switch x := v.(type) {
	case *Term:
		return Subst(x, m)
	case Ptr:
		if len(x.P) == 0 {
			return x
		}
		p := make([]PE, len(x.P))
		for i, e := range x.P {
			if e.I != nil {
				e.I = Subst(e.I, m)
			}
			p[i] = e
		}
		return Ptr{x.O, p}
	case SliceV:
		if x.Nil {
			return x
		}
		x.B = substValue(x.B, m).(Ptr)
		x.Off, x.Len, x.Cap = Subst(x.Off, m), Subst(x.Len, m), Subst(x.Cap, m)
		return x
	case StructV:
		return StructV{substVals(x.F, m)}
	case ArrV:
		return ArrV{substVals(x.E, m)}
	case TupleV:
		return TupleV{substVals(x.E, m)}
	case IfaceV:
		if x.T != nil {
			x.V = substValue(x.V, m)
		}
		return x
	case FuncV:
		x.B = substVals(x.B, m)
		return x
	case OpaqueV:
		x.X = Subst(x.X, m)
		return x
	case HashV:
		x.M = Subst(x.M, m)
		return x
	case *MapObj:
		return &MapObj{substVals(x.K, m), substVals(x.V, m)}
	case ModelV:
		ts := make([]*Term, len(x.T))
		for i := range ts {
			ts[i] = Subst(x.T[i], m)
		}
		return ModelV{x.Kind, ts, substVals(x.V, m)}
	}
	return v
}
func substVals(vs []Value, m map[*Term]*Term) []Value {
	if vs == nil {
		return nil
	}
	r := make([]Value, len(vs))
	for i, v := range vs {
		r[i] = substValue(v, m)
	}
	return r
}

// ---------- recurrence solving ----------

func (s *summar) solve(k *Term, base *Ctx, mark int) {
	x := s.f.x
	cur = base
	solved := map[*Term]*Term{} // sym -> closed(k)
	isLeaf := map[*Term]bool{}
	for _, l := range s.leaves {
		isLeaf[l.sym] = true
		for _, t := range l.syms {
			isLeaf[t] = true
		}
	}
	done := map[*leaf]bool{}
	finish := func(l *leaf, ck *Term) {
		done[l] = true
		solved[l.sym] = ck
		l.at = func(kk *Term) *Term {
			if kk == k {
				return ck
			}
			return Subst(ck, map[*Term]*Term{k: kk})
		}
		l.next = func(kk *Term) *Term { return l.at(AddC(kk, 1)) }
	}
	dependsOnLeaf := func(t *Term) bool {
		for a := range atomsOf(t) {
			if isLeaf[a] && solved[a] == nil {
				return true
			}
		}
		return false
	}
	bad := func(t *Term) bool { // fresh per-iteration values
		for a := range atomsOf(t) {
			if a.Op == OVar && !isLeaf[a] && a != k {
				if i := strings.LastIndexByte(a.Str, '!'); i >= 0 {
					n := 0
					fmt.Sscanf(a.Str[i+1:], "%d", &n)
					if n > s.freshBase() {
						return true
					}
				}
			}
		}
		return false
	}
	for progress := true; progress; {
		progress = false
		for _, l := range s.leaves {
			if done[l] || l.lens != nil {
				continue
			}
			u := l.upd
			if u == l.sym {
				finish(l, l.init)
				progress = true
				continue
			}
			u = Subst(u, solved)
			if bad(u) {
				continue
			}
			self := map[*Term]bool{l.sym: true}
			_ = self
			switch {
			case l.init.S == IntS:
				d := Sub(u, l.sym)
				if !dependsOnLeaf(d) && !occurs(d, k) && !occurs(d, l.sym) {
					finish(l, Add(l.init, Mul(d, k)))
					progress = true
					continue
				}
			case l.init.S.K == SBV:
				d := BSub(u, l.sym)
				if !dependsOnLeaf(d) && !occurs(d, k) {
					finish(l, BAdd(l.init, BMul(d, I2BV(k, l.init.S.W))))
					progress = true
					continue
				}
			case l.init.S == BoolS:
				// b' = b and c(k) / b or c(k)
				if c := Subst(u, map[*Term]*Term{l.sym: True}); Subst(u, map[*Term]*Term{l.sym: False}) == False && !dependsOnLeaf(c) {
					v := Fresh("j", IntS)
					finish(l, And(l.init, Forall(k, v, Subst(c, map[*Term]*Term{k: v}))))
					progress = true
					continue
				}
				if c := Subst(u, map[*Term]*Term{l.sym: False}); Subst(u, map[*Term]*Term{l.sym: True}) == True && !dependsOnLeaf(c) {
					v := Fresh("j", IntS)
					finish(l, Or(l.init, Exists(k, v, Subst(c, map[*Term]*Term{k: v}))))
					progress = true
					continue
				}
			case l.init.S.K == SSeq:
				if s.solveSeq(l, u, k, solved, dependsOnLeaf, finish) {
					progress = true
					continue
				}
			}
			// constant after the first iteration: not handled
		}
		if !progress {
			// folds registered by the contracts
			if x.foldTry != nil && x.foldTry(s, k, solved, done, dependsOnLeaf) {
				progress = true
				continue
			}
			// generic iteration x' = F(x) or F(k, x)
			for _, l := range s.leaves {
				if done[l] || l.lens != nil {
					continue
				}
				u := Subst(l.upd, solved)
				if bad(u) {
					continue
				}
				okk := true
				for a := range atomsOf(u) {
					if isLeaf[a] && solved[a] == nil && a != l.sym {
						okk = false
					}
				}
				if !okk || (l.init.S.K == SSeq && l.comp == 4 && SLen(u) != SLen(l.init) && !SLen(u).IsC()) {
					continue
				}
				if s.solveIter(l, s.dropMods(u, k, base, solved), k, finish) {
					progress = true
					break
				}
			}
		}
	}
	for _, l := range s.leaves {
		if !done[l] {
			l.free = true
		}
	}
	// leaves whose closed form mentions free leaves are free themselves (cannot
	// happen: dependsOnLeaf rejects them)
}

func (s *summar) freshBase() int {
	// variables created since the exploratory symbols were made
	m := 0
	for _, l := range s.leaves {
		if i := strings.LastIndexByte(l.sym.Str, '!'); i >= 0 {
			n := 0
			fmt.Sscanf(l.sym.Str[i+1:], "%d", &n)
			if n > m {
				m = n
			}
		}
	}
	return m
}

// iteration of a function of the counter and the component itself
func (s *summar) solveIter(l *leaf, u, k *Term, finish func(*leaf, *Term)) bool {
	// abstract free variables canonically
	var fv []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OVar && t != l.sym && t != k {
			fv = append(fv, t)
			return
		}
		if t.Op == OVar {
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(u)
	if l.init.S.K == SSeq {
		// length must be stable: F keeps a constant length
		lu := SLen(u)
		if !lu.IsC() {
			return false
		}
	}
	m := map[*Term]*Term{}
	save := cur
	cur = nil
	var canonX *Term
	if l.init.S.K == SSeq {
		canonX = mk(&Term{Op: OVar, S: l.init.S, Str: "$iterx", Args: []*Term{SLen(u)}})
	} else {
		canonX = Var("$iterx_"+l.init.S.String(), l.init.S)
	}
	m[l.sym] = canonX
	m[k] = Var("$iterk", IntS)
	for i, v := range fv {
		if v.S.K == SSeq {
			m[v] = mk(&Term{Op: OVar, S: v.S, Str: sprintf("$p%d", i), Args: v.Args})
		} else {
			m[v] = mk(&Term{Op: OVar, S: v.S, Str: sprintf("$p%d", i), N: v.N, M: v.M})
		}
	}
	canon := Subst(u, m)
	cur = save
	name := sprintf("iter#%d", canon.id)
	if loopDebug {
		fmt.Printf("  [loop] %s = %s\n", name, canon)
	}
	lenU := SLen(u)
	if ufInfo[name] == nil {
		ufInfo[name] = &ufI{
			simp: func(a []*Term) *Term {
				if a[1] == Zero {
					return a[0]
				}
				return nil
			},
			lenOf: func(a []*Term) *Term {
				if l.init.S.K != SSeq {
					return nil
				}
				if SLen(a[0]) == lenU {
					return lenU
				}
				return Ite(EqI(a[1], Zero), SLen(a[0]), lenU)
			},
		}
	}
	args := append([]*Term{l.init, k}, fv...)
	finish(l, UF(name, l.init.S, args...))
	ck := l.at
	l.next = func(kk *Term) *Term { return Subst(u, map[*Term]*Term{l.sym: ck(kk), k: kk}) }
	return true
}

// solveSeq: accumulators, in-place writes and slides.
func (s *summar) solveSeq(l *leaf, u, k *Term, solved map[*Term]*Term, dep func(*Term) bool, finish func(*leaf, *Term)) bool {
	x := l.sym
	at := func(t, kk *Term) *Term { return Subst(t, map[*Term]*Term{k: kk}) }
	ps := pieces(u)
	// x' = x ++ piece(k)
	if len(ps) >= 2 && ps[0] == x {
		pc := SCat(u.S, ps[1:]...)
		if !dep(pc) && !occurs(pc, x) {
			v := Fresh("j", IntS)
			finish(l, SCat(u.S, l.init, Comp(k, v, at(pc, v))))
			return true
		}
	}
	// x' = piece ++ x (prepend)
	if len(ps) >= 2 && ps[len(ps)-1] == x {
		pc := SCat(u.S, ps[:len(ps)-1]...)
		if !dep(pc) && !occurs(pc, x) && !occurs(pc, k) {
			v := Fresh("j", IntS)
			finish(l, SCat(u.S, Comp(k, v, pc), l.init))
			return true
		}
	}
	// slide: x' = sub(x, c, len(x)-c)
	if u.Op == OSub && u.Args[0] == x {
		c := u.Args[1]
		if Add(c, u.Args[2]) == SLen(x) && !dep(c) && !occurs(c, k) && !occurs(c, x) {
			o := Mul(c, k)
			finish(l, SSub(l.init, o, Sub(SLen(l.init), o)))
			return true
		}
	}
	// in-place update: sub(x,0,p) ++ mid ++ sub(x,p+|mid|,rest)
	var p *Term
	i, j := 0, len(ps)
	if len(ps) >= 1 && ps[0].Op == OSub && ps[0].Args[0] == x && ps[0].Args[1] == Zero {
		p = ps[0].Args[2]
		i = 1
	} else {
		p = Zero
	}
	if len(ps) >= 1 && j > i && ps[j-1].Op == OSub && ps[j-1].Args[0] == x && Add(ps[j-1].Args[1], ps[j-1].Args[2]) == SLen(x) {
		j--
	}
	if i < j && (i > 0 || j < len(ps)) {
		mid := SCat(u.S, ps[i:j]...)
		n := SLen(mid)
		if !n.IsC() || dep(p) {
			return false
		}
		// the written position moves by n each iteration
		if Sub(at(p, AddC(k, 1)), p) == n {
			p0 := at(p, Zero)
			// reads of x at or after the write position see the initial contents
			mid2 := readsInit(mid, x, l.init, p)
			if mid2 == nil || dep(mid2) {
				return false
			}
			v := Fresh("j", IntS)
			w := Mul(n, k)
			finish(l, SCat(u.S, SSub(l.init, Zero, p0), Comp(k, v, at(mid2, v)), SSub(l.init, Add(p0, w), Sub(Sub(SLen(l.init), p0), w))))
			return true
		}
		// descending writes
		if Sub(p, at(p, AddC(k, 1))) == n {
			p0 := at(p, Zero)
			mid2 := readsInitDesc(mid, x, l.init, p)
			if mid2 == nil || dep(mid2) {
				return false
			}
			v := Fresh("j", IntS)
			lo := Add(at(p, k), n) // lowest written start after k iterations = p0 + n - n*k
			body := at(mid2, Sub(AddC(k, -1), v))
			finish(l, SCat(u.S, SSub(l.init, Zero, lo), Comp(k, v, body), SSub(l.init, Add(p0, n), Sub(Sub(SLen(l.init), p0), n))))
			return true
		}
	}
	return false
}

// readsInit replaces at(x,i) by at(init,i) when i >= pos (not yet written); nil if x is used otherwise.
func readsInit(t, x, init, pos *Term) *Term {
	m := map[*Term]*Term{}
	ok := true
	var rec func(t *Term)
	seen := map[*Term]bool{}
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t == x {
			ok = false
			return
		}
		if t.Op == OAt && t.Args[0] == x {
			if Decide(Le(pos, t.Args[1])) == 1 || Ge0(Sub(t.Args[1], pos)) == True {
				m[t] = At(init, t.Args[1])
			} else {
				ok = false
			}
			return
		}
		if t.Op == OSub && t.Args[0] == x && (Decide(Le(pos, t.Args[1])) == 1 || Ge0(Sub(t.Args[1], pos)) == True) {
			m[t] = SSub(init, t.Args[1], t.Args[2])
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	if !ok {
		return nil
	}
	return Subst(t, m)
}
func readsInitDesc(t, x, init, pos *Term) *Term {
	m := map[*Term]*Term{}
	ok := true
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == x {
			ok = false
			return
		}
		if t.Op == OAt && t.Args[0] == x {
			if Ge0(Sub(pos, t.Args[1])) == True {
				m[t] = At(init, t.Args[1])
			} else {
				ok = false
			}
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	if !ok {
		return nil
	}
	return Subst(t, m)
}

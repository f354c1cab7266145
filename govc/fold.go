package main

import (
	"fmt"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Folds: an opaque specification function F(state, data) defined as iterating a
// step function over consecutive blocks of data. The laws used are exactly the
// unfolding of that definition:
//
//	F(v, empty) = v,  F(F(v,a),b) = F(v, a++b) when len(a) is a multiple of the
//	block size,  F(v, a++block) = step(F(v,a), block).
type foldSpec struct {
	name  string
	step  *ssa.Function
	block int64
	n     int64 // state words
	w     int   // word width
}

func registerFold(fs *foldSpec) {
	ufInfo[fs.name] = &ufI{
		lenOf: func([]*Term) *Term { return IC(fs.n) },
		simp: func(a []*Term) *Term {
			v, p := a[0], a[1]
			if SLen(p) == Zero {
				return v
			}
			if v.Op == OUF && v.Str == fs.name {
				m := ModC(SLen(v.Args[1]), big.NewInt(fs.block))
				if m == Zero || Decide(EqI(m, Zero)) == 1 {
					return UF(fs.name, v.S, v.Args[0], SCat(p.S, v.Args[1], p))
				}
			}
			return nil
		},
	}
}

func (fs *foldSpec) try(s *summar, k *Term, solved map[*Term]*Term, done map[*leaf]bool, dep func(*Term) bool) bool {
	x := s.f.x
	var words []*leaf
	var vec *leaf
	for _, l := range s.leaves {
		if done[l] {
			continue
		}
		if l.init.S.K == SBV && l.init.S.W == fs.w {
			words = append(words, l)
		}
		if l.init.S.K == SSeq && l.init.S.Elem == BVS(fs.w) && SLen(l.init) == IC(fs.n) && occurs(l.upd, l.sym) {
			vec = l
		}
	}
	if vec == nil && int64(len(words)) != fs.n {
		return false
	}
	// order of the words: the initial values are consecutive elements of one array
	ord := words
	if vec == nil {
		byIdx := make([]*leaf, fs.n)
		ok := true
		for _, l := range words {
			if l.init.Op != OAt || l.init.Args[0] != words[0].init.Args[0] || !l.init.Args[1].IsInt64() {
				ok = false
				break
			}
			i := l.init.Args[1].Int64()
			if i < 0 || i >= fs.n || byIdx[i] != nil {
				ok = false
				break
			}
			byIdx[i] = l
		}
		if ok {
			ord = byIdx
		}
	}
	// the bytes read by one iteration
	var data, lo *Term
	okData := true
	seen := map[*Term]bool{}
	bc := ICB(big.NewInt(fs.block))
	var scan func(t *Term)
	scan = func(t *Term) {
		if seen[t] || !okData {
			return
		}
		seen[t] = true
		if t.Op == OAt && t.S == BVS(8) && occurs(t.Args[1], k) {
			o := Sub(t.Args[1], Mul(bc, k))
			if occurs(o, k) || data != nil && data != t.Args[0] {
				okData = false
				return
			}
			data = t.Args[0]
			if lo == nil || Ge0(AddC(Sub(lo, o), -1)) == True {
				lo = o
			}
		}
		for _, a := range t.Args {
			scan(a)
		}
	}
	if vec != nil {
		scan(Subst(vec.upd, solved))
	} else {
		for _, l := range ord {
			scan(Subst(l.upd, solved))
		}
	}
	if !okData || data == nil {
		return false
	}
	var v0, sym *Term
	if vec != nil {
		v0, sym = vec.init, vec.sym
	} else {
		var a, b []*Term
		for _, l := range ord {
			a = append(a, l.init)
			b = append(b, l.sym)
		}
		v0, sym = Lit(BVS(fs.w), a...), Lit(BVS(fs.w), b...)
	}
	// run the specification step on one block
	st := s.p.st.clone()
	o := Add(lo, Mul(bc, k))
	st.ctx = st.ctx.Assume(Le(Zero, k))
	st.ctx = st.ctx.Assume(Le(Add(o, bc), SLen(data)))
	save, sum := cur, x.sumFirst
	cur = st.ctx
	x.mute++
	x.sumFirst = false
	blk := st.newBytes(SSub(data, o, bc))
	outs := x.callBody(st, fs.step, []Value{sym, blk}, nil)
	x.mute--
	cur, x.sumFirst = save, sum
	if len(outs) != 1 || outs[0].panic != "" {
		bail("fold step %s has %d outcomes", fs.step, len(outs))
	}
	res := outs[0].ret[0].(*Term)
	if loopDebug {
		fmt.Printf("  [fold] %s over %.60s offset %s\n", fs.name, data, lo)
		for i, l := range ord {
			a, b := At(res, IC(int64(i))), Subst(l.upd, solved)
			fmt.Printf("  [fold]   word %d (%s): %v\n", i, l.name, a == b)
		}
	}
	F := func(kk *Term) *Term {
		return UF(fs.name, SeqS(BVS(fs.w)), v0, SSub(data, lo, Mul(bc, kk)))
	}
	set := func(l *leaf, pick func(*Term) *Term) {
		done[l] = true
		l.at = func(kk *Term) *Term { return pick(F(kk)) }
		solved[l.sym] = l.at(k)
	}
	var all []*leaf
	if vec != nil {
		all = []*leaf{vec}
		set(vec, func(t *Term) *Term { return t })
	} else {
		all = ord
		for i, l := range ord {
			i := i
			set(l, func(t *Term) *Term { return At(t, IC(int64(i))) })
		}
	}
	for i, l := range all {
		nx := res
		if vec == nil {
			nx = At(res, IC(int64(i)))
		}
		l.next = func(kk *Term) *Term {
			m := map[*Term]*Term{k: kk}
			for _, w := range all {
				m[w.sym] = w.at(kk)
			}
			return Subst(nx, m)
		}
	}
	return true
}

package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Outcome struct {
	st    *State
	ret   []Value
	panic string // non-empty: panicked
	where string
	call  *ssa.Call // internal: continuation
}

type Intrinsic func(x *Exec, st *State, args []Value, c *CallCtx) []Outcome

type CallCtx struct {
	fn   *ssa.Function
	sig  *types.Signature
	name string
	pos  string
}

type Exec struct {
	prog      *ssa.Program
	intr      map[string]Intrinsic
	opaque    map[*ssa.Function]string
	summary   map[*ssa.Function]*ssa.Function
	inlineOK  func(fn *ssa.Function) bool
	globals   map[*ssa.Global]int
	info      map[*ssa.Function]*fnInfo
	depth     int
	steps     int
	maxSteps  int
	stack     []*ssa.Function
	sumFirst  bool
	used      map[string]int // intrinsics / assumptions used
	inlined   map[string]int
	symIter   int // bound for symbolic unrolling
	noSum     map[*ssa.Function]bool
	foreign   map[*ssa.Function]*ssa.Function
	initDone  map[*ssa.Package]bool
	own       map[*ssa.Package]bool
	bounded   map[string]int
	lazy      map[string]bool
	absDec    bool // structures of unknown bytes are decoded as uninterpreted functions
	longLists bool // lists longer than what is followed are values that are not examined
	loops     map[string]int
	foldTry   func(s *summar, k *Term, solved map[*Term]*Term, done map[*leaf]bool, dep func(*Term) bool) bool
	mute      int
	result    *HarnessResult
	pkgMain   *ssa.Package
}

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	last   int
	fold   bool
}
type fnInfo struct {
	fn    *ssa.Function
	num   map[ssa.Value]int
	n     int
	order map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*loopInfo
	live  map[*ssa.BasicBlock]map[int]bool
}

func (x *Exec) fnInfo(fn *ssa.Function) *fnInfo {
	if i := x.info[fn]; i != nil {
		return i
	}
	fi := &fnInfo{fn: fn, num: map[ssa.Value]int{}, order: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}}
	x.info[fn] = fi
	add := func(v ssa.Value) {
		fi.num[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				var rec func(q *ssa.BasicBlock)
				rec = func(q *ssa.BasicBlock) {
					if l.blocks[q] {
						return
					}
					l.blocks[q] = true
					for _, p := range q.Preds {
						rec(p)
					}
				}
				rec(b)
			}
		}
	}
	depth := func(b *ssa.BasicBlock) int {
		d := 0
		for _, l := range fi.loops {
			if l.blocks[b] {
				d++
			}
		}
		return d
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		ss := append([]*ssa.BasicBlock{}, b.Succs...)
		sort.SliceStable(ss, func(i, j int) bool { return depth(ss[i]) < depth(ss[j]) })
		for _, s := range ss {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := range post {
		fi.order[post[len(post)-1-i]] = 2 * i
	}
	for _, l := range fi.loops {
		for b := range l.blocks {
			if fi.order[b] > l.last {
				l.last = fi.order[b]
			}
		}
	}
	// liveness (live-in, phi operands live at the edge only)
	fi.live = map[*ssa.BasicBlock]map[int]bool{}
	for _, b := range fn.Blocks {
		fi.live[b] = map[int]bool{}
	}
	var ops [8]*ssa.Value
	for changed := true; changed; {
		changed = false
		for _, b := range post {
			cur := map[int]bool{}
			for _, s := range b.Succs {
				ph := map[int]bool{}
				for _, in := range s.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					ph[fi.num[p]] = true
					for pi, pb := range s.Preds {
						if pb == b {
							if n, ok := fi.num[p.Edges[pi]]; ok {
								cur[n] = true
							}
						}
					}
				}
				for v := range fi.live[s] {
					if !ph[v] {
						cur[v] = true
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(cur, fi.num[v])
				}
				for _, o := range in.Operands(ops[:0]) {
					if *o != nil {
						if n, ok := fi.num[*o]; ok {
							cur[n] = true
						}
					}
				}
			}
			l := fi.live[b]
			for v := range cur {
				if !l[v] {
					l[v] = true
					changed = true
				}
			}
			// phis defined at b stay live-in of b when used later
			for _, in := range b.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					n := fi.num[ph]
					if !l[n] {
						l[n] = true
						changed = true
					}
				}
			}
		}
	}
	return fi
}

type pend struct {
	b    *ssa.BasicBlock
	env  []Value
	st   *State
	key  int
	back bool
	iter map[*ssa.BasicBlock]int
	idx  int // instruction index to resume at
}

type frame struct {
	x     *Exec
	fi    *fnInfo
	fn    *ssa.Function
	work  []*pend
	out   []Outcome
	obj0  int             // objects above this number were allocated since the function was entered
	stop  *ssa.BasicBlock // loop-body mode: header
	loop  *loopInfo       // loop-body mode
	backs []*pend         // loop-body mode: states at the back edge
	exits []*pend         // loop-body mode: states leaving the loop (at target block, phis evaluated)
	defs  []func()
}

func (x *Exec) posOf(in ssa.Instruction) string {
	p := x.prog.Fset.Position(in.Pos())
	f := p.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// Call runs fn on args.
func (x *Exec) Call(st *State, fn *ssa.Function, args, bind []Value, pos string) []Outcome {
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	cur = st.ctx
	if fn.Synthetic == "package initializer" && !x.own[fn.Pkg] {
		return one(st)
	}
	cc := &CallCtx{fn: fn, sig: fn.Signature, name: name, pos: pos}
	if s := x.foreign[fn]; s != nil && !x.inStack(s) {
		x.used["FOREIGN "+name]++
		return x.callBody(st, s, args, bind)
	}
	if in, ok := x.lookupIntr(fn, name); ok {
		x.used[name]++
		return in(x, st, args, cc)
	}
	if op, ok := x.opaque[fn]; ok {
		return x.callOpaque(st, op, fn, args)
	}
	if s := x.summary[fn]; s != nil && !x.noSum[fn] && !x.inStack(s) {
		x.used["contract of "+name]++
		x.used[sumKey[fn]]++
		return x.callBody(st, s, args, bind)
	}
	if len(fn.Blocks) > 0 && x.inlineOK(fn) {
		x.inlined[name]++
		return x.callBody(st, fn, args, bind)
	}
	return x.havocCall(st, name, fn.Signature, args)
}
func (x *Exec) inStack(f *ssa.Function) bool {
	for _, g := range x.stack {
		if g == f {
			return true
		}
	}
	return false
}

func (x *Exec) callBody(st *State, fn *ssa.Function, args, bind []Value) []Outcome {
	if len(x.stack) > 60 {
		bail("call depth in %s", fn)
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	fi := x.fnInfo(fn)
	fr := &frame{x: x, fi: fi, fn: fn, obj0: objCnt}
	env := make([]Value, fi.n)
	if len(args) != len(fn.Params) {
		bail("args of %s: %d vs %d", fn, len(args), len(fn.Params))
	}
	for i, p := range fn.Params {
		env[fi.num[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		env[fi.num[p]] = bind[i]
	}
	fr.push(&pend{b: fn.Blocks[0], env: env, st: st, key: fi.order[fn.Blocks[0]]})
	fr.run()
	return fr.out
}

func (f *frame) push(p *pend) { f.work = append(f.work, p) }

func (f *frame) run() {
	for len(f.work) > 0 {
		// lowest key first
		best := f.work[0].key
		for _, p := range f.work {
			if p.key < best {
				best = p.key
			}
		}
		var grp, rest []*pend
		for _, p := range f.work {
			if p.key == best {
				grp = append(grp, p)
			} else {
				rest = append(rest, p)
			}
		}
		f.work = rest
		grp = f.merge(grp)
		for _, p := range grp {
			if p.back {
				p.back = false
				p.key = f.fi.order[p.b]
			}
			f.runBlock(p)
		}
	}
}

func (f *frame) merge(grp []*pend) []*pend {
	var out []*pend
	for _, p := range grp {
		done := false
		for i, q := range out {
			if p.b == q.b && p.idx == 0 && q.idx == 0 && p.back == q.back {
				if m := f.merge2(q, p); m != nil {
					out[i] = m
					done = true
					break
				}
			}
		}
		if !done {
			out = append(out, p)
		}
	}
	return out
}

func ctxSplit(a, b *Ctx) (anc *Ctx, da, db []*Term) {
	x, y := a, b
	for x != y {
		if x.depth > y.depth {
			x = x.parent
		} else if y.depth > x.depth {
			y = y.parent
		} else {
			x, y = x.parent, y.parent
		}
	}
	return x, a.Ext(x), b.Ext(x)
}

func mergeCtx(a, b *Ctx) (*Ctx, *Term) {
	anc, da, db := ctxSplit(a, b)
	inDb := map[*Term]bool{}
	for _, t := range db {
		inDb[t] = true
	}
	var lit *Term
	for i := len(da) - 1; i >= 0; i-- {
		if inDb[Not(da[i])] {
			lit = da[i]
			break
		}
	}
	save := cur
	cur = nil
	ta, tb := And(da...), And(db...)
	n := anc.Assume(Or(ta, tb))
	cur = save
	if lit == nil {
		lit = ta
	}
	return n, lit
}

func (f *frame) merge2(a, b *pend) *pend {
	// heaps equal?
	if !a.st.heap.diff(b.st.heap, func(o int, v, w Value) bool {
		// an object allocated on one side only is kept
		return v == nil || w == nil || sameValue(v, w)
	}) {
		return nil
	}
	for k, v := range a.iter {
		if b.iter[k] != v {
			return nil
		}
	}
	live := f.fi.live[a.b]
	var diff []int
	for i := range a.env {
		if !live[i] {
			continue
		}
		x, y := a.env[i], b.env[i]
		if x == nil && y == nil || sameValue(x, y) {
			continue
		}
		tx, ok1 := x.(*Term)
		ty, ok2 := y.(*Term)
		if !ok1 || !ok2 || tx.S != ty.S || tx.S.K == SSeq {
			return nil
		}
		diff = append(diff, i)
	}
	nc, lit := mergeCtx(a.st.ctx, b.st.ctx)
	env := append([]Value{}, a.env...)
	for i := range env {
		if !live[i] {
			env[i] = nil
		}
	}
	save := cur
	cur = nil
	for _, i := range diff {
		env[i] = Ite(lit, a.env[i].(*Term), b.env[i].(*Term))
	}
	cur = save
	h := a.st.heap.clone()
	a.st.heap.diff(b.st.heap, func(o int, v, w Value) bool {
		if v == nil {
			h.set(o, w)
		}
		return true
	})
	st := &State{ctx: nc, heap: h, note: a.st.note, tags: mergeTags(a.st.tags, b.st.tags)}
	return &pend{b: a.b, env: env, st: st, key: a.key, back: a.back, iter: a.iter}
}
func mergeTags(a, b map[string]bool) map[string]bool {
	if len(b) == 0 {
		return a
	}
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	return m
}
func (s *State) tag(t string) {
	m := map[string]bool{t: true}
	for k := range s.tags {
		m[k] = true
	}
	s.tags = m
}

// goTo moves p along the edge from->to, evaluating phis.
func (f *frame) goTo(p *pend, from, to *ssa.BasicBlock) {
	cur = p.st.ctx
	pi := -1
	for i, q := range to.Preds {
		if q == from {
			pi = i
			break
		}
	}
	env := append([]Value{}, p.env...)
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		env[f.fi.num[ph]] = f.val(p, ph.Edges[pi])
	}
	n := &pend{b: to, env: env, st: p.st, key: f.fi.order[to], iter: p.iter}
	if f.loop != nil {
		if to == f.loop.head {
			f.backs = append(f.backs, n)
			return
		}
		if !f.loop.blocks[to] {
			f.exits = append(f.exits, n)
			return
		}
	}
	if l := f.fi.loops[to]; l != nil {
		it := map[*ssa.BasicBlock]int{}
		for k, v := range p.iter {
			it[k] = v
		}
		if l.blocks[from] { // back edge
			n.back = true
			n.key = l.last + 1
			it[to]++
		} else {
			it[to] = 0
		}
		n.iter = it
	}
	f.push(n)
}

func (f *frame) panicOut(st *State, msg string, in ssa.Instruction) {
	f.out = append(f.out, Outcome{st: st, panic: msg, where: f.fn.String() + " " + f.x.posOf(in)})
}

// require: cond must hold at in; otherwise a panicking path is recorded.
func (f *frame) require(p *pend, cond *Term, msg string, in ssa.Instruction) bool {
	if f.x.mute == 0 && f.x.result != nil {
		f.x.result.Checks++
	}
	switch Decide(cond) {
	case 1:
		return true
	case -1:
		f.panicOut(p.st, msg, in)
		return false
	}
	st := p.st.clone()
	st.assume(Not(cond))
	if st.ctx.Feasible() {
		f.panicOut(st, msg, in)
	}
	p.st = p.st.clone()
	p.st.assume(cond)
	cur = p.st.ctx
	return true
}

func (f *frame) runBlock(p *pend) {
	b := p.b
	x := f.x
	if p.idx == 0 {
		if l := f.fi.loops[b]; l != nil && !(f.loop == l && p.iter[b] == 0) {
			if f.enterLoop(l, p) {
				return
			}
		}
	}
	for i := p.idx; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		x.steps++
		if x.steps > x.maxSteps {
			bail("step limit")
		}
		cur = p.st.ctx
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		cont := f.tryStep(p, in, i)
		if !cont {
			return
		}
	}
}

// tryStep executes one instruction; on a forkErr the state is split on the
// value of the offending term.
func (f *frame) tryStep(p *pend, in ssa.Instruction, i int) (cont bool) {
	save := p.st.clone()
	nOut, nWork, nExit, nBack := len(f.out), len(f.work), len(f.exits), len(f.backs)
	stk := len(f.x.stack)
	defer func() {
		if r := recover(); r != nil {
			fe, ok := r.(forkErr)
			if !ok {
				panic(r)
			}
			f.x.stack = f.x.stack[:stk]
			f.out, f.work, f.exits, f.backs = f.out[:nOut], f.work[:nWork], f.exits[:nExit], f.backs[:nBack]
			vals := f.x.enumerate(save.ctx, fe.t)
			for _, v := range vals {
				st := save.clone()
				st.assume(v)
				f.push(&pend{b: p.b, env: append([]Value{}, p.env...), st: st, key: f.fi.order[p.b], iter: p.iter, idx: i})
			}
			cont = false
		}
	}()
	return f.step(p, in, i)
}

// enumerate the feasible values of an Int term (at most 40): the conditions of
// the cases, which cover all values.
func (x *Exec) enumerate(c *Ctx, t *Term) []*Term {
	var out []*Term
	save := cur
	defer func() { cur = save }()
	cur = c
	if ls := itePaths(t); ls != nil {
		for _, k := range ls {
			if c.Assume(k).Feasible() {
				out = append(out, k)
			}
		}
		return out
	}
	lo, hi := t.Range()
	if lo != nil && hi != nil && new(big.Int).Sub(hi, lo).Cmp(big.NewInt(64)) <= 0 {
		for v := new(big.Int).Set(lo); v.Cmp(hi) <= 0; v = new(big.Int).Add(v, bigs[0]) {
			k := EqI(t, ICB(v))
			if c.Assume(k).Feasible() {
				out = append(out, k)
			}
		}
		return out
	}
	for v := int64(0); v < 40; v++ {
		k := IC(v)
		if q := EqI(t, k); c.Assume(q).Feasible() {
			out = append(out, q)
		}
		if c.Decide(Le(t, k)) == 1 {
			if c.Decide(Le(Zero, t)) != 1 {
				bail("enumerate negative")
			}
			return out
		}
	}
	bail("cannot enumerate %s", t)
	return nil
}

func (f *frame) val(p *pend, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return constValue(c)
	case *ssa.Function:
		return FuncV{Fn: c}
	case *ssa.Builtin:
		return FuncV{Bi: c}
	case *ssa.Global:
		return f.x.globalPtr(p.st, c)
	}
	n, ok := f.fi.num[v]
	if !ok {
		bail("unknown value %s", v)
	}
	r := p.env[n]
	if r == nil {
		bail("undefined value %s in %s", v.Name(), f.fn)
	}
	return r
}

func constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return BC(constant.BoolVal(c.Value))
	case constant.String:
		return SC(constant.StringVal(c.Value))
	case constant.Int:
		n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		if k, ok := intKindOf(t); ok {
			if k.bv {
				return BVC(n, k.w)
			}
			return ICB(n)
		}
	}
	return OpaqueV{T: t, X: UF("const_"+c.Value.ExactString(), US("opq"))}
}

func (x *Exec) globalPtr(st *State, g *ssa.Global) Value {
	o, ok := x.globals[g]
	if !ok {
		t := g.Type().(*types.Pointer).Elem()
		o = newObj(t)
		x.globals[g] = o
	}
	if st.heap.get(o) == nil {
		t := g.Type().(*types.Pointer).Elem()
		var v Value
		if x.initDone[g.Pkg] || x.ownPkg(g.Pkg) {
			v = zeroValue(t)
		} else {
			v = x.extGlobal(st, g, t)
		}
		st.heap.set(o, v)
	}
	return Ptr{O: o}
}

func (f *frame) set(p *pend, v ssa.Value, x Value) { p.env[f.fi.num[v]] = x }

// continueWith resumes after a call for each outcome.
func (f *frame) continueWith(p *pend, call ssa.Value, outs []Outcome, i int) bool {
	n := 0
	var single *Outcome
	for k := range outs {
		if outs[k].panic == "" {
			n++
			single = &outs[k]
		}
	}
	for _, o := range outs {
		if o.panic != "" {
			f.out = append(f.out, o)
		}
	}
	if n == 0 {
		return false
	}
	mk := func(o *Outcome) Value {
		res := call.Type()
		if tp, ok := res.(*types.Tuple); ok {
			if tp.Len() == 0 {
				return TupleV{}
			}
			return TupleV{o.ret}
		}
		if len(o.ret) != 1 {
			bail("result count of %s", call)
		}
		return o.ret[0]
	}
	if n == 1 {
		p.st = single.st
		f.set(p, call, mk(single))
		cur = p.st.ctx
		return true
	}
	// try to merge outcomes
	for k := range outs {
		o := &outs[k]
		if o.panic != "" {
			continue
		}
		env := append([]Value{}, p.env...)
		q := &pend{b: p.b, env: env, st: o.st, key: f.fi.order[p.b], iter: p.iter, idx: i + 1}
		env[f.fi.num[call]] = mk(o)
		f.push(q)
	}
	return false
}

func (f *frame) step(p *pend, in ssa.Instruction, i int) bool {
	x := f.x
	switch in := in.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		o := p.st.alloc(t, zeroValue(t))
		f.set(p, in, Ptr{O: o})
	case *ssa.BinOp:
		return f.binop(p, in)
	case *ssa.UnOp:
		return f.unop(p, in)
	case *ssa.Call:
		outs, ok := f.doCall(p, in.Common(), in)
		if !ok {
			return false
		}
		return f.continueWith(p, in, outs, i)
	case *ssa.ChangeInterface:
		f.set(p, in, f.val(p, in.X))
	case *ssa.ChangeType:
		v := f.val(p, in.X)
		f.set(p, in, v)
	case *ssa.Convert:
		return f.convert(p, in)
	case *ssa.Extract:
		f.set(p, in, f.val(p, in.Tuple).(TupleV).E[in.Index])
	case *ssa.Field:
		v := f.val(p, in.X)
		s, ok := v.(StructV)
		if !ok {
			bail("Field of %T", v)
		}
		f.set(p, in, s.F[in.Field])
	case *ssa.FieldAddr:
		v := f.val(p, in.X)
		q, ok := v.(Ptr)
		if !ok {
			bail("FieldAddr of %T (%s)", v, in.X.Type())
		}
		if q.O == 0 {
			f.panicOut(p.st, "nil dereference", in)
			return false
		}
		f.set(p, in, sub(q, PE{F: in.Field}))
	case *ssa.If:
		c := f.val(p, in.Cond).(*Term)
		t, e := p.b.Succs[0], p.b.Succs[1]
		switch Decide(c) {
		case 1:
			f.goTo(p, p.b, t)
		case -1:
			f.goTo(p, p.b, e)
		default:
			q := &pend{b: p.b, env: p.env, st: p.st.clone(), iter: p.iter}
			p.st.assume(c)
			q.st.assume(Not(c))
			if p.st.ctx.Feasible() {
				f.goTo(p, p.b, t)
			}
			if q.st.ctx.Feasible() {
				f.goTo(q, q.b, e)
			}
		}
		return false
	case *ssa.Jump:
		f.goTo(p, p.b, p.b.Succs[0])
		return false
	case *ssa.Return:
		var r []Value
		for _, v := range in.Results {
			r = append(r, f.val(p, v))
		}
		f.out = append(f.out, Outcome{st: p.st, ret: r})
		return false
	case *ssa.Panic:
		f.panicOut(p.st, "explicit panic", in)
		return false
	case *ssa.Index:
		v := f.val(p, in.X)
		idx := x.toInt(f.val(p, in.Index).(*Term))
		switch a := v.(type) {
		case *Term:
			if !f.require(p, And(Le(Zero, idx), Lt(idx, SLen(a))), "index out of range", in) {
				return false
			}
			f.set(p, in, At(a, idx))
		case ArrV:
			f.set(p, in, a.E[concreteIdx(idx)])
		default:
			bail("Index %T", v)
		}
	case *ssa.IndexAddr:
		v := f.val(p, in.X)
		idx := x.toInt(f.val(p, in.Index).(*Term))
		switch a := v.(type) {
		case SliceV:
			if !f.require(p, And(Le(Zero, idx), Lt(idx, a.Len)), "index out of range", in) {
				return false
			}
			f.set(p, in, sub(a.B, PE{I: Add(a.Off, idx)}))
		case Ptr:
			if a.O == 0 {
				f.panicOut(p.st, "nil dereference", in)
				return false
			}
			n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			if !f.require(p, And(Le(Zero, idx), Lt(idx, IC(n))), "index out of range", in) {
				return false
			}
			f.set(p, in, sub(a, PE{I: idx}))
		default:
			bail("IndexAddr %T", v)
		}
	case *ssa.Lookup:
		return f.lookup(p, in)
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range in.Bindings {
			b = append(b, f.val(p, v))
		}
		f.set(p, in, FuncV{Fn: in.Fn.(*ssa.Function), B: b})
	case *ssa.MakeInterface:
		f.set(p, in, IfaceV{T: in.X.Type(), V: f.val(p, in.X)})
	case *ssa.MakeMap:
		o := p.st.alloc(in.Type(), &MapObj{})
		f.set(p, in, MapV{o})
	case *ssa.MakeSlice:
		n := x.toInt(f.val(p, in.Len).(*Term))
		c := x.toInt(f.val(p, in.Cap).(*Term))
		if !f.require(p, And(Le(Zero, n), Le(n, c)), "makeslice: len out of range", in) {
			return false
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		var cont Value
		if e := seqElem(et); e != nil {
			cont = Rep(zeroTerm(e), c)
		} else {
			k := concreteIdx(c)
			es := make([]Value, k)
			for i := range es {
				es[i] = zeroValue(et)
			}
			cont = ArrV{es}
		}
		o := p.st.alloc(in.Type(), cont)
		f.set(p, in, SliceV{B: Ptr{O: o}, Off: Zero, Len: n, Cap: c, Elem: et})
	case *ssa.MapUpdate:
		m := f.val(p, in.Map).(MapV)
		if m.O == 0 {
			f.panicOut(p.st, "assignment to nil map", in)
			return false
		}
		mo := p.st.heap.get(m.O).(*MapObj)
		k, v := f.val(p, in.Key), f.val(p, in.Value)
		n := &MapObj{append([]Value{}, mo.K...), append([]Value{}, mo.V...)}
		found := false
		for i := range n.K {
			switch Decide(valEq(n.K[i], k)) {
			case 1:
				n.V[i] = v
				found = true
			case 0:
				bail("symbolic map key")
			}
		}
		if !found {
			n.K = append(n.K, k)
			n.V = append(n.V, v)
		}
		p.st.heap.set(m.O, n)
	case *ssa.Range:
		v := f.val(p, in.X)
		switch a := v.(type) {
		case *Term: // string: iterate over its runes
			o := p.st.alloc(in.Type(), ModelV{Kind: "striter", T: []*Term{a, Zero}})
			f.set(p, in, Ptr{O: o})
		case MapV:
			var mo *MapObj
			if a.O != 0 {
				mo = p.st.heap.get(a.O).(*MapObj)
			} else {
				mo = &MapObj{}
			}
			o := p.st.alloc(in.Type(), ModelV{Kind: "mapiter", T: []*Term{Zero}, V: []Value{mo}})
			f.set(p, in, Ptr{O: o})
		default:
			bail("Range %T", v)
		}
	case *ssa.Next:
		q := f.val(p, in.Iter).(Ptr)
		m := p.st.heap.get(q.O).(ModelV)
		switch m.Kind {
		case "striter":
			rs := f.x.runesOf(p.st, m.T[0])
			idx := m.T[1]
			ok := Lt(idx, SLen(rs))
			p.st.heap.set(q.O, ModelV{Kind: "striter", T: []*Term{m.T[0], AddC(idx, 1)}})
			f.set(p, in, TupleV{[]Value{ok, UF("runeoff", IntS, m.T[0], idx), At(rs, idx)}})
		case "mapiter":
			mo := m.V[0].(*MapObj)
			k := concreteIdx(m.T[0])
			tp := in.Type().(*types.Tuple)
			if k >= len(mo.K) {
				f.set(p, in, TupleV{[]Value{False, zeroValueX(tp.At(1).Type()), zeroValueX(tp.At(2).Type())}})
			} else {
				p.st.heap.set(q.O, ModelV{Kind: "mapiter", T: []*Term{IC(int64(k + 1))}, V: m.V})
				f.set(p, in, TupleV{[]Value{True, mo.K[k], mo.V[k]}})
			}
		}
	case *ssa.Slice:
		return f.slice(p, in)
	case *ssa.SliceToArrayPointer:
		s := f.val(p, in.X).(SliceV)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !f.require(p, Le(IC(n), s.Len), "slice to array pointer", in) {
			return false
		}
		if s.Off != Zero {
			bail("SliceToArrayPointer offset")
		}
		f.set(p, in, s.B)
	case *ssa.Store:
		q, ok := f.val(p, in.Addr).(Ptr)
		if !ok {
			bail("store to %T", f.val(p, in.Addr))
		}
		if q.O == 0 {
			f.panicOut(p.st, "nil dereference", in)
			return false
		}
		p.st.store(q, f.val(p, in.Val))
	case *ssa.TypeAssert:
		return f.typeAssert(p, in)
	case *ssa.Defer:
		// deferred calls without effect on modelled state are not supported
		bail("defer")
	case *ssa.RunDefers:
		return true
	default:
		bail("instruction %T", in)
	}
	return true
}

func zeroValueX(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return TupleV{}
	}
	return zeroValue(t)
}

func (f *frame) unop(p *pend, in *ssa.UnOp) bool {
	v := f.val(p, in.X)
	switch in.Op {
	case token.MUL:
		q, ok := v.(Ptr)
		if !ok {
			bail("deref %T", v)
		}
		if q.O == 0 {
			f.panicOut(p.st, "nil dereference", in)
			return false
		}
		f.set(p, in, p.st.load(q))
	case token.NOT:
		f.set(p, in, Not(v.(*Term)))
	case token.SUB:
		t := v.(*Term)
		if t.S.K == SBV {
			f.set(p, in, BSub(BVCi(0, t.S.W), t))
		} else {
			k, _ := intKindOf(in.Type())
			f.set(p, in, wrap(Neg(t), k))
		}
	case token.XOR:
		t := v.(*Term)
		if t.S.K == SBV {
			f.set(p, in, BNot(t))
		} else {
			k, _ := intKindOf(in.Type())
			if k.signed {
				f.set(p, in, AddC(Neg(t), -1))
			} else {
				f.set(p, in, Sub(ICB(k.hi()), t))
			}
		}
	default:
		bail("unop %s", in.Op)
	}
	return true
}

func wrap(t *Term, k intKind) *Term {
	lo, hi := t.Range()
	if lo != nil && hi != nil && lo.Cmp(k.lo()) >= 0 && hi.Cmp(k.hi()) <= 0 {
		return t
	}
	if Decide(And(Le(ICB(k.lo()), t), Le(t, ICB(k.hi())))) == 1 {
		return t
	}
	if !k.signed {
		return ModC(t, pow2(k.w))
	}
	h := ICB(pow2(k.w - 1))
	return Sub(ModC(Add(t, h), pow2(k.w)), h)
}

func (x *Exec) toInt(t *Term) *Term {
	if t.S.K == SBV {
		return BV2I(t)
	}
	return t
}

// fromInt converts a mathematical integer to the given kind (wrapping).
func fromInt(t *Term, k intKind) *Term {
	if k.bv {
		return I2BV(t, k.w)
	}
	return wrap(t, k)
}

func isPow2m1(n *big.Int) bool {
	return n.Sign() >= 0 && new(big.Int).And(n, new(big.Int).Add(n, bigs[0])).Sign() == 0
}

func (f *frame) binop(p *pend, in *ssa.BinOp) bool {
	a, b := f.val(p, in.X), f.val(p, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ:
		t := f.eqVals(p, a, b, in)
		if in.Op == token.NEQ {
			t = Not(t)
		}
		f.set(p, in, t)
		return true
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		bail("binop %s on %T,%T", in.Op, a, b)
	}
	// strings
	if x.S.K == SSeq {
		switch in.Op {
		case token.ADD:
			f.set(p, in, SCat(x.S, x, y))
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			l := func(a, b *Term) *Term { return UF("strlt", BoolS, a, b) }
			var r *Term
			switch in.Op {
			case token.LSS:
				r = l(x, y)
			case token.GTR:
				r = l(y, x)
			case token.LEQ:
				r = Not(l(y, x))
			default:
				r = Not(l(x, y))
			}
			f.set(p, in, r)
		default:
			bail("string op %s", in.Op)
		}
		return true
	}
	if x.S == BoolS {
		switch in.Op {
		case token.AND:
			f.set(p, in, And(x, y))
		case token.OR:
			f.set(p, in, Or(x, y))
		default:
			bail("bool op %s", in.Op)
		}
		return true
	}
	k, ok := intKindOf(in.X.Type())
	if !ok {
		bail("binop %s type %s", in.Op, in.X.Type())
	}
	if in.Op == token.SHL || in.Op == token.SHR {
		sh := f.x.toInt(y)
		if ky, ok := intKindOf(in.Y.Type()); ok && ky.signed {
			if !f.require(p, Le(Zero, sh), "negative shift amount", in) {
				return false
			}
		}
		f.set(p, in, shift(x, sh, k, in.Op == token.SHL))
		return true
	}
	switch in.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		var r *Term
		if k.bv {
			// compare byte-ish values as integers when they come from integers
			switch in.Op {
			case token.LSS:
				r = Ult(x, y)
			case token.LEQ:
				r = Ule(x, y)
			case token.GTR:
				r = Ult(y, x)
			default:
				r = Ule(y, x)
			}
		} else {
			switch in.Op {
			case token.LSS:
				r = Lt(x, y)
			case token.LEQ:
				r = Le(x, y)
			case token.GTR:
				r = Lt(y, x)
			default:
				r = Le(y, x)
			}
		}
		f.set(p, in, r)
		return true
	case token.QUO, token.REM:
		nz := Not(Eq(y, zeroTerm(y.S)))
		if !f.require(p, nz, "division by zero", in) {
			return false
		}
	}
	f.set(p, in, arith(in.Op, x, y, k))
	return true
}

func shift(x, sh *Term, k intKind, left bool) *Term {
	if k.bv {
		if left {
			return BShl(x, sh)
		}
		return BLshr(x, sh)
	}
	if sh.IsC() {
		if sh.N.Cmp(big.NewInt(int64(k.w))) >= 0 {
			if left || !k.signed {
				return Zero
			}
			return Ite(Le(Zero, x), Zero, IC(-1))
		}
		n := int(sh.Int64())
		if left {
			return wrap(MulC(x, pow2(n)), k)
		}
		return DivC(x, pow2(n))
	}
	if left && x.IsC() {
		// 1<<n style: finite table when n is small
		if lo, hi := sh.Range(); lo != nil && hi != nil && hi.Cmp(big.NewInt(64)) <= 0 {
			r := Zero
			for i := int64(63); i >= lo.Int64(); i-- {
				if big.NewInt(i).Cmp(hi) > 0 {
					continue
				}
				r = Ite(EqI(sh, IC(i)), wrap(MulC(x, pow2(int(i))), k), r)
			}
			return r
		}
	}
	bv := I2BV(x, k.w)
	var r *Term
	if left {
		r = BShl(bv, sh)
	} else if k.signed {
		r = BAshr(bv, sh)
	} else {
		r = BLshr(bv, sh)
	}
	return bvToKind(r, k)
}
func bvToKind(r *Term, k intKind) *Term {
	u := BV2I(r)
	if !k.signed {
		return u
	}
	return Ite(Lt(u, ICB(pow2(k.w-1))), u, Sub(u, ICB(pow2(k.w))))
}

func arith(op token.Token, x, y *Term, k intKind) *Term {
	if k.bv {
		switch op {
		case token.ADD:
			return BAdd(x, y)
		case token.SUB:
			return BSub(x, y)
		case token.MUL:
			return BMul(x, y)
		case token.QUO:
			return BUdiv(x, y)
		case token.REM:
			return BUrem(x, y)
		case token.AND:
			return BAnd(x, y)
		case token.OR:
			return BOr(x, y)
		case token.XOR:
			return BXor(x, y)
		case token.AND_NOT:
			return BAnd(x, BNot(y))
		}
	}
	switch op {
	case token.ADD:
		return wrap(Add(x, y), k)
	case token.SUB:
		return wrap(Sub(x, y), k)
	case token.MUL:
		return wrap(Mul(x, y), k)
	case token.QUO, token.REM:
		nonneg := !k.signed || Decide(Le(Zero, x)) == 1
		ypos := !k.signed || Decide(Lt(Zero, y)) == 1
		var q *Term
		switch {
		case nonneg && ypos:
			if op == token.REM {
				return ModT(x, y)
			}
			return DivT(x, y)
		case ypos:
			q = Ite(Le(Zero, x), DivT(x, y), Neg(DivT(Neg(x), y)))
		default:
			ay := Ite(Le(Zero, y), y, Neg(y))
			ax := Ite(Le(Zero, x), x, Neg(x))
			q0 := DivT(ax, ay)
			q = Ite(Eq(Le(Zero, x), Le(Zero, y)), q0, Neg(q0))
		}
		if op == token.QUO {
			return wrap(q, k)
		}
		return Sub(x, Mul(q, y))
	case token.AND:
		if x.IsC() {
			x, y = y, x
		}
		if y.IsC() && isPow2m1(y.N) {
			return ModC(x, new(big.Int).Add(y.N, bigs[0]))
		}
		// single bit test
		return bvToKind(BAnd(I2BV(x, k.w), I2BV(y, k.w)), k)
	case token.OR:
		if x == Zero {
			return y
		}
		if y == Zero {
			return x
		}
		return bvToKind(BOr(I2BV(x, k.w), I2BV(y, k.w)), k)
	case token.XOR:
		return bvToKind(BXor(I2BV(x, k.w), I2BV(y, k.w)), k)
	case token.AND_NOT:
		if y.IsC() && isPow2m1(y.N) {
			return Sub(x, ModC(x, new(big.Int).Add(y.N, bigs[0])))
		}
		return bvToKind(BAnd(I2BV(x, k.w), BNot(I2BV(y, k.w))), k)
	}
	bail("arith %s", op)
	return nil
}

func (f *frame) eqVals(p *pend, a, b Value, in ssa.Instruction) *Term {
	return valEq(a, b)
}

func (f *frame) convert(p *pend, in *ssa.Convert) bool {
	v := f.val(p, in.X)
	from, to := in.X.Type(), in.Type()
	kf, okf := intKindOf(from)
	kt, okt := intKindOf(to)
	t, isT := v.(*Term)
	switch {
	case okf && okt && isT:
		f.set(p, in, convInt(t, kf, kt))
		return true
	case isT && t.S == BytesS: // string -> []byte / []rune
		if s, ok := under(to).(*types.Slice); ok {
			if e, ok := under(s.Elem()).(*types.Basic); ok && e.Kind() == types.Uint8 {
				sl := p.st.newBytes(t)
				sl.Elem = s.Elem()
				f.set(p, in, sl)
				return true
			}
			rs := f.x.runesOf(p.st, t)
			f.set(p, in, p.st.newSeqSlice(s.Elem(), rs))
			return true
		}
		f.set(p, in, t)
		return true
	}
	if b, ok := under(to).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		switch s := v.(type) {
		case SliceV:
			c := p.st.seqOf(s)
			if c.S.Elem == ByteS {
				f.set(p, in, c)
			} else {
				f.set(p, in, f.x.utf8Enc(p.st, c))
			}
			return true
		case *Term: // integer to string
			f.set(p, in, UF("utf8enc", BytesS, mk(&Term{Op: OLit, S: SeqS(IntS), Args: []*Term{f.x.toInt(s)}})))
			return true
		}
	}
	if _, ok := v.(OpaqueV); ok {
		f.set(p, in, v)
		return true
	}
	// floats and other: opaque
	bail("convert %s -> %s", from, to)
	return false
}

func convInt(t *Term, kf, kt intKind) *Term {
	if kf.bv && kt.bv {
		if kt.w <= kf.w {
			return BExt(t, kt.w-1, 0)
		}
		return BZext(t, kt.w)
	}
	if kf.bv {
		return wrap(BV2I(t), kt)
	}
	return fromInt(t, kt)
}

// Runes: the rune sequence of a string (UTF-8 decoding is abstract except for constants).
func Runes(s *Term) *Term {
	if s.Op == OSCst {
		var us []*Term
		for _, r := range s.Str {
			us = append(us, IC(int64(r)))
		}
		return mk(&Term{Op: OLit, S: SeqS(IntS), Args: us})
	}
	return UF("runes", SeqS(IntS), s)
}

func (f *frame) lookup(p *pend, in *ssa.Lookup) bool {
	v := f.val(p, in.X)
	if s, ok := v.(*Term); ok {
		idx := f.x.toInt(f.val(p, in.Index).(*Term))
		if !f.require(p, And(Le(Zero, idx), Lt(idx, SLen(s))), "index out of range", in) {
			return false
		}
		f.set(p, in, At(s, idx))
		return true
	}
	m := v.(MapV)
	k := f.val(p, in.Index)
	var et types.Type
	if in.CommaOk {
		et = in.Type().(*types.Tuple).At(0).Type()
	} else {
		et = in.Type()
	}
	mo := &MapObj{}
	if m.O != 0 {
		mo = p.st.heap.get(m.O).(*MapObj)
	}
	for i := range mo.K {
		eq := valEq(mo.K[i], k)
		switch Decide(eq) {
		case 1:
			if in.CommaOk {
				f.set(p, in, TupleV{[]Value{mo.V[i], True}})
			} else {
				f.set(p, in, mo.V[i])
			}
			return true
		case 0:
			panic(forkErr{Ite(eq, One, Zero)})
		}
	}
	z := zeroValue(et)
	if in.CommaOk {
		f.set(p, in, TupleV{[]Value{z, False}})
	} else {
		f.set(p, in, z)
	}
	return true
}

func (f *frame) slice(p *pend, in *ssa.Slice) bool {
	v := f.val(p, in.X)
	get := func(e ssa.Value, d *Term) *Term {
		if e == nil {
			return d
		}
		return f.x.toInt(f.val(p, e).(*Term))
	}
	switch a := v.(type) {
	case *Term: // string
		lo := get(in.Low, Zero)
		hi := get(in.High, SLen(a))
		if !f.require(p, And(Le(Zero, lo), Le(lo, hi), Le(hi, SLen(a))), "slice bounds out of range", in) {
			return false
		}
		f.set(p, in, SSub(a, lo, Sub(hi, lo)))
		return true
	case Ptr:
		if a.O == 0 {
			f.panicOut(p.st, "nil dereference", in)
			return false
		}
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := IC(at.Len())
		lo := get(in.Low, Zero)
		hi := get(in.High, n)
		mx := get(in.Max, n)
		if !f.require(p, And(Le(Zero, lo), Le(lo, hi), Le(hi, mx), Le(mx, n)), "slice bounds out of range", in) {
			return false
		}
		f.set(p, in, SliceV{B: a, Off: lo, Len: Sub(hi, lo), Cap: Sub(mx, lo), Elem: at.Elem()})
		return true
	case SliceV:
		lo := get(in.Low, Zero)
		hi := get(in.High, a.Len)
		mx := get(in.Max, a.Cap)
		if !f.require(p, And(Le(Zero, lo), Le(lo, hi), Le(hi, mx), Le(mx, a.Cap)), "slice bounds out of range", in) {
			return false
		}
		if a.Nil {
			f.set(p, in, a)
			return true
		}
		f.set(p, in, SliceV{B: a.B, Off: Add(a.Off, lo), Len: Sub(hi, lo), Cap: Sub(mx, lo), Elem: a.Elem, Maybe: a.Maybe})
		return true
	}
	bail("slice of %T", v)
	return false
}

func (f *frame) typeAssert(p *pend, in *ssa.TypeAssert) bool {
	v := f.val(p, in.X)
	iv, ok := v.(IfaceV)
	if !ok {
		bail("typeassert on %T", v)
	}
	match := false
	if iv.T != nil {
		if _, isI := under(in.AssertedType).(*types.Interface); isI {
			match = types.Implements(iv.T, under(in.AssertedType).(*types.Interface))
		} else {
			match = types.Identical(iv.T, in.AssertedType)
		}
	}
	var res Value
	if match {
		if _, isI := under(in.AssertedType).(*types.Interface); isI {
			res = iv
		} else {
			res = iv.V
		}
	} else {
		if !in.CommaOk {
			f.panicOut(p.st, "type assertion failed", in)
			return false
		}
		res = zeroValue(in.AssertedType)
	}
	if in.CommaOk {
		f.set(p, in, TupleV{[]Value{res, BC(match)}})
	} else {
		f.set(p, in, res)
	}
	return true
}

func (f *frame) doCall(p *pend, c *ssa.CallCommon, site *ssa.Call) ([]Outcome, bool) {
	x := f.x
	var args []Value
	for _, a := range c.Args {
		args = append(args, f.val(p, a))
	}
	pos := x.posOf(site)
	if c.IsInvoke() {
		recv := f.val(p, c.Value)
		return x.invoke(p.st, recv, c.Method, args, pos, func(msg string) { f.panicOut(p.st, msg, site) })
	}
	fv := f.val(p, c.Value).(FuncV)
	if fv.Bi != nil {
		return f.builtin(p, fv.Bi, c, args, site)
	}
	return x.callFunc(p.st, fv, args, pos, c.Signature(), func(msg string) { f.panicOut(p.st, msg, site) })
}

func (x *Exec) callFunc(st *State, fv FuncV, args []Value, pos string, sig *types.Signature, onPanic func(string)) ([]Outcome, bool) {
	if fv.Tag != "" {
		in := x.intr[fv.Tag]
		if in == nil {
			bail("function value %s", fv.Tag)
		}
		return in(x, st, append(append([]Value{}, fv.B...), args...), &CallCtx{name: fv.Tag, sig: sig, pos: pos}), true
	}
	if fv.Fn == nil {
		onPanic("nil function call")
		return nil, false
	}
	return x.Call(st, fv.Fn, args, fv.B, pos), true
}

func (x *Exec) invoke(st *State, recv Value, m *types.Func, args []Value, pos string, onPanic func(string)) ([]Outcome, bool) {
	iv, ok := recv.(IfaceV)
	if !ok {
		bail("invoke on %T", recv)
	}
	if iv.T == nil {
		onPanic("nil interface method call " + m.Name())
		return nil, false
	}
	// modelled receivers
	if key := x.modelMethod(st, iv, m.Name()); key != "" {
		x.used[key]++
		return x.intr[key](x, st, append([]Value{iv.V}, args...), &CallCtx{name: key, sig: m.Type().(*types.Signature), pos: pos}), true
	}
	fn := x.prog.LookupMethod(iv.T, m.Pkg(), m.Name())
	if fn == nil {
		bail("no method %s on %s", m.Name(), iv.T)
	}
	return x.Call(st, fn, append([]Value{iv.V}, args...), nil, pos), true
}

// itePaths: the path conditions of the leaves of a conditional term all of whose
// leaves are constants.
func itePaths(t *Term) []*Term {
	if t.Op != OIte {
		return nil
	}
	var out []*Term
	ok := true
	var rec func(t, c *Term)
	rec = func(t, c *Term) {
		if !ok || c == False {
			return
		}
		switch {
		case t.Op == OIte:
			rec(t.Args[1], And(c, t.Args[0]))
			rec(t.Args[2], And(c, Not(t.Args[0])))
		case t.IsC() && len(out) < 48:
			out = append(out, c)
		default:
			ok = false
		}
	}
	rec(t, True)
	if !ok {
		return nil
	}
	return out
}

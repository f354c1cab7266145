package main

import "go/types"

// bytes.Buffer and strings.Builder used as accumulators: a sequence of unread
// bytes. Bytes returns a copy (writing through it into the buffer is not modelled).
func init() {
	get := func(st *State, p Value) (Ptr, ModelV) {
		q := p.(Ptr)
		if q.O == 0 {
			bail("nil buffer")
		}
		m, ok := st.load(q).(ModelV)
		if !ok || m.Kind != "bytes.Buffer" {
			bail("unmodelled buffer")
		}
		return q, m
	}
	put := func(st *State, p Ptr, t *Term) *State {
		st = st.clone()
		st.store(p, ModelV{Kind: "bytes.Buffer", T: []*Term{t}})
		return st
	}
	add := func(conv func(st *State, v Value) *Term, ret func(n *Term) []Value) func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
			p, m := get(st, a[0])
			t := conv(st, a[1])
			return one(put(st, p, SCat(BytesS, m.T[0], t)), ret(SLen(t))...)
		}
	}
	sl := func(st *State, v Value) *Term { return st.seqOf(v.(SliceV)) }
	str := func(st *State, v Value) *Term { return tm(v) }
	byt := func(st *State, v Value) *Term { return Lit(ByteS, tm(v)) }
	nerr := func(n *Term) []Value { return []Value{n, IfaceV{}} }
	for _, ty := range []string{"(*bytes.Buffer).", "(*strings.Builder)."} {
		intr[ty+"Write"] = add(sl, nerr)
		intr[ty+"WriteString"] = add(str, nerr)
		intr[ty+"WriteByte"] = add(byt, func(*Term) []Value { return []Value{IfaceV{}} })
		intr[ty+"Len"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
			_, m := get(st, a[0])
			return one(st, SLen(m.T[0]))
		}
		intr[ty+"String"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
			_, m := get(st, a[0])
			return one(st, m.T[0])
		}
		intr[ty+"Reset"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
			p, _ := get(st, a[0])
			return one(put(st, p, SC("")))
		}
		intr[ty+"Grow"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome { return one(st) }
	}
	intr["(*bytes.Buffer).Bytes"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		_, m := get(st, a[0])
		st = st.clone()
		if m.T[0].Op == OSCst && m.T[0].Str == "" {
			return one(st, SliceV{Nil: true, Off: Zero, Len: Zero, Cap: Zero, Elem: types.Typ[types.Byte]})
		}
		return one(st, st.newBytes(m.T[0]))
	}
	nb := func(conv func(st *State, v Value) *Term) func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
			st = st.clone()
			t := conv(st, a[0])
			o := st.alloc(c.sig.Results().At(0).Type().(*types.Pointer).Elem(), ModelV{Kind: "bytes.Buffer", T: []*Term{t}})
			return one(st, Ptr{O: o})
		}
	}
	intr["bytes.NewBuffer"] = nb(sl)
	intr["bytes.NewBufferString"] = nb(str)
}

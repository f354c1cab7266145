package main

import (
	"go/types"
	"math/big"
)

// A modelled reader (vReader) delivers arbitrary bytes and may fail at any
// point. The object is ModelV{reader, [failed Bool]}.

func init() {
	vIntr["vReader"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		st = st.clone()
		o := st.alloc(types.Typ[types.Int], ModelV{Kind: "reader", T: []*Term{False}})
		rt := c.sig.Results().At(0).Type()
		if _, ok := under(rt).(*types.Interface); ok {
			bail("vReader must return *vRdr")
		}
		return one(st, Ptr{O: o})
	}
	vIntr["vReaderGen"] = vIntr["vReader"]
	vIntr["vBytesGen"] = vIntr["vBytes"]
	vIntr["vBigGen"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		st = st.clone()
		return one(st, x.newBig(st, FreshR(strArg(a[0]), nil, nil)))
	}
	vIntr["vPoint"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		st = st.clone()
		k := FreshR("dlog_"+strArg(a[0]), big.NewInt(1), new(big.Int).Sub(sm2N, bigs[0]))
		return one(st, x.newBig(st, ecX(k)), x.newBig(st, ecY(k)))
	}
	vIntr["vReaderFailed"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, st.heap.get(a[0].(Ptr).O).(ModelV).T[0])
	}
	intr["io.ReadFull"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		buf := a[1].(SliceV)
		var out []Outcome
		for _, r := range x.readFull(st, a[0], buf.Len, c) {
			if r.panic != "" {
				out = append(out, r)
				continue
			}
			s := r.st.clone()
			cur = s.ctx
			if r.ret[0] == nil {
				x.havocArg(s, buf)
				n := FreshR("nread", new(big.Int), lenMax)
				s.assume(Lt(n, buf.Len))
				out = append(out, Outcome{st: s, ret: []Value{n, r.ret[1]}})
				continue
			}
			(&frame{x: x}).writeSeq(s, buf, r.ret[0].(*Term))
			out = append(out, Outcome{st: s, ret: []Value{buf.Len, IfaceV{}}})
		}
		return out
	}
	intr["model.reader.Read"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		p := a[0].(Ptr)
		buf := a[1].(SliceV)
		s1 := st.clone()
		x.havocArg(s1, buf)
		n := FreshR("nread", new(big.Int), lenMax)
		s1.assume(Le(n, buf.Len))
		s2 := s1.clone()
		s2.heap.set(p.O, ModelV{Kind: "reader", T: []*Term{True}})
		return []Outcome{{st: s1, ret: []Value{n, IfaceV{}}}, {st: s2, ret: []Value{n, x.newErr(s2, "reader")}}}
	}
}

// readFull: outcomes (content, nil-error) or (nil, error).
func (x *Exec) readFull(st *State, r Value, n *Term, c *CallCtx) []Outcome {
	iv, ok := r.(IfaceV)
	if !ok {
		bail("reader %T", r)
	}
	if iv.T == nil {
		return []Outcome{{st: st, panic: "nil reader", where: c.pos}}
	}
	var out []Outcome
	if p, ok := iv.V.(Ptr); ok {
		if m, ok := st.heap.get(p.O).(ModelV); ok && m.Kind == "reader" {
			s2 := st.clone()
			s2.heap.set(p.O, ModelV{Kind: "reader", T: []*Term{True}})
			out = append(out, Outcome{st: s2, ret: []Value{nil, x.newErr(s2, "reader")}})
		}
	} else if _, ok := iv.V.(OpaqueV); ok {
		s2 := st.clone()
		out = append(out, Outcome{st: s2, ret: []Value{nil, x.newErr(s2, "reader")}})
	} else {
		bail("read from %s", iv.T)
	}
	s1 := st.clone()
	return append(out, Outcome{st: s1, ret: []Value{FreshSeq("rnd", ByteS, n), IfaceV{}}})
}

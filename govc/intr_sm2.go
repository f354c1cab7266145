package main

import "go/types"

// sm2.Sign for the other packages (proved in C05, C04): a failure, or a signature
// that sm2.Verify accepts under the public half of the key. The private key must be a matching pair.

func init() {
	intr[modPath+"/sm2.Sign"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		x.used["sm2.Sign: an error, or a signature accepted by sm2.Verify under the public half of the key (C05)"]++
		p, ok := a[1].(Ptr)
		if !ok || p.O == 0 {
			return []Outcome{{st: st, panic: "nil key", where: c.pos}}
		}
		bad := st.clone()
		out := []Outcome{{st: bad, ret: []Value{zeroValue(c.sig.Results().At(0).Type()), x.newErr(bad, "sm2: signing failed")}}}
		s := st.clone()
		pt := under(c.sig.Params().At(1).Type()).(*types.Pointer).Elem()
		pub := s.load(p).(StructV).F[fieldIdx(pt, "PublicKey")]
		sig := FreshBytes("sm2sig")
		s.assume(x.keyPred(s, "sm2.Verify", pub, nil, s.seqOf(a[2].(SliceV)), s.seqOf(a[3].(SliceV)), sig))
		cur = s.ctx
		return append(out, Outcome{st: s, ret: []Value{s.newBytes(sig), IfaceV{}}})
	}
}

package main

import (
	"go/types"
)

// Hash objects hold the message absorbed so far; the digest is an
// uninterpreted function of it. For SM3 this is exactly the contract proved for
// package sm3 (C01, C02).

var hashSize = map[string]int64{"sm3": 32, "md5": 16, "sha1": 20, "sha224": 28, "sha256": 32, "sha384": 48, "sha512": 64}
var hashBlock = map[string]int64{"sm3": 64, "md5": 64, "sha1": 64, "sha224": 64, "sha256": 64, "sha384": 128, "sha512": 128}

func H(kind string, m *Term) *Term { return UF("H."+kind, BytesS, m) }
func HMACt(kind string, key, m *Term) *Term {
	return UF("HMAC."+kind, BytesS, key, m)
}
func (h HashV) digest() *Term {
	if h.Key != nil {
		return HMACt(h.Kind, h.Key, h.M)
	}
	return H(h.Kind, h.M)
}

func (x *Exec) typeIn(pkg, name string) types.Type {
	for _, p := range x.prog.AllPackages() {
		if p.Pkg.Path() == pkg && p.Type(name) != nil {
			return p.Type(name).Type()
		}
	}
	return nil
}

// newHash allocates a hash object; its dynamic type is only a carrier.
func (x *Exec) newHash(st *State, kind string, key *Term) IfaceV {
	t := x.typeIn(modPath+"/sm3", "digest")
	if t == nil {
		t = x.typeIn("bytes", "Buffer")
	}
	if t == nil {
		t = types.Typ[types.Int]
	}
	o := st.alloc(t, HashV{Kind: kind, Key: key, M: SC("")})
	return IfaceV{T: types.NewPointer(t), V: Ptr{O: o}}
}

func init() {
	for k, n := range hashSize {
		n := n
		ufInfo["H."+k] = &ufI{lenOf: func([]*Term) *Term { return IC(n) }}
		ufInfo["HMAC."+k] = &ufI{lenOf: func([]*Term) *Term { return IC(n) }}
	}
	mkNew := func(kind string) Intrinsic {
		return func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
			st = st.clone()
			return one(st, x.newHash(st, kind, nil))
		}
	}
	mkSum := func(kind string) Intrinsic {
		return func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
			return one(st, H(kind, st.seqOf(a[0].(SliceV))))
		}
	}
	intr[modPath+"/sm3.New"] = mkNew("sm3")
	intr[modPath+"/sm3.Sum"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		st = st.clone()
		return one(st, st.newBytes(H("sm3", st.seqOf(a[0].(SliceV)))))
	}
	for _, p := range [][3]string{{"crypto/sha1", "New", "sha1"}, {"crypto/sha256", "New", "sha256"}, {"crypto/sha256", "New224", "sha224"}, {"crypto/sha512", "New", "sha512"}, {"crypto/sha512", "New384", "sha384"}, {"crypto/md5", "New", "md5"}} {
		intr[p[0]+"."+p[1]] = mkNew(p[2])
	}
	for _, p := range [][3]string{{"crypto/sha1", "Sum", "sha1"}, {"crypto/sha256", "Sum256", "sha256"}, {"crypto/sha512", "Sum512", "sha512"}, {"crypto/sha512", "Sum384", "sha384"}, {"crypto/md5", "Sum", "md5"}} {
		intr[p[0]+"."+p[1]] = mkSum(p[2])
	}
	intr["crypto/hmac.New"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		fv := a[0].(FuncV)
		var out []Outcome
		os, ok := x.callFunc(st, fv, nil, c.pos, nil, func(string) {})
		if !ok {
			return []Outcome{{st: st, panic: "nil hash constructor", where: c.pos}}
		}
		for _, o := range os {
			if o.panic != "" {
				out = append(out, o)
				continue
			}
			h, ok := o.st.heap.get(o.ret[0].(IfaceV).V.(Ptr).O).(HashV)
			if !ok {
				bail("hmac over an unmodelled hash")
			}
			s := o.st.clone()
			out = append(out, one(s, x.newHash(s, h.Kind, s.seqOf(a[1].(SliceV))))...)
		}
		return out
	}
	intr["crypto/hmac.Equal"] = vIntr["vEqual"]
	intr["hash.Write"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		p := a[0].(Ptr)
		s := a[1].(SliceV)
		h := st.heap.get(p.O).(HashV)
		st = st.clone()
		h.M = SCat(BytesS, h.M, st.seqOf(s))
		st.heap.set(p.O, h)
		return one(st, s.Len, IfaceV{})
	}
	intr["hash.Sum"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		h := st.heap.get(a[0].(Ptr).O).(HashV)
		return (&frame{x: x}).appendSeq(st.clone(), a[1].(SliceV), h.digest())
	}
	intr["hash.Reset"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		p := a[0].(Ptr)
		h := st.heap.get(p.O).(HashV)
		st = st.clone()
		h.M = SC("")
		st.heap.set(p.O, h)
		return one(st)
	}
	intr["hash.Size"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, IC(hashSize[st.heap.get(a[0].(Ptr).O).(HashV).Kind]))
	}
	intr["hash.BlockSize"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return one(st, IC(hashBlock[st.heap.get(a[0].(Ptr).O).(HashV).Kind]))
	}
}

package main

import (
	"go/types"
	"math/big"
	"reflect"
	"strconv"
	"strings"
)

// encoding/asn1 as a structural DER codec: the rules of asn1.Marshal and
// asn1.Unmarshal (field parameters, optional and default values, explicit and
// implicit tags, RawValue, RawContent) over the abstract element encodings of
// intr_cb.go. Primitive contents are injective functions of the values.

type asn1Par struct {
	optional, explicit, application, private, set, omitEmpty bool
	def                                                      *big.Int
	tag                                                      int64
	hasTag                                                   bool
	str, tim                                                 int64
}

func asn1Params(s string) (p asn1Par) {
	for _, w := range strings.Split(s, ",") {
		switch {
		case w == "optional":
			p.optional = true
		case w == "explicit":
			p.explicit = true
			if !p.hasTag {
				p.hasTag = true
			}
		case w == "generalized":
			p.tim = 24
		case w == "utc":
			p.tim = 23
		case w == "ia5":
			p.str = 22
		case w == "printable":
			p.str = 19
		case w == "numeric":
			p.str = 18
		case w == "utf8":
			p.str = 12
		case strings.HasPrefix(w, "default:"):
			if i, err := strconv.ParseInt(w[8:], 10, 64); err == nil {
				p.def = big.NewInt(i)
			}
		case strings.HasPrefix(w, "tag:"):
			if i, err := strconv.Atoi(w[4:]); err == nil {
				p.tag, p.hasTag = int64(i), true
			}
		case w == "set":
			p.set = true
		case w == "application":
			p.application = true
			p.hasTag = true
		case w == "private":
			p.private = true
			p.hasTag = true
		case w == "omitempty":
			p.omitEmpty = true
		}
	}
	return
}

func (p asn1Par) class() int64 {
	switch {
	case p.application:
		return 0x40
	case p.private:
		return 0xc0
	}
	return 0x80
}

func namedIs(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

func isRaw(t types.Type) bool        { return namedIs(t, "encoding/asn1", "RawValue") }
func isRawContent(t types.Type) bool { return namedIs(t, "encoding/asn1", "RawContent") }

// universal tag of a Go type
func asn1Universal(t types.Type) (any bool, tag int64, compound, ok bool) {
	switch {
	case isRaw(t):
		return true, -1, false, true
	case namedIs(t, "encoding/asn1", "ObjectIdentifier"):
		return false, 6, false, true
	case namedIs(t, "encoding/asn1", "BitString"):
		return false, 3, false, true
	case namedIs(t, "encoding/asn1", "Enumerated"):
		return false, 10, false, true
	case namedIs(t, "encoding/asn1", "Flag"):
		return false, 1, false, true
	case namedIs(t, "time", "Time"):
		return false, 23, false, true
	}
	if p, ok := t.(*types.Pointer); ok && isBigInt(p.Elem()) {
		return false, 2, false, true
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false, 1, false, true
		case u.Info()&types.IsString != 0:
			return false, 19, false, true
		case u.Kind() == types.Int || u.Kind() == types.Int8 || u.Kind() == types.Int16 || u.Kind() == types.Int32 || u.Kind() == types.Int64:
			return false, 2, false, true
		}
	case *types.Struct:
		return false, 16, true, true
	case *types.Slice:
		if b, ok := under(u.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
			return false, 4, false, true
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && strings.HasSuffix(n.Obj().Name(), "SET") {
			return false, 17, true, true
		}
		return false, 16, true, true
	}
	return false, 0, false, false
}

func derByte(tag int64, compound bool) int64 {
	if compound {
		return tag | 0x20
	}
	return tag
}

// ---- primitive contents ----

func DerOID(s *Term) *Term { return UF("der.oid", BytesS, s) }

func oidOK(s *Term) *Term {
	us := litUnits(s)
	if s.Op == OLit || SLen(s).IsC() && len(us) > 0 {
		all := true
		for _, u := range us {
			all = all && u.IsC()
		}
		if all {
			if len(us) < 2 || us[0].N.Sign() < 0 || us[0].Int64() > 2 || us[0].Int64() < 2 && us[1].Int64() >= 40 {
				return False
			}
			for _, u := range us {
				if u.N.Sign() < 0 || u.N.Cmp(big.NewInt(1<<31-1)) > 0 {
					return False
				}
			}
			return True
		}
		if len(us) > 2 && us[0].IsInt64() && us[1].IsInt64() {
			if a, b := us[0].Int64(), us[1].Int64(); a >= 0 && b >= 0 && a <= 2 && (a == 2 || b < 40) {
				good := []*Term{}
				for _, u := range us[2:] {
					good = append(good, Le(Zero, u), Le(u, IC(1<<31-1)))
				}
				return And(good...)
			}
			return False
		}
	}
	if SLen(s) == Zero {
		return False
	}
	return UF("der.oidok", BoolS, s)
}

func base128(n *big.Int) []byte {
	b := []byte{byte(new(big.Int).And(n, big.NewInt(127)).Int64())}
	for n = new(big.Int).Rsh(n, 7); n.Sign() > 0; n = new(big.Int).Rsh(n, 7) {
		b = append([]byte{byte(new(big.Int).And(n, big.NewInt(127)).Int64()) | 0x80}, b...)
	}
	return b
}

func constOID(s *Term) ([]byte, bool) {
	if oidOK(s) != True {
		return nil, false
	}
	us := litUnits(s)
	for _, u := range us {
		if !u.IsC() {
			return nil, false
		}
	}
	b := base128(new(big.Int).Add(new(big.Int).Mul(us[0].N, big.NewInt(40)), us[1].N))
	for _, u := range us[2:] {
		b = append(b, base128(u.N)...)
	}
	return b, true
}

func parseConstOID(b string) (*Term, bool) {
	var us []*Term
	n := new(big.Int)
	start := true
	for i := 0; i < len(b); i++ {
		if start && b[i] == 0x80 {
			return nil, false
		}
		start = false
		n = new(big.Int).Or(new(big.Int).Lsh(n, 7), big.NewInt(int64(b[i]&0x7f)))
		if b[i]&0x80 == 0 {
			if n.Cmp(big.NewInt(1<<31-1)) > 0 {
				return nil, false
			}
			if len(us) == 0 {
				v := n.Int64()
				if v < 80 {
					us = append(us, IC(v/40), IC(v%40))
				} else {
					us = append(us, IC(2), IC(v-80))
				}
			} else {
				us = append(us, ICB(n))
			}
			n = new(big.Int)
			start = true
		}
	}
	if !start || len(us) == 0 {
		return nil, false
	}
	return Lit(IntS, us...), true
}

func constInt(n *big.Int) []byte {
	if n.Sign() >= 0 {
		b := n.Bytes()
		if len(b) == 0 || b[0]&0x80 != 0 {
			b = append([]byte{0}, b...)
		}
		return b
	}
	l := 1
	for new(big.Int).Neg(new(big.Int).Lsh(bigs[0], uint(8*l-1))).Cmp(n) > 0 {
		l++
	}
	b := new(big.Int).Add(n, new(big.Int).Lsh(bigs[0], uint(8*l))).Bytes()
	for len(b) < l {
		b = append([]byte{0}, b...)
	}
	return b
}

func parseConstInt(s string) (*big.Int, bool) {
	if len(s) == 0 || len(s) > 1 && (s[0] == 0 && s[1]&0x80 == 0 || s[0] == 0xff && s[1]&0x80 != 0) {
		return nil, false
	}
	n := new(big.Int).SetBytes([]byte(s))
	if s[0]&0x80 != 0 {
		n.Sub(n, new(big.Int).Lsh(bigs[0], uint(8*len(s))))
	}
	return n, true
}

func constTLV(tag int64, c string) []byte {
	b := []byte{byte(tag)}
	switch n := len(c); {
	case n < 0x80:
		b = append(b, byte(n))
	default:
		l := big.NewInt(int64(n)).Bytes()
		b = append(append(b, 0x80|byte(len(l))), l...)
	}
	return append(b, c...)
}

// parseConstTLV reads one complete element of a constant.
func parseConstTLV(s string) (tag int64, content, rest string, ok bool) {
	if len(s) < 2 || s[0]&0x1f == 0x1f {
		return
	}
	n, i := int(s[1]), 2
	if n >= 0x80 {
		k := n & 0x7f
		if k == 0 || k > 4 || len(s) < 2+k || s[2] == 0 {
			return
		}
		n = 0
		for _, c := range []byte(s[2 : 2+k]) {
			n = n<<8 | int(c)
		}
		if n < 0x80 {
			return
		}
		i += k
	}
	if len(s) < i+n {
		return
	}
	return int64(s[0]), s[i : i+n], s[i+n:], true
}

type derAnyRes struct {
	st                 *State
	ok                 bool
	tag, content, rest *Term
}

// derReadAny: read one element of any tag.
func (x *Exec) derReadAny(st *State, s *Term) []derAnyRes {
	cur = st.ctx
	s = Renorm(s)
	if SLen(s) == Zero {
		return []derAnyRes{{st: st}}
	}
	ps := pieces(s)
	if ps[0].Op == OUF && ps[0].Str == "der.tlv" {
		return []derAnyRes{{st: st.clone(), ok: true, tag: ps[0].Args[0], content: ps[0].Args[1], rest: SCat(BytesS, ps[1:]...)}}
	}
	if ps[0].Op == OSCst {
		if tag, c, r, ok := parseConstTLV(ps[0].Str); ok {
			return []derAnyRes{{st: st.clone(), ok: true, tag: IC(tag), content: SC(c), rest: SCat(BytesS, append([]*Term{SC(r)}, ps[1:]...)...)}}
		}
		if len(ps) == 1 {
			return []derAnyRes{{st: st}}
		}
	}
	has := UF("der.any", BoolS, s)
	var out []derAnyRes
	d := Decide(has)
	if d != 1 {
		f := st.clone()
		f.assume(Not(has))
		if f.ctx.Feasible() {
			out = append(out, derAnyRes{st: f})
		}
	}
	if d != -1 {
		t := st.clone()
		t.assume(has)
		k := [2]*Term{Zero, s}
		if _, ok := derParts[k]; !ok {
			derParts[k] = [2]*Term{FreshBytes("content"), FreshBytes("rest")}
			derParts[[2]*Term{One, s}] = [2]*Term{FreshR("tag", big.NewInt(0), big.NewInt(255))}
		}
		tag := derParts[[2]*Term{One, s}][0]
		content, rest := derParts[k][0], derParts[k][1]
		for _, f := range st.ctx.Facts() {
			if f.Op == ONot && f.Args[0].Op == OUF && f.Args[0].Str == "der.has" && f.Args[0].Args[1] == s {
				t.assume(Not(EqI(tag, f.Args[0].Args[0])))
			}
		}
		t.assume(Eq(s, SCat(BytesS, UF("der.tlv", BytesS, tag, content), rest)))
		if t.ctx.Feasible() {
			out = append(out, derAnyRes{st: t, ok: true, tag: tag, content: content, rest: rest})
		}
	}
	return out
}

// derOID: the content of an OBJECT IDENTIFIER; content holds the list of arcs.
func (x *Exec) derOID(st *State, c *Term) []derRes {
	cur = st.ctx
	c = Renorm(c)
	if c.Op == OUF && c.Str == "der.oid" {
		return []derRes{{st: st, ok: true, content: c.Args[0]}}
	}
	if c.Op == OSCst {
		v, ok := parseConstOID(c.Str)
		return []derRes{{st: st, ok: ok, content: v}}
	}
	return x.memoPrim(st, c, "der.isoid", func() *Term { return Fresh("oid", SeqS(IntS)) }, func(v *Term) []*Term {
		return []*Term{Eq(c, DerOID(v)), oidOK(v), Le(IC(2), SLen(v))}
	})
}

// memoPrim: unknown content, decoded as a function of it or not at all.
func (x *Exec) memoPrim(st *State, c *Term, pred string, fresh func() *Term, facts func(*Term) []*Term) []derRes {
	has := UF(pred, BoolS, c)
	var out []derRes
	d := Decide(has)
	if d != 1 {
		f := st.clone()
		f.assume(Not(has))
		if f.ctx.Feasible() {
			out = append(out, derRes{st: f})
		}
	}
	if d != -1 {
		t := st.clone()
		t.assume(has)
		k := [2]*Term{c, SC(pred)}
		if _, ok := derParts[k]; !ok {
			derParts[k] = [2]*Term{fresh(), nil}
		}
		v := derParts[k][0]
		for _, f := range facts(v) {
			t.assume(f)
		}
		if t.ctx.Feasible() {
			out = append(out, derRes{st: t, ok: true, content: v})
		}
	}
	return out
}

// split forks a state on a condition.
func split(st *State, cond *Term, yes, no func(*State)) {
	cur = st.ctx
	d := Decide(cond)
	if d != -1 {
		s := st.clone()
		s.assume(cond)
		if s.ctx.Feasible() {
			cur = s.ctx
			yes(s)
		}
	}
	if d != 1 {
		s := st.clone()
		s.assume(Not(cond))
		if s.ctx.Feasible() {
			cur = s.ctx
			no(s)
		}
	}
}

// bit string content -> bytes and bit length
func (x *Exec) derBits(st *State, c *Term, ok func(s *State, by, n *Term), bad func(s *State)) {
	cur = st.ctx
	c = Renorm(c)
	split(st, Lt(Zero, SLen(c)), func(s *State) {
		pad := BV2I(At(c, Zero))
		by := SSub(c, One, AddC(SLen(c), -1))
		last := At(c, AddC(SLen(c), -1))
		if pad.IsC() && pad.N.Sign() == 0 {
			ok(s, by, MulC(AddC(SLen(c), -1), big.NewInt(8)))
			return
		}
		var zero []*Term
		for k := int64(1); k < 8; k++ {
			zero = append(zero, And(EqI(pad, IC(k)), Eq(BAnd(last, BVCi(1<<uint(k)-1, 8)), BVCi(0, 8))))
		}
		good := Or(EqI(pad, Zero), And(Lt(One, SLen(c)), Or(zero...)))
		if pad.IsC() && pad.Int64() < 8 {
			good = And(Lt(One, SLen(c)), Eq(BAnd(last, BVCi(1<<uint(pad.Int64())-1, 8)), BVCi(0, 8)))
		} else if pad.IsC() {
			good = False
		}
		split(s, good, func(s *State) {
			ok(s, by, Sub(MulC(AddC(SLen(c), -1), big.NewInt(8)), pad))
		}, bad)
	}, bad)
}

func bitsContent(by, n *Term) *Term {
	pad := ModC(Sub(IC(8), ModC(n, big.NewInt(8))), big.NewInt(8))
	return SCat(BytesS, Lit(ByteS, I2BV(pad, 8)), by)
}

// ---- Marshal ----

type asnEnc struct {
	st  *State
	e   *Term
	err string
}

// each feeds every successful result to f and keeps the failures.
func eachEnc(in []asnEnc, f func(asnEnc) []asnEnc) []asnEnc {
	var out []asnEnc
	for _, r := range in {
		if r.err != "" {
			out = append(out, r)
			continue
		}
		cur = r.st.ctx
		out = append(out, f(r)...)
	}
	return out
}

// isZeroVal: the value equals the zero value of its type (reflect.DeepEqual).
func isZeroVal(v Value) *Term {
	switch v := v.(type) {
	case *Term:
		if v.S.K == SSeq {
			if v.S == BytesS {
				return EqI(SLen(v), Zero)
			}
			return EqI(SLen(v), Zero)
		}
		return Eq(v, zeroTerm(v.S))
	case Ptr:
		return BC(v.O == 0)
	case SliceV:
		return BC(v.Nil)
	case IfaceV:
		return BC(v.T == nil)
	case StructV:
		r := True
		for _, f := range v.F {
			r = And(r, isZeroVal(f))
		}
		return r
	case ArrV:
		r := True
		for _, f := range v.E {
			r = And(r, isZeroVal(f))
		}
		return r
	}
	bail("zero test of %T", v)
	return nil
}

func (x *Exec) asnMarshal(st *State, v Value, t types.Type, p asn1Par) []asnEnc {
	cur = st.ctx
	if iv, ok := v.(IfaceV); ok {
		if iv.T == nil {
			return []asnEnc{{st, nil, "asn1: cannot marshal nil value"}}
		}
		return x.asnMarshal(st, iv.V, iv.T, p)
	}
	empty := asnEnc{st, SC(""), ""}
	if sl, ok := v.(SliceV); ok && p.omitEmpty {
		var out []asnEnc
		split(st, EqI(sl.Len, Zero), func(s *State) { out = append(out, asnEnc{s, SC(""), ""}) }, func(s *State) {
			q := p
			q.omitEmpty = false
			out = append(out, x.asnMarshal(s, v, t, q)...)
		})
		return out
	}
	if p.optional {
		cond := False
		if k, isInt := intKindOf(t); isInt && p.def != nil {
			cond = EqI(tm(v), ICB(p.def))
			_ = k
		} else if p.def == nil {
			cond = isZeroVal(v)
		}
		switch Decide(cond) {
		case 1:
			return []asnEnc{empty}
		case 0:
			var out []asnEnc
			q := p
			q.optional = false
			split(st, cond, func(s *State) { out = append(out, asnEnc{s, SC(""), ""}) }, func(s *State) { out = append(out, x.asnMarshal(s, v, t, q)...) })
			return out
		}
	}
	if isRaw(t) {
		f := v.(StructV).F
		full := f[4].(SliceV)
		var out []asnEnc
		split(st, EqI(full.Len, Zero), func(s *State) {
			cl, tg := x.toInt(tm(f[0])), x.toInt(tm(f[1]))
			comp := tm(f[2])
			if d := Decide(comp); d != 0 && cl.IsC() {
				id := Add(IC(derByte(cl.Int64()<<6, d == 1)), tg)
				out = append(out, asnEnc{s, UF("der.tlv", BytesS, id, s.seqOf(f[3].(SliceV))), ""})
				return
			}
			out = append(out, asnEnc{s, UF("der.tlv", BytesS, Add(MulC(cl, big.NewInt(64)), tg, Ite(comp, IC(32), Zero)), s.seqOf(f[3].(SliceV))), ""})
		}, func(s *State) { out = append(out, asnEnc{s, s.seqOf(full), ""}) })
		return out
	}
	any, tag, comp, ok := asn1Universal(t)
	if !ok || any {
		return []asnEnc{{st, nil, "asn1: unknown Go type"}}
	}
	if p.tim != 0 && tag != 23 || p.str != 0 && tag != 19 || p.set && tag != 16 {
		return []asnEnc{{st, nil, "asn1: explicit type given to non-matching member"}}
	}
	if tag == 17 {
		p.set = true
	}
	if p.set {
		tag = 17
	}
	return eachEnc(x.asnBody(st, v, t, tag, p), func(r asnEnc) []asnEnc {
				tg := tag
		body := r.e
		if tag == 19 || tag == 23 { // the body carries its tag
			tg = body.Args[0].Int64()
			body = body.Args[1]
		}
		if p.hasTag {
			if p.explicit {
				return []asnEnc{{r.st, TLV(p.class()|0x20|p.tag, TLV(derByte(tg, comp), body)), ""}}
			}
			return []asnEnc{{r.st, TLV(derByte(p.class()|p.tag, comp), body), ""}}
		}
		return []asnEnc{{r.st, TLV(derByte(tg, comp), body), ""}}
	})
}

// tagged carries a tag and a body through asnMarshal
func tagged(tag int64, body *Term) *Term {
	return mk(&Term{Op: OUF, S: BytesS, Str: "asn1.tagged", Args: []*Term{IC(tag), body}})
}

func printableConst(s string) bool {
	for _, c := range []byte(s) {
		if !('a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9' || '\'' <= c && c <= ')' || '+' <= c && c <= '/' || c == ' ' || c == ':' || c == '=' || c == '?') {
			return false
		}
	}
	return true
}

func ia5(s *Term) *Term {
	v := Fresh("i", IntS)
	return Forall(SLen(s), v, Lt(BV2I(At(s, v)), IC(128)))
}

func (x *Exec) asnBody(st *State, v Value, t types.Type, tag int64, p asn1Par) []asnEnc {
	good := func(e *Term) []asnEnc { return []asnEnc{{st, e, ""}} }
	bad := func(s *State, m string) asnEnc { return asnEnc{s, nil, "asn1: structure error: " + m} }
	switch {
	case namedIs(t, "encoding/asn1", "Flag"):
		return good(SC(""))
	case namedIs(t, "time", "Time"):
		l, sh := x.flatShape(st, v, t)
		var out []asnEnc
		in := UF("time.y0to9999."+sh, BoolS, l...)
		split(st, in, func(s *State) {
			utc := UF("time.utcrange."+sh, BoolS, l...)
			if p.tim == 24 {
				utc = False
			}
			split(s, utc, func(s *State) {
				out = append(out, asnEnc{s, tagged(23, UF("time.utcenc."+sh, BytesS, l...)), ""})
			}, func(s *State) {
				out = append(out, asnEnc{s, tagged(24, UF("time.genenc."+sh, BytesS, l...)), ""})
			})
		}, func(s *State) { out = append(out, bad(s, "cannot represent time")) })
		return out
	case namedIs(t, "encoding/asn1", "BitString"):
		f := v.(StructV).F
		return good(bitsContent(st.seqOf(f[0].(SliceV)), x.toInt(tm(f[1]))))
	case namedIs(t, "encoding/asn1", "ObjectIdentifier"):
		s := Renorm(st.seqOf(v.(SliceV)))
		var out []asnEnc
		split(st, oidOK(s), func(q *State) { out = append(out, asnEnc{q, DerOID(s), ""}) }, func(q *State) { out = append(out, bad(q, "invalid object identifier")) })
		return out
	}
	if pt, ok := t.(*types.Pointer); ok && isBigInt(pt.Elem()) {
		q := v.(Ptr)
		if q.O == 0 {
			return []asnEnc{bad(st, "empty integer")}
		}
		return good(DerInt(tm(st.load(q))))
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return good(Lit(ByteS, Ite(tm(v), BVCi(255, 8), BVCi(0, 8))))
		case u.Info()&types.IsString != 0:
			s := Renorm(tm(v))
			var out []asnEnc
			switch p.str {
			case 22:
				split(st, ia5(s), func(q *State) { out = append(out, asnEnc{q, tagged(22, s), ""}) }, func(q *State) { out = append(out, bad(q, "IA5String contains invalid character")) })
				return out
			case 12:
				return good(tagged(12, s))
			case 0:
				pr := UF("asn1.printable", BoolS, s)
				split(st, pr, func(q *State) { out = append(out, asnEnc{q, tagged(19, s), ""}) }, func(q *State) {
					split(q, UF("utf8.valid", BoolS, s), func(q *State) { out = append(out, asnEnc{q, tagged(12, s), ""}) }, func(q *State) { out = append(out, bad(q, "invalid UTF-8")) })
				})
				return out
			case 19:
				split(st, UF("asn1.printable", BoolS, s), func(q *State) { out = append(out, asnEnc{q, tagged(19, s), ""}) }, func(q *State) { out = append(out, bad(q, "PrintableString contains invalid character")) })
				return out
			}
			bail("string type %d", p.str)
		}
		return good(DerInt(x.toInt(tm(v))))
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !u.Field(i).Exported() {
				return []asnEnc{bad(st, "struct contains unexported fields")}
			}
		}
		f := v.(StructV).F
		acc := []asnEnc{{st, SC(""), ""}}
		for i := range f {
			ft := u.Field(i).Type()
			if i == 0 && isRawContent(ft) {
				raw := f[0].(SliceV)
				if Decide(EqI(raw.Len, Zero)) == 1 {
					continue
				}
				var out []asnEnc
				split(st, EqI(raw.Len, Zero), func(s *State) {
					g := append([]Value{}, f...)
					g[0] = zeroValue(ft)
					out = append(out, x.asnBody(s, StructV{g}, t, tag, p)...)
				}, func(s *State) {
					q := Renorm(s.seqOf(raw))
					for _, r := range x.derReadAny(s, q) {
						if r.ok {
							out = append(out, asnEnc{r.st, SCat(BytesS, r.content, r.rest), ""})
						} else {
							out = append(out, asnEnc{r.st, q, ""})
						}
					}
				})
				return out
			}
			fp := asn1Params(reflect.StructTag(u.Tag(i)).Get("asn1"))
			fv := f[i]
			acc = eachEnc(acc, func(r asnEnc) []asnEnc {
				return eachEnc(x.asnMarshal(r.st, fv, ft, fp), func(q asnEnc) []asnEnc {
					return []asnEnc{{q.st, SCat(BytesS, r.e, q.e), ""}}
				})
			})
		}
		return acc
	case *types.Slice:
		sl := v.(SliceV)
		if b, ok := under(u.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
			return good(st.seqOf(sl))
		}
		if seqElem(u.Elem()) != nil {
			bail("SEQUENCE OF integers")
		}
		acc := []asnEnc{{st, SC(""), ""}}
		parts := map[*State][]*Term{st: nil}
		for _, e := range st.listOf(sl) {
			e := e
			acc = eachEnc(acc, func(r asnEnc) []asnEnc {
				return eachEnc(x.asnMarshal(r.st, e, u.Elem(), asn1Par{}), func(q asnEnc) []asnEnc {
					q.st = q.st.clone()
					parts[q.st] = append(append([]*Term{}, parts[r.st]...), q.e)
					return []asnEnc{{q.st, SCat(BytesS, r.e, q.e), ""}}
				})
			})
		}
		if !p.set {
			return acc
		}
		return eachEnc(acc, func(r asnEnc) []asnEnc {
			var out []asnEnc
			for _, s := range derSort(r.st, parts[r.st]) {
				out = append(out, asnEnc{s.st, SCat(BytesS, s.es...), ""})
			}
			return out
		})
	}
	return []asnEnc{bad(st, "unknown Go type")}
}

type sorted struct {
	st *State
	es []*Term
}

// derSort orders encodings lexicographically (DER SET OF).
func derSort(st *State, es []*Term) []sorted {
	acc := []sorted{{st, nil}}
	for _, e := range es {
		var next []sorted
		for _, a := range acc {
			// insert from the end
			var ins func(s *State, k int)
			ins = func(s *State, k int) {
				put := func(s *State, k int) {
					n := append(append(append([]*Term{}, a.es[:k]...), e), a.es[k:]...)
					next = append(next, sorted{s, n})
				}
				if k == 0 {
					put(s, 0)
					return
				}
				lt := lexLess(e, a.es[k-1])
				split(s, lt, func(s *State) { ins(s, k-1) }, func(s *State) { put(s, k) })
			}
			ins(a.st, len(a.es))
		}
		acc = next
	}
	return acc
}

func lexLess(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.Op == OSCst && b.Op == OSCst {
		return BC(a.Str < b.Str)
	}
	return UF("lex.less", BoolS, a, b)
}

// ---- Unmarshal ----

type asnDec struct {
	st   *State
	v    Value
	rest *Term
	err  string
}

func (x *Exec) asnDefault(st *State, cv Value, t types.Type, p asn1Par, s *Term, msg string) []asnDec {
	if !p.optional {
		return []asnDec{{st, nil, nil, msg}}
	}
	if p.def != nil {
		if k, ok := intKindOf(t); ok {
			return []asnDec{{st, fromInt(ICB(p.def), k), s, ""}}
		}
	}
	return []asnDec{{st, cv, s, ""}}
}

func (x *Exec) asnParse(st *State, cv Value, t types.Type, p asn1Par, s *Term) []asnDec {
	cur = st.ctx
	s = Renorm(s)
	var out []asnDec
	fail := func(s *State, m string) { out = append(out, asnDec{s, nil, nil, m}) }
	switch Decide(EqI(SLen(s), Zero)) {
	case 1:
		return x.asnDefault(st, cv, t, p, s, "asn1: syntax error: sequence truncated")
	case 0:
		if p.optional {
			split(st, EqI(SLen(s), Zero), func(q *State) { out = append(out, x.asnDefault(q, cv, t, p, SC(""), "")...) },
				func(q *State) { out = append(out, x.asnParse2(q, cv, t, p, s)...) })
			return out
		}
		// an empty rest fails in the header below
	}
	_ = fail
	return x.asnParse2(st, cv, t, p, s)
}

func (x *Exec) asnParse2(st *State, cv Value, t types.Type, p asn1Par, s *Term) []asnDec {
	cur = st.ctx
	s = Renorm(s)
	var out []asnDec
	if it, ok := under(t).(*types.Interface); ok && it.NumMethods() == 0 {
		return x.asnAny(st, s)
	}
	if p.explicit {
		for _, r := range x.derRead(st, s, IC(p.class()|0x20|p.tag)) {
			if !r.ok {
				out = append(out, x.asnDefault(r.st, cv, t, p, s, "asn1: structure error: explicitly tagged member didn't match")...)
				continue
			}
			if isRaw(t) {
				whole := UF("der.tlv", BytesS, IC(p.class()|0x20|p.tag), r.content)
				out = append(out, asnDec{r.st, x.rawValue(r.st, IC(p.class()|0x20|p.tag), r.content, whole), r.rest, ""})
				continue
			}
			q := p
			q.explicit, q.hasTag = false, false
			// an empty wrapper is an error; the element is read in place
			split(r.st, EqI(SLen(r.content), Zero), func(s *State) {
				out = append(out, asnDec{s, nil, nil, "asn1: structure error: zero length explicit tag was not an asn1.Flag"})
			}, func(s *State) {
				out = append(out, x.asnElem(s, cv, t, q, Renorm(SCat(BytesS, r.content, r.rest)))...)
			})
		}
		return out
	}
	return x.asnElem(st, cv, t, p, s)
}

func (x *Exec) rawValue(st *State, tag, content, whole *Term) Value {
	cl := DivC(tag, big.NewInt(64))
	num := ModC(tag, big.NewInt(32))
	comp := EqI(ModC(DivC(tag, big.NewInt(32)), big.NewInt(2)), One)
	return StructV{[]Value{cl, num, comp, st.newBytes(content), st.newBytes(whole)}}
}

// asnElem: one element without explicit tag; s is what remains of the input.
func (x *Exec) asnElem(st *State, cv Value, t types.Type, p asn1Par, s *Term) []asnDec {
	cur = st.ctx
	var out []asnDec
	any, tag, comp, ok := asn1Universal(t)
	if !ok {
		return []asnDec{{st, nil, nil, "asn1: structure error: unknown Go type"}}
	}
	bad := func(s *State, m string) { out = append(out, asnDec{s, nil, nil, "asn1: " + m}) }
	good := func(s *State, v Value, rest *Term) { out = append(out, asnDec{s, v, rest, ""}) }
	if any && !p.hasTag {
		for _, r := range x.derReadAny(st, s) {
			if !r.ok {
				bad(r.st, "syntax error")
				continue
			}
			r.st = r.st.clone()
			good(r.st, x.rawValue(r.st, r.tag, r.content, UF("der.tlv", BytesS, r.tag, r.content)), r.rest)
		}
		return out
	}
	if p.set {
		tag = 17
	}
	tags := []int64{tag}
	if !p.hasTag {
		switch tag {
		case 19:
			tags = []int64{19, 12, 22, 18, 20, 27, 30}
		case 23:
			tags = []int64{23, 24}
		}
	}
	type cont struct {
		st            *State
		tag           int64
		content, rest *Term
	}
	var conts []cont
	none := []*State{st}
	for _, tg := range tags {
		id := derByte(tg, comp)
		if p.hasTag {
			id = derByte(p.class()|p.tag, comp)
			if tag == 19 && p.str != 0 {
				tg = p.str
			}
			if tag == 23 && p.tim != 0 {
				tg = p.tim
			}
		}
		var left []*State
		for _, n := range none {
			for _, r := range x.derRead(n, s, IC(id)) {
				if r.ok {
					conts = append(conts, cont{r.st, tg, r.content, r.rest})
				} else {
					left = append(left, r.st)
				}
			}
		}
		none = left
	}
	for _, n := range none {
		out = append(out, x.asnDefault(n, cv, t, p, s, "asn1: structure error: tags don't match")...)
	}
	if any { // RawValue with an implicit tag
		for _, c := range conts {
			id := IC(derByte(p.class()|p.tag, comp))
			good(c.st, x.rawValue(c.st, id, c.content, UF("der.tlv", BytesS, id, c.content)), c.rest)
		}
		return out
	}
	for _, c := range conts {
		c := c
		cur = c.st.ctx
		c.content = Renorm(c.content)
		switch {
		case namedIs(t, "encoding/asn1", "Flag"):
			good(c.st, True, c.rest)
			continue
		case namedIs(t, "time", "Time"):
			for _, r := range x.memoPrim(c.st, c.content, "time.decok"+strconv.Itoa(int(c.tag)), func() *Term { return Fresh("time", US("opq")) }, func(*Term) []*Term { return nil }) {
				if !r.ok {
					bad(r.st, "time")
					continue
				}
				good(r.st, x.opaqueTime(r.st, t, r.content), c.rest)
			}
			continue
		case namedIs(t, "encoding/asn1", "BitString"):
			x.derBits(c.st, c.content, func(s *State, by, n *Term) { good(s, StructV{[]Value{s.newBytes(by), n}}, c.rest) }, func(s *State) { bad(s, "bit string") })
			continue
		case namedIs(t, "encoding/asn1", "ObjectIdentifier"):
			for _, r := range x.derOID(c.st, c.content) {
				if !r.ok {
					bad(r.st, "object identifier")
					continue
				}
				r.st = r.st.clone()
				sl := r.st.newSeqSlice(types.Typ[types.Int], r.content)
				good(r.st, sl, c.rest)
			}
			continue
		}
		if pt, ok := t.(*types.Pointer); ok && isBigInt(pt.Elem()) {
			for _, r := range x.derInt(c.st, c.content) {
				if !r.ok {
					bad(r.st, "integer")
					continue
				}
				r.st = r.st.clone()
				good(r.st, x.newBig(r.st, r.content), c.rest)
			}
			continue
		}
		switch u := under(t).(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsBoolean != 0:
				b := At(c.content, Zero)
				split(c.st, And(EqI(SLen(c.content), One), Or(Eq(b, BVCi(0, 8)), Eq(b, BVCi(255, 8)))), func(s *State) {
					good(s, Eq(b, BVCi(255, 8)), c.rest)
				}, func(s *State) { bad(s, "invalid boolean") })
			case u.Info()&types.IsString != 0:
				x.asnString(c.st, c.tag, c.content, func(s *State, v *Term) { good(s, v, c.rest) }, func(s *State) { bad(s, "string") })
			default:
				k, _ := intKindOf(t)
				for _, r := range x.derInt(c.st, c.content) {
					if !r.ok {
						bad(r.st, "integer")
						continue
					}
					split(r.st, And(Le(ICB(k.lo()), r.content), Le(r.content, ICB(k.hi()))), func(s *State) { good(s, fromInt(r.content, k), c.rest) }, func(s *State) { bad(s, "integer too large") })
				}
			}
		case *types.Struct:
			acc := []asnDec{{c.st, StructV{append([]Value{}, cv.(StructV).F...)}, c.content, ""}}
			exported := true
			for i := 0; i < u.NumFields(); i++ {
				exported = exported && u.Field(i).Exported()
			}
			if !exported {
				bad(c.st, "struct contains unexported fields")
				continue
			}
			for i := 0; i < u.NumFields(); i++ {
				ft := u.Field(i).Type()
				if i == 0 && isRawContent(ft) {
					id := derByte(tag, comp)
					if p.hasTag {
						id = derByte(p.class()|p.tag, comp)
					}
					f := acc[0].v.(StructV).F
					acc[0].st = acc[0].st.clone()
					f[0] = acc[0].st.newBytes(TLV(id, c.content))
					continue
				}
				fp := asn1Params(reflect.StructTag(u.Tag(i)).Get("asn1"))
				var next []asnDec
				for _, a := range acc {
					if a.err != "" {
						next = append(next, a)
						continue
					}
					for _, r := range x.asnParse(a.st, a.v.(StructV).F[i], ft, fp, a.rest) {
						if r.err == "" {
							f := append([]Value{}, a.v.(StructV).F...)
							f[i] = r.v
							r.v = StructV{f}
						}
						next = append(next, r)
					}
				}
				acc = next
			}
			for _, a := range acc {
				if a.err == "" {
					a.rest = c.rest
				}
				out = append(out, a)
			}
		case *types.Slice:
			if b, ok := under(u.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				s := c.st.clone()
				good(s, s.newBytes(c.content), c.rest)
				continue
			}
			out = append(out, x.asnList(c.st, t, u.Elem(), c.content, c.rest)...)
		default:
			bad(c.st, "unsupported type")
		}
	}
	return out
}

const asnListMax = 2

// asnLazy: lists of these are decoded only when their encoding is known; the
// harness names them (lazy=…) when what it verifies must not look at them.
func (x *Exec) asnLazy(et types.Type) bool {
	n, ok := types.Unalias(et).(*types.Named)
	return ok && x.lazy[n.Obj().Name()]
}

// asnList: SEQUENCE OF / SET OF. The number of elements is decided by the
// content; contents of unknown structure are followed up to asnListMax elements.
func (x *Exec) asnList(st *State, t, et types.Type, content, rest *Term) []asnDec {
	type item struct {
		st *State
		vs []Value
		s  *Term
		n  int
	}
	var out []asnDec
	if x.asnLazy(et) {
		cur = st.ctx
		c := Renorm(content)
		if c.Op != OSCst && !(c.Op == OUF && c.Str == "der.tlv") && c.Op != OCat {
			// never examined by what is verified: valid or not, and then an opaque value
			split(st, UF("asn1.valid."+t.String(), BoolS, c), func(s *State) {
				out = append(out, asnDec{s, OpaqueV{T: t, X: UF("asn1.value."+t.String(), US("opq"), c)}, rest, ""})
			}, func(s *State) { out = append(out, asnDec{s, nil, nil, "asn1: structure error"}) })
			return out
		}
	}
	work := []item{{st, nil, content, 0}}
	for len(work) > 0 {
		w := work[0]
		work = work[1:]
		cur = w.st.ctx
		w.s = Renorm(w.s)
		d := Decide(EqI(SLen(w.s), Zero))
		if d == 0 {
			split(w.st, EqI(SLen(w.s), Zero), func(s *State) { work = append(work, item{s, w.vs, SC(""), w.n}) }, func(s *State) {
				if w.n >= asnListMax {
					if x.longLists { // more elements, none examined
						split(s, UF("asn1.valid."+t.String(), BoolS, content), func(s *State) {
							v := OpaqueV{T: t, X: UF("asn1.value."+t.String(), US("opq"), content)}
							s.assume(Lt(IC(asnListMax), UF("list.len", IntS, v.X)))
							out = append(out, asnDec{s, v, rest, ""})
						}, func(s *State) { out = append(out, asnDec{s, nil, nil, "asn1: structure error"}) })
						return
					}
					x.tag(s, "bounded: lists of unknown bytes with at most 2 elements")
					return
				}
				for _, r := range x.asnParse(s, zeroValue(et), et, asn1Par{}, w.s) {
					if r.err != "" {
						out = append(out, r)
						continue
					}
					work = append(work, item{r.st, append(append([]Value{}, w.vs...), r.v), r.rest, w.n + 1})
				}
			})
			continue
		}
		if d == 1 {
			s := w.st.clone()
			var sl SliceV
			if seqElem(et) != nil {
				bail("list of scalars")
			}
			sl = s.newListSlice(et, w.vs)
			out = append(out, asnDec{s, sl, rest, ""})
			continue
		}
		unknown := 0
		if h := pieces(w.s)[0]; !(h.Op == OUF && h.Str == "der.tlv") && h.Op != OSCst {
			unknown = 1
			if w.n >= asnListMax {
				x.tag(w.st, "bounded: lists of unknown bytes with at most 2 elements")
				continue
			}
		}
		for _, r := range x.asnParse(w.st, zeroValue(et), et, asn1Par{}, w.s) {
			if r.err != "" {
				out = append(out, r)
				continue
			}
			work = append(work, item{r.st, append(append([]Value{}, w.vs...), r.v), r.rest, w.n + unknown})
		}
	}
	return out
}

func (x *Exec) asnString(st *State, tag int64, c *Term, ok func(*State, *Term), bad func(*State)) {
	switch tag {
	case 19:
		p := UF("asn1.printable", BoolS, c)
		split(st, Or(p, UF("asn1.printableX", BoolS, c)), func(s *State) { ok(s, c) }, bad)
	case 12:
		split(st, UF("utf8.valid", BoolS, c), func(s *State) { ok(s, c) }, bad)
	case 22:
		split(st, ia5(c), func(s *State) { ok(s, c) }, bad)
	case 20, 27:
		ok(st, c)
	default:
		split(st, UF("asn1.strok"+strconv.Itoa(int(tag)), BoolS, c), func(s *State) { ok(s, UF("asn1.str"+strconv.Itoa(int(tag)), BytesS, c)) }, bad)
	}
}

// asnAny: a field of interface type.
func (x *Exec) asnAny(st *State, s *Term) []asnDec {
	var out []asnDec
	for _, r := range x.derReadAny(st, s) {
		if !r.ok {
			out = append(out, asnDec{r.st, nil, nil, "asn1: syntax error"})
			continue
		}
		tg := r.tag
		if !tg.IsC() {
			bail("value of unknown type")
		}
		switch tg.Int64() {
		case 19, 12, 22, 20, 30, 18:
			x.asnString(r.st, tg.Int64(), r.content, func(q *State, v *Term) {
				out = append(out, asnDec{q, IfaceV{T: types.Typ[types.String], V: v}, r.rest, ""})
			}, func(q *State) { out = append(out, asnDec{q, nil, nil, "asn1: string"}) })
		case 2:
			for _, q := range x.derInt(r.st, r.content) {
				k, _ := intKindOf(types.Typ[types.Int64])
				if !q.ok {
					out = append(out, asnDec{q.st, nil, nil, "asn1: integer"})
					continue
				}
				split(q.st, And(Le(ICB(k.lo()), q.content), Le(q.content, ICB(k.hi()))), func(z *State) {
					out = append(out, asnDec{z, IfaceV{T: types.Typ[types.Int64], V: q.content}, r.rest, ""})
				}, func(z *State) { out = append(out, asnDec{z, nil, nil, "asn1: integer too large"}) })
			}
		default:
			bail("value of tag %d in an interface field", tg.Int64())
		}
	}
	return out
}

func (x *Exec) tag(st *State, s string) {
	x.bounded[s]++
	_ = st
}

// opaqueTime: the time denoted by an encoding.
func (x *Exec) opaqueTime(st *State, t types.Type, id *Term) Value {
	u := under(t).(*types.Struct)
	f := make([]Value, u.NumFields())
	for i := range f {
		ft := u.Field(i).Type()
		if s := scalarSort(ft); s != nil {
			f[i] = UF("time."+u.Field(i).Name(), s, id)
		} else {
			f[i] = Ptr{}
		}
	}
	return StructV{f}
}

func init() {
	ufInfo["der.tlv"].simp = func(a []*Term) *Term {
		if a[0].IsC() && a[1].Op == OSCst && len(a[1].Str) < 1<<16 {
			return SC(string(constTLV(a[0].Int64(), a[1].Str)))
		}
		return nil
	}
	ufInfo["der.int"].simp = func(a []*Term) *Term {
		if a[0].IsC() {
			return SC(string(constInt(a[0].N)))
		}
		return nil
	}
	ufInfo["der.oid"] = &ufI{facts: func(t *Term) []*Term { return []*Term{Le(One, SLen(t))} }, simp: func(a []*Term) *Term {
		if b, ok := constOID(a[0]); ok {
			return SC(string(b))
		}
		return nil
	}}
	ufInfo["asn1.printable"] = &ufI{simp: func(a []*Term) *Term {
		if a[0].Op == OSCst {
			return BC(printableConst(a[0].Str))
		}
		return nil
	}}
	marshal := func(x *Exec, st *State, v Value, p asn1Par) []Outcome {
		var out []Outcome
		for _, r := range x.asnMarshal(st.clone(), v, nil, p) {
			s := r.st.clone()
			cur = s.ctx
			if r.err != "" {
				out = append(out, Outcome{st: s, ret: []Value{nilSlice(types.Typ[types.Byte]), x.newErr(s, r.err)}})
				continue
			}
			out = append(out, Outcome{st: s, ret: []Value{s.newBytes(r.e), IfaceV{}}})
		}
		return out
	}
	unmarshal := func(x *Exec, st *State, b SliceV, v IfaceV, p asn1Par) []Outcome {
		q, ok := v.V.(Ptr)
		pt, ok2 := v.T.(*types.Pointer)
		if !ok || !ok2 || q.O == 0 {
			return one(st, nilSlice(types.Typ[types.Byte]), x.newErr(st, "asn1: Unmarshal recipient value is not a pointer"))
		}
		et := pt.Elem()
		var pe types.Type = et
		cv := st.load(q)
		if isBigInt(et) {
			bail("Unmarshal into a big.Int")
		}
		var out []Outcome
		ds := x.asnAbstract(st.clone(), cv, pe, p, st.seqOf(b))
		if ds == nil {
			ds = x.asnParse(st.clone(), cv, pe, p, st.seqOf(b))
		}
		for _, r := range ds {
			s := r.st.clone()
			cur = s.ctx
			if r.err != "" {
				out = append(out, Outcome{st: s, ret: []Value{nilSlice(types.Typ[types.Byte]), x.newErr(s, r.err)}})
				continue
			}
			s.store(q, r.v)
			out = append(out, Outcome{st: s, ret: []Value{s.newBytes(Renorm(r.rest)), IfaceV{}}})
		}
		return out
	}
	const A = "encoding/asn1."
	intr[A+"Marshal"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome { return marshal(x, st, a[0], asn1Par{}) }
	intr[A+"Unmarshal"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return unmarshal(x, st, a[0].(SliceV), a[1].(IfaceV), asn1Par{})
	}
	par := func(v Value) asn1Par {
		s := tm(v)
		if s.Op != OSCst {
			bail("symbolic asn1 parameters")
		}
		return asn1Params(s.Str)
	}
	intr[A+"MarshalWithParams"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return marshal(x, st, a[0], par(a[1]))
	}
	intr[A+"UnmarshalWithParams"] = func(x *Exec, st *State, a []Value, c *CallCtx) []Outcome {
		return unmarshal(x, st, a[0].(SliceV), a[1].(IfaceV), par(a[2]))
	}
}

func nilSlice(t types.Type) SliceV {
	return SliceV{Nil: true, Off: Zero, Len: Zero, Cap: Zero, Elem: t}
}

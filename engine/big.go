package main

import (
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// math/big.Int is modelled by a signed bit-vector of bigW bits held beside the
// object; an operation that might not fit is unsupported (never wrong).
const bigW = Sort(272)

func (m *Machine) bigSlot(p Value) *Value {
	a, ok := p.(*Value)
	if !ok {
		panic(unsupported("big.Int address"))
	}
	if a == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if s, ok := m.bigs[a]; ok {
		return s
	}
	s := new(Value)
	*s = m.c.BV(bigW, 0)
	m.bigs[a] = s
	if m.spec > 0 {
		if b, ok := m.born[a]; ok {
			m.born[s] = b
		}
	}
	return s
}

// number of low bits that may be non-zero
func topBits(t *T) int {
	if t.tb == 0 {
		t.tb = int16(topBits1(t) + 1)
	}
	return int(t.tb) - 1
}
func topBits1(t *T) int {
	switch t.op {
	case OConst:
		return t.bigVal().BitLen()
	case OZext:
		return topBits(t.a[0])
	case OConcat:
		if n := topBits(t.a[0]); n > 0 {
			return n + int(t.a[1].s)
		}
		return topBits(t.a[1])
	case OIte:
		a, b := topBits(t.a[1]), topBits(t.a[2])
		if b > a {
			a = b
		}
		return a
	case OURem:
		a, b := topBits(t.a[0]), topBits(t.a[1])
		if b < a {
			a = b
		}
		return a
	case OUDiv, OLshr:
		return topBits(t.a[0])
	}
	return int(t.s)
}

func (m *Machine) bigGet(p Value) *T { return (*m.bigSlot(p)).(*T) }
func (m *Machine) bigSet(p Value, t *T) Value {
	m.set(m.bigSlot(p), t)
	return p
}

func (m *Machine) newBig(fn *ssa.Function, t *T) Value {
	rt := fn.Signature.Results().At(0).Type()
	p := new(Value)
	*p = m.zero(derefT(rt))
	if m.spec > 0 {
		m.noteBorn(p)
	}
	s := new(Value)
	*s = t
	if m.spec > 0 {
		m.born[s] = m.bornSeq
	}
	m.bigs[p] = s
	return p
}

func (m *Machine) bigNonneg(t *T) bool {
	if topBits(t) < int(bigW) {
		return true
	}
	n := m.c.Slt(t, m.c.BV(bigW, 0))
	if n.isConst() {
		return n.v == 0
	}
	return false
}

func (m *Machine) bigIsNeg(t *T) bool {
	if topBits(t) < int(bigW) {
		return false
	}
	return m.branch(m.c.Slt(t, m.c.BV(bigW, 0)))
}

// magnitude and sign (forks on the sign when it is not known)
func (m *Machine) bigMag(t *T) (*T, bool) {
	if m.bigIsNeg(t) {
		return m.c.Neg(t), true
	}
	return t, false
}

func (m *Machine) bigUDivRem(a, b *T) (q, r *T) {
	c := m.c
	n := topBits(a)
	if k := topBits(b); k > n {
		n = k
	}
	if n < 1 {
		n = 1
	}
	if n >= int(bigW) {
		return c.UDiv(a, b), c.URem(a, b)
	}
	x, y := c.Extract(a, n-1, 0), c.Extract(b, n-1, 0)
	return c.Zext(c.UDiv(x, y), bigW), c.Zext(c.URem(x, y), bigW)
}

func (m *Machine) bigQuoRem(a, b *T) (q, r *T) {
	c := m.c
	if m.branch(c.Eq(b, c.BV(bigW, 0))) {
		m.rtPanic("division by zero")
	}
	x, nx := m.bigMag(a)
	y, ny := m.bigMag(b)
	q, r = m.bigUDivRem(x, y)
	if nx != ny {
		q = c.Neg(q)
	}
	if nx {
		r = c.Neg(r)
	}
	return
}

func (m *Machine) bigDivMod(a, b *T) (q, r *T) {
	c := m.c
	q, r = m.bigQuoRem(a, b)
	neg := c.Slt(r, c.BV(bigW, 0))
	if topBits(r) < int(bigW) {
		return q, r
	}
	bneg := c.Slt(b, c.BV(bigW, 0))
	one := c.BV(bigW, 1)
	q = c.Ite(neg, c.Ite(bneg, c.Add(q, one), c.Sub(q, one)), q)
	r = c.Ite(neg, c.Ite(bneg, c.Sub(r, b), c.Add(r, b)), r)
	return
}

func (m *Machine) bigMul(a, b *T) *T {
	c := m.c
	if a.isConst() && b.isConst() {
		r := new(big.Int).Mul(bigSigned(a.bigVal(), bigW), bigSigned(b.bigVal(), bigW))
		if r.BitLen() >= int(bigW)-1 {
			panic(unsupported("big.Int beyond model width"))
		}
		return c.BVBig(bigW, r)
	}
	x, y := topBits(a), topBits(b)
	if x < int(bigW) && y < int(bigW) && x+y < int(bigW) {
		// multiplication by a power of two is a shift
		for _, p := range [][2]*T{{a, b}, {b, a}} {
			if p[0].isConst() {
				v := p[0].bigVal()
				if k := v.TrailingZeroBits(); v.Sign() > 0 && v.BitLen() == int(k)+1 {
					if k == 0 {
						return p[1]
					}
					return c.Concat(c.Extract(p[1], int(bigW)-1-int(k), 0), c.BV(Sort(k), 0))
				}
			}
		}
		return c.Mul(a, b)
	}
	ma, na := m.bigMag(a)
	mb, nb := m.bigMag(b)
	if topBits(ma) == int(bigW) || topBits(mb) == int(bigW) {
		// narrow by proof: magnitudes below 2^128
		lim := c.BVBig(bigW, new(big.Int).Lsh(big.NewInt(1), 129))
		if !m.branch(c.And(c.Ult(ma, lim), c.Ult(mb, lim))) {
			panic(unsupported("big.Int product beyond model width"))
		}
		ma = c.Zext(c.Extract(ma, 129, 0), bigW)
		mb = c.Zext(c.Extract(mb, 129, 0), bigW)
	}
	r := c.Mul(ma, mb)
	if na != nb {
		r = c.Neg(r)
	}
	return r
}

// the opaque decimal text of a signed bigW value
func (m *Machine) decStr(t *T) *Str {
	if t.isConst() {
		return mkStr(bigSigned(t.bigVal(), bigW).String())
	}
	return &Str{dec: t}
}

// mat turns an opaque decimal string into symbolic digits: the sign and the
// number of digits are forked on, the digits are fresh variables fixed by
// Horner's rule (they exist and are unique).
func (m *Machine) mat(s *Str) *Str {
	if s.dec == nil {
		return s
	}
	if isFloatText(s.dec) {
		panic(unsupported("the characters of the text of a symbolic float"))
	}
	if r, ok := m.mats[s.dec]; ok {
		return r
	}
	var r *Str
	if d := s.dec; (d.op == OSext || d.op == OZext) && d.a[0].s <= 64 {
		x := d.a[0]
		switch {
		case d.op == OZext && x.s < 64:
			x = m.c.Zext(x, 64)
		case d.op == OSext && x.s < 64:
			x = m.c.Sext(x, 64)
		}
		r = m.itoa(x, d.op == OSext)
	} else {
		r = m.decimal(d)
	}
	if m.spec == 0 {
		m.mats[s.dec] = r
	}
	return r
}

func (m *Machine) decimal(t *T) *Str {
	mag, neg := m.bigMag(t)
	r := m.udecimal(mag)
	if neg {
		return mkStr("-").Cat(m.c, r)
	}
	return r
}

// decimal digits of a non-negative value (any width)
func (m *Machine) udecimal(v *T) *Str {
	c := m.c
	if v.isConst() {
		return mkStr(v.bigVal().String())
	}
	n := topBits(v)
	if n < 1 {
		n = 1
	}
	w := Sort(n + 4) // headroom for Horner
	x := c.Zext(c.Extract(v, n-1, 0), w)
	if n <= 60 {
		w = 64
		x = c.Zext(c.Extract(v, n-1, 0), 64)
	} else if n <= 64 {
		w = 64
		x = c.Zext(c.Extract(v, n-1, 0), 64)
	}
	max := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(n)), big.NewInt(1))
	p := big.NewInt(10)
	d := 1
	for p.Cmp(max) <= 0 {
		if m.branch(c.Ult(x, c.BVBig(w, p))) {
			break
		}
		p = new(big.Int).Mul(p, big.NewInt(10))
		d++
	}
	if d == 1 {
		return strFromTerms([]*T{c.Add(c.BV(8, '0'), c.Resize(x, 8, false))})
	}
	if m.spec > 0 {
		panic(specAbort{"digits"})
	}
	// fresh digits
	out := make([]*T, d)
	m.freshN++
	h := c.BV(w, 0)
	var defs []*T
	for i := range out {
		ch := c.Var(m.freshName("dig", i), 8)
		out[i] = ch
		lo := uint64('0')
		if i == 0 {
			lo = '1'
		}
		defs = append(defs, c.And(c.Ule(c.BV(8, lo), ch), c.Ule(ch, c.BV(8, '9'))))
		dg := c.Zext(c.Add(ch, c.BV(8, 256-'0')), w)
		if i == 0 {
			h = dg
		} else {
			h = c.Add(c.Mul(h, c.BV(w, 10)), dg)
		}
	}
	if n > 60 && d == 20 && w == 64 {
		// no wrap-around: the 19-digit prefix is at most MaxUint64/10
		pre := c.BV(64, 0)
		for i := 0; i < 19; i++ {
			dg := c.Zext(c.Add(out[i], c.BV(8, 256-'0')), 64)
			pre = c.Add(c.Mul(pre, c.BV(64, 10)), dg)
		}
		lim := c.BV(64, 1844674407370955161)
		last := c.Zext(c.Add(out[19], c.BV(8, 256-'0')), 64)
		defs = append(defs, c.Or(c.Ult(pre, lim), c.And(c.Eq(pre, lim), c.Ule(last, c.BV(64, 5)))))
	}
	// extend the current model with the digits so that it stays usable
	if m.ev != nil {
		if r := m.ev.Eval(x); r.ok {
			bv := r.b
			if bv == nil {
				bv = new(big.Int).SetUint64(r.v)
			}
			txt := bv.String()
			if len(txt) == d {
				md := m.model.clone()
				for i := range out {
					md.u[out[i].name] = uint64(txt[i])
				}
				m.setModel(md)
			}
		}
	}
	for _, q := range defs {
		m.define(q)
	}
	m.define(c.Eq(h, x))
	return strFromTerms(out)
}

func (md *Model) clone() *Model {
	r := &Model{u: make(map[string]uint64, len(md.u)), b: make(map[string]*big.Int, len(md.b))}
	for k, v := range md.u {
		r.u[k] = v
	}
	for k, v := range md.b {
		r.b[k] = v
	}
	return r
}

// define adds a constraint on fresh variables that is always satisfiable
func (m *Machine) define(t *T) {
	if m.spec > 0 {
		panic(specAbort{"define"})
	}
	m.addPC(t)
	if m.model != nil && m.evalBool(t) != 1 {
		m.model, m.ev = nil, nil
	}
}

func (m *Machine) bigIntrinsic(name string) intrinsicFn {
	type A = []Value
	bin := func(f func(m *Machine, x, y *T) *T) intrinsicFn {
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			return m.bigSet(a[0], f(m, m.bigGet(a[1]), m.bigGet(a[2]))), true
		}
	}
	un := func(f func(m *Machine, x *T) *T) intrinsicFn {
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			return m.bigSet(a[0], f(m, m.bigGet(a[1]))), true
		}
	}
	get := func(f func(m *Machine, x *T) Value) intrinsicFn {
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			return f(m, m.bigGet(a[0])), true
		}
	}
	switch name {
	case "math/big.NewInt":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			return m.newBig(fn, m.c.Sext(a[0].(*T), bigW)), true
		}
	case "(*math/big.Int).SetInt64":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			return m.bigSet(a[0], m.c.Sext(a[1].(*T), bigW)), true
		}
	case "(*math/big.Int).SetUint64":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			return m.bigSet(a[0], m.c.Zext(a[1].(*T), bigW)), true
		}
	case "(*math/big.Int).Set":
		return un(func(m *Machine, x *T) *T { return x })
	case "(*math/big.Int).Neg":
		return un(func(m *Machine, x *T) *T { return m.c.Neg(x) })
	case "(*math/big.Int).Abs":
		return un(func(m *Machine, x *T) *T { r, _ := m.bigMag(x); return r })
	case "(*math/big.Int).Add":
		return bin(func(m *Machine, x, y *T) *T { return m.c.Add(x, y) })
	case "(*math/big.Int).Sub":
		return bin(func(m *Machine, x, y *T) *T { return m.c.Sub(x, y) })
	case "(*math/big.Int).Mul":
		return bin(func(m *Machine, x, y *T) *T { return m.bigMul(x, y) })
	case "(*math/big.Int).Quo":
		return bin(func(m *Machine, x, y *T) *T { q, _ := m.bigQuoRem(x, y); return q })
	case "(*math/big.Int).Rem":
		return bin(func(m *Machine, x, y *T) *T { _, r := m.bigQuoRem(x, y); return r })
	case "(*math/big.Int).Div":
		return bin(func(m *Machine, x, y *T) *T { q, _ := m.bigDivMod(x, y); return q })
	case "(*math/big.Int).Mod":
		return bin(func(m *Machine, x, y *T) *T { _, r := m.bigDivMod(x, y); return r })
	case "(*math/big.Int).QuoRem", "(*math/big.Int).DivMod":
		dm := name == "(*math/big.Int).DivMod"
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			x, y := m.bigGet(a[1]), m.bigGet(a[2])
			var q, r *T
			if dm {
				q, r = m.bigDivMod(x, y)
			} else {
				q, r = m.bigQuoRem(x, y)
			}
			m.bigSet(a[0], q)
			m.bigSet(a[3], r)
			return Tuple{a[0], a[3]}, true
		}
	case "(*math/big.Int).And":
		return bin(func(m *Machine, x, y *T) *T { return m.c.BAnd(x, y) })
	case "(*math/big.Int).Or":
		return bin(func(m *Machine, x, y *T) *T { return m.c.BOr(x, y) })
	case "(*math/big.Int).Xor":
		return bin(func(m *Machine, x, y *T) *T { return m.c.BXor(x, y) })
	case "(*math/big.Int).Lsh", "(*math/big.Int).Rsh":
		l := name == "(*math/big.Int).Lsh"
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			x := m.bigGet(a[1])
			n := a[2].(*T)
			if !n.isConst() {
				n = m.c.BV(64, m.concretize(n))
			}
			k := int(n.v)
			if l {
				if k+topBits(x) >= int(bigW) {
					// the value must be shown to fit
					if k >= int(bigW)-1 {
						panic(unsupported("big.Int shift beyond model width"))
					}
					up := m.c.Ashr(x, m.c.BV(bigW, uint64(int(bigW)-1-k)))
					if !m.branch(m.c.Or(m.c.Eq(up, m.c.BV(bigW, 0)), m.c.Eq(up, m.c.Neg(m.c.BV(bigW, 1))))) {
						panic(unsupported("big.Int shift beyond model width"))
					}
				}
				return m.bigSet(a[0], m.c.Shl(x, m.c.BV(bigW, uint64(k)))), true
			}
			if k > int(bigW)-1 {
				k = int(bigW) - 1
			}
			return m.bigSet(a[0], m.c.Ashr(x, m.c.BV(bigW, uint64(k)))), true
		}
	case "(*math/big.Int).Cmp", "(*math/big.Int).CmpAbs":
		abs := name == "(*math/big.Int).CmpAbs"
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			x, y := m.bigGet(a[0]), m.bigGet(a[1])
			if abs {
				x, _ = m.bigMag(x)
				y, _ = m.bigMag(y)
			}
			c := m.c
			return c.Ite(c.Eq(x, y), c.BV(64, 0), c.Ite(c.Slt(x, y), c.BV(64, ^uint64(0)), c.BV(64, 1))), true
		}
	case "(*math/big.Int).Sign":
		return get(func(m *Machine, x *T) Value {
			c := m.c
			z := c.BV(bigW, 0)
			return c.Ite(c.Eq(x, z), c.BV(64, 0), c.Ite(c.Slt(x, z), c.BV(64, ^uint64(0)), c.BV(64, 1)))
		})
	case "(*math/big.Int).Int64", "(*math/big.Int).Uint64":
		return get(func(m *Machine, x *T) Value { return m.c.Extract(x, 63, 0) })
	case "(*math/big.Int).IsInt64":
		return get(func(m *Machine, x *T) Value { return m.c.Eq(m.c.Sext(m.c.Extract(x, 63, 0), bigW), x) })
	case "(*math/big.Int).IsUint64":
		return get(func(m *Machine, x *T) Value { return m.c.Eq(m.c.Zext(m.c.Extract(x, 63, 0), bigW), x) })
	case "(*math/big.Int).String":
		return get(func(m *Machine, x *T) Value { return m.decStr(x) })
	case "(*math/big.Int).Text":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			b := a[1].(*T)
			if b.isConst() && b.v == 10 {
				return m.decStr(m.bigGet(a[0])), true
			}
			panic(unsupported("big.Int.Text base"))
		}
	case "(*math/big.Int).Bit":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			x := m.bigGet(a[0])
			i := a[1].(*T)
			if !i.isConst() {
				i = m.c.BV(64, m.concretize(i))
			}
			if int(i.v) >= int(bigW) {
				i = m.c.BV(64, uint64(bigW)-1)
			}
			return m.c.Zext(m.c.Extract(x, int(i.v), int(i.v)), 64), true
		}
	case "(*math/big.Int).SetBit":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			x := m.bigGet(a[1])
			i := a[2].(*T)
			if !i.isConst() {
				i = m.c.BV(64, m.concretize(i))
			}
			if int(i.v) >= int(bigW)-2 {
				panic(unsupported("big.Int.SetBit beyond model width"))
			}
			bit := m.c.BVBig(bigW, new(big.Int).Lsh(big.NewInt(1), uint(i.v)))
			on := m.c.BOr(x, bit)
			off := m.c.BAnd(x, m.c.BNot(bit))
			return m.bigSet(a[0], m.c.Ite(m.c.Eq(a[3].(*T), m.c.BV(64, 0)), off, on)), true
		}
	case "(*math/big.Int).SetString":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			s := a[1].(*Str)
			base := a[2].(*T)
			if !base.isConst() || (base.v != 10 && base.v != 2) {
				panic(unsupported("big.Int.SetString base"))
			}
			if s.dec != nil && base.v == 10 && !isFloatText(s.dec) {
				return Tuple{m.bigSet(a[0], s.dec), m.c.tru}, true
			}
			s = m.mat(s)
			bad := func() (Value, bool) { return Tuple{(*Value)(nil), m.c.fls}, true }
			i := 0
			neg := false
			if s.Len() > 0 {
				if m.branch(m.c.Eq(s.At(m.c, 0), m.c.BV(8, '-'))) {
					neg = true
					i = 1
				} else if m.branch(m.c.Eq(s.At(m.c, 0), m.c.BV(8, '+'))) {
					i = 1
				}
			}
			if i == s.Len() {
				return bad()
			}
			if s.Len()-i > 80 && base.v == 10 || s.Len()-i > 260 {
				panic(unsupported("big.Int.SetString: text too long"))
			}
			h := m.c.BV(bigW, 0)
			for ; i < s.Len(); i++ {
				ch := s.At(m.c, i)
				if !m.branch(m.c.And(m.c.Ule(m.c.BV(8, '0'), ch), m.c.Ule(ch, m.c.BV(8, '0'+base.v-1)))) {
					return bad()
				}
				d := m.c.Zext(m.c.Sub(ch, m.c.BV(8, '0')), bigW)
				if base.v == 2 {
					bit := m.c.Extract(d, 0, 0)
					h = m.c.Concat(m.c.Extract(h, int(bigW)-2, 0), bit)
				} else {
					h = m.c.Add(m.c.Mul(h, m.c.BV(bigW, base.v)), d)
				}
			}
			if neg {
				h = m.c.Neg(h)
			}
			return Tuple{m.bigSet(a[0], h), m.c.tru}, true
		}
	case "(*math/big.Int).SetBytes":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			b := a[1].(Slice)
			if len(b) > 32 {
				panic(unsupported("big.Int.SetBytes: too long"))
			}
			var h *T
			for _, x := range b {
				if h == nil {
					h = x.(*T)
				} else {
					h = m.c.Concat(h, x.(*T))
				}
			}
			if h == nil {
				h = m.c.BV(8, 0)
			}
			return m.bigSet(a[0], m.c.Zext(h, bigW)), true
		}
	case "(*math/big.Int).FillBytes":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			x, _ := m.bigMag(m.bigGet(a[0]))
			b := a[1].(Slice)
			n := len(b) * 8
			if n < int(bigW) && topBits(x) > n {
				if !m.branch(m.c.Eq(m.c.Extract(x, int(bigW)-1, n), m.c.BV(bigW-Sort(n), 0))) {
					panic(targetPanic{v: Iface{tString, mkStr("math/big: buffer too small to fit value")}, rt: "buffer too small", at: m.where()})
				}
			}
			for i := range b {
				lo := (len(b) - 1 - i) * 8
				if lo+7 < int(bigW) {
					m.set(&b[i], m.c.Extract(x, lo+7, lo))
				} else {
					m.set(&b[i], m.c.BV(8, 0))
				}
			}
			return b, true
		}
	case "(*math/big.Int).Bytes", "(*math/big.Int).BitLen":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			x, _ := m.bigMag(m.bigGet(a[0]))
			c := m.c
			if name == "(*math/big.Int).BitLen" {
				r := c.BV(64, 0)
				for i := 0; i < topBits(x) && i < int(bigW); i++ {
					r = c.Ite(c.Eq(c.Extract(x, i, i), c.BV(1, 1)), c.BV(64, uint64(i+1)), r)
				}
				return r, true
			}
			n := (topBits(x) + 7) / 8
			for n > 0 && m.branch(c.Eq(c.Extract(x, n*8-1, n*8-8), c.BV(8, 0))) {
				n--
			}
			s := m.makeSlice(tUint8, n, n)
			for i := range s {
				lo := (n - 1 - i) * 8
				s[i] = c.Extract(x, lo+7, lo)
			}
			return s, true
		}
	}
	return nil
}

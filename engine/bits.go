package main

import (
	mbits "math/bits"

	"golang.org/x/tools/go/ssa"
)

// absT is |x| modulo 2^w.
func (c *Ctx) absT(x *T) *T { return c.Ite(c.Slt(x, c.BV(x.s, 0)), c.Neg(x), x) }

// SDiv and SRem are lowered to unsigned division of the magnitudes, so that
// every division in a query is built from the same circuits.
func (c *Ctx) SDiv(a, b *T) *T {
	if a.isConst() && b.isConst() || b.isOne() {
		return c.bin(OSDiv, a, b)
	}
	z := c.BV(a.s, 0)
	q := c.UDiv(c.absT(a), c.absT(b))
	sa, sb := c.Slt(a, z), c.Slt(b, z)
	return c.Ite(c.Not(c.Eq(sa, sb)), c.Neg(q), q)
}

func (c *Ctx) SRem(a, b *T) *T {
	if a.isConst() && b.isConst() {
		return c.bin(OSRem, a, b)
	}
	r := c.URem(c.absT(a), c.absT(b))
	return c.Ite(c.Slt(a, c.BV(a.s, 0)), c.Neg(r), r)
}

func (c *Ctx) UDiv(a, b *T) *T { return c.udivrem(OUDiv, a, b) }
func (c *Ctx) URem(a, b *T) *T { return c.udivrem(OURem, a, b) }
func (c *Ctx) udivrem(op Op, a, b *T) *T {
	if a.isConst() && b.isConst() {
		return c.bin(op, a, b)
	}
	if b.isConst() && !b.isZero() && a.s <= 64 {
		if ub(a, 8) < b.v {
			if op == OUDiv {
				return c.BV(a.s, 0)
			}
			return a
		}
		// (x*k)/k and (x*k)%k where the product does not wrap
		if x := a; x.op == OMul && x.a[1].isConst() && noWrap(x) {
			k := x.a[1].v
			switch {
			case op == OURem && k%b.v == 0:
				return c.BV(a.s, 0)
			case op == OUDiv && k%b.v == 0:
				return c.Mul(x.a[0], c.BV(a.s, k/b.v))
			case op == OUDiv && b.v%k == 0:
				return c.UDiv(x.a[0], c.BV(a.s, b.v/k))
			}
		}
	}
	n := topBits(a)
	if k := topBits(b); k > n {
		n = k
	}
	if n < 1 {
		n = 1
	}
	if Sort(n) < a.s {
		return c.Zext(c.bin(op, c.Extract(a, n-1, 0), c.Extract(b, n-1, 0)), a.s)
	}
	return c.bin(op, a, b)
}

func init() {
	type A = []Value
	mul := func(w Sort) intrinsicFn {
		return func(m *Machine, _ *Frame, _ *ssa.Function, a A) (Value, bool) {
			c := m.c
			x, y := c.Resize(a[0].(*T), w, false), c.Resize(a[1].(*T), w, false)
			p := c.Mul(c.Zext(x, 2*w), c.Zext(y, 2*w))
			return Tuple{c.Extract(p, int(2*w)-1, int(w)), c.Extract(p, int(w)-1, 0)}, true
		}
	}
	reg("math/bits.Mul64 math/bits.Mul", mul(64))
	reg("math/bits.Mul32", mul(32))
	add := func(w Sort) intrinsicFn {
		return func(m *Machine, _ *Frame, _ *ssa.Function, a A) (Value, bool) {
			c := m.c
			k := c.Extract(a[2].(*T), 0, 0)
			s := c.Add(c.Add(c.Zext(a[0].(*T), w+1), c.Zext(a[1].(*T), w+1)), c.Zext(k, w+1))
			return Tuple{c.Extract(s, int(w)-1, 0), c.Zext(c.Extract(s, int(w), int(w)), w)}, true
		}
	}
	reg("math/bits.Add64 math/bits.Add", add(64))
	reg("math/bits.Add32", add(32))
	sub := func(w Sort) intrinsicFn {
		return func(m *Machine, _ *Frame, _ *ssa.Function, a A) (Value, bool) {
			c := m.c
			k := c.Extract(a[2].(*T), 0, 0)
			s := c.Sub(c.Sub(c.Zext(a[0].(*T), w+1), c.Zext(a[1].(*T), w+1)), c.Zext(k, w+1))
			return Tuple{c.Extract(s, int(w)-1, 0), c.Zext(c.Extract(s, int(w), int(w)), w)}, true
		}
	}
	reg("math/bits.Sub64 math/bits.Sub", sub(64))
	reg("math/bits.Sub32", sub(32))
	reg("math/bits.Div64", func(m *Machine, _ *Frame, _ *ssa.Function, a A) (Value, bool) {
		c := m.c
		hi, lo, y := a[0].(*T), a[1].(*T), a[2].(*T)
		if m.branch(c.Eq(y, c.BV(64, 0))) {
			m.rtPanic("integer divide by zero")
		}
		if m.branch(c.Ule(y, hi)) {
			m.rtPanic("integer overflow")
		}
		x := c.Concat(hi, lo)
		d := c.Zext(y, 128)
		return Tuple{c.Extract(c.UDiv(x, d), 63, 0), c.Extract(c.URem(x, d), 63, 0)}, true
	})
	// lengths: position of the highest / lowest set bit as an ite chain
	length := func(x *T, c *Ctx) *T {
		r := c.BV(64, 0)
		for i := 0; i < int(x.s); i++ {
			r = c.Ite(c.Eq(c.Extract(x, i, i), c.BV(1, 1)), c.BV(64, uint64(i+1)), r)
		}
		return r
	}
	trail := func(x *T, c *Ctx) *T {
		r := c.BV(64, uint64(x.s))
		for i := int(x.s) - 1; i >= 0; i-- {
			r = c.Ite(c.Eq(c.Extract(x, i, i), c.BV(1, 1)), c.BV(64, uint64(i)), r)
		}
		return r
	}
	reg("math/bits.Len math/bits.Len64 math/bits.Len32 math/bits.Len16 math/bits.Len8", func(m *Machine, _ *Frame, _ *ssa.Function, a A) (Value, bool) {
		return length(a[0].(*T), m.c), true
	})
	reg("math/bits.LeadingZeros math/bits.LeadingZeros64 math/bits.LeadingZeros32 math/bits.LeadingZeros16 math/bits.LeadingZeros8", func(m *Machine, _ *Frame, _ *ssa.Function, a A) (Value, bool) {
		x := a[0].(*T)
		return m.c.Sub(m.c.BV(64, uint64(x.s)), length(x, m.c)), true
	})
	reg("math/bits.TrailingZeros math/bits.TrailingZeros64 math/bits.TrailingZeros32 math/bits.TrailingZeros16 math/bits.TrailingZeros8", func(m *Machine, _ *Frame, _ *ssa.Function, a A) (Value, bool) {
		return trail(a[0].(*T), m.c), true
	})
	reg("math/bits.OnesCount math/bits.OnesCount64 math/bits.OnesCount32 math/bits.OnesCount16 math/bits.OnesCount8", func(m *Machine, _ *Frame, _ *ssa.Function, a A) (Value, bool) {
		c := m.c
		x := a[0].(*T)
		r := c.BV(64, 0)
		for i := 0; i < int(x.s); i++ {
			r = c.Add(r, c.Zext(c.Extract(x, i, i), 64))
		}
		return r, true
	})
}

// ub is an upper bound of a term of up to 64 bits, read as unsigned.
func ub(t *T, d int) uint64 {
	top := mask(t.s)
	if t.s > 64 || !t.s.isBV() {
		return ^uint64(0)
	}
	if d == 0 {
		return top
	}
	min := func(x uint64) uint64 {
		if x < top {
			return x
		}
		return top
	}
	switch t.op {
	case OConst:
		return t.v
	case OZext:
		return ub(t.a[0], d-1)
	case OExtract:
		if t.v&0xffffffff == 0 && t.a[0].s <= 64 {
			return min(ub(t.a[0], d-1))
		}
	case OIte:
		x, y := ub(t.a[1], d-1), ub(t.a[2], d-1)
		if y > x {
			x = y
		}
		return x
	case OURem:
		x := ub(t.a[0], d-1)
		if t.a[1].isConst() && t.a[1].v > 0 && t.a[1].v-1 < x {
			x = t.a[1].v - 1
		}
		return x
	case OUDiv:
		if t.a[1].isConst() && t.a[1].v > 0 {
			return ub(t.a[0], d-1) / t.a[1].v
		}
	case OMul:
		h, l := mbits.Mul64(ub(t.a[0], d-1), ub(t.a[1], d-1))
		if h == 0 {
			return min(l)
		}
	case OAdd:
		l, k := mbits.Add64(ub(t.a[0], d-1), ub(t.a[1], d-1), 0)
		if k == 0 {
			return min(l)
		}
	}
	if t.tb == 0 {
		topBits(t)
	}
	if n := topBits(t); n < 64 {
		return min(1<<uint(n) - 1)
	}
	return top
}

// noWrap: the product of two terms does not exceed its width.
func noWrap(t *T) bool {
	if t.s > 64 {
		return false
	}
	h, l := mbits.Mul64(ub(t.a[0], 8), ub(t.a[1], 8))
	return h == 0 && l <= mask(t.s)
}

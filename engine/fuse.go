package main

import "fmt"

// Recognition of double-word arithmetic: a concatenation of a high and a low
// word computed by add-with-carry or subtract-with-borrow is the wide sum or
// difference of the concatenated operands. All rules are identities of
// modular arithmetic; where none applies the plain concatenation is kept.

type pairKey struct{ a, b uint32 }

// fuse returns a simpler term equal to a ++ b, or nil.
func (c *Ctx) fuse(a, b *T) *T {
	if a.s < 8 || a.s > 128 || b.s < 8 || a.isConst() || b.isConst() {
		return nil
	}
	switch a.op {
	case OAdd, OSub, OIte, OExtract, OZext:
	default:
		return nil
	}
	k := pairKey{a.id, b.id}
	if r, ok := c.fuseMemo[k]; ok {
		return r
	}
	c.fuseMemo[k] = nil
	r := c.fuse1(a, b)
	c.fuseMemo[k] = r
	return r
}

func (c *Ctx) fuse1(a, b *T) *T {
	if a.op == OExtract {
		w := a.a[0]
		ah, al := int(a.v>>32), int(a.v&0xffffffff)
		if al >= int(b.s) && (w.op == OAdd || w.op == OSub || w.op == OMul || w.op == ONeg) && al == int(b.s) && c.Extract(w, al-1, 0) == b {
			return c.Extract(w, ah, 0)
		}
		return nil
	}
	if a.op == OIte {
		if b.op == OIte && a.a[0] == b.a[0] {
			x, y := c.Concat(a.a[1], b.a[1]), c.Concat(a.a[2], b.a[2])
			return c.Ite(a.a[0], x, y)
		}
		return nil
	}
	if b.op != OAdd && b.op != OSub {
		return nil
	}
	pos, neg, ok := addends(a)
	if !ok {
		return nil
	}
	p, q := b.a[0], b.a[1]
	if b.op == OAdd {
		i := -1
		for j, t := range pos {
			if c.isCarry(t, b, p, q) {
				i = j
			}
		}
		if i < 0 || len(neg) > 0 || len(pos) > 3 || a.s != b.s {
			return nil
		}
		rest := append(append([]*T{}, pos[:i]...), pos[i+1:]...)
		z := c.BV(a.s, 0)
		for len(rest) < 2 {
			rest = append(rest, z)
		}
		l, r := c.Concat(rest[0], p), c.Concat(rest[1], q)
		l2, r2 := c.Concat(rest[1], p), c.Concat(rest[0], q)
		if pairScore(l2)+pairScore(r2) < pairScore(l)+pairScore(r) {
			l, r = l2, r2
		}
		return c.Add(l, r)
	}
	i := -1
	for j, t := range neg {
		if c.isBorrow(t, p, q) {
			i = j
		}
	}
	if i < 0 || len(neg) > 2 || len(pos) > 1 || a.s != b.s {
		return nil
	}
	z := c.BV(a.s, 0)
	hi, lo := z, z
	if len(pos) == 1 {
		hi = pos[0]
	}
	for j, t := range neg {
		if j != i {
			lo = t
		}
	}
	return c.Sub(c.Concat(hi, p), c.Concat(lo, q))
}

// addends splits a sum into its positive and negative terms.
func addends(t *T) (pos, neg []*T, ok bool) {
	// sums nested deeper than the three-term carry form belong to operands
	switch t.op {
	case OAdd, OSub:
		ok = true
		add := func(x *T, minus bool) {
			if minus {
				neg = append(neg, x)
			} else {
				pos = append(pos, x)
			}
		}
		var split func(x *T, minus bool, d int)
		split = func(x *T, minus bool, d int) {
			if d > 0 && x.op == OAdd && len(pos)+len(neg) < 6 {
				split(x.a[0], minus, d-1)
				split(x.a[1], minus, d-1)
				return
			}
			if d > 0 && x.op == OSub {
				split(x.a[0], minus, d-1)
				split(x.a[1], !minus, d-1)
				return
			}
			add(x, minus)
		}
		split(t, false, 2)
		return pos, neg, true
	}
	return []*T{t}, nil, true
}

func flagT(t *T) *T {
	if t.op == OIte && t.a[1].isOne() && t.a[2].isZero() {
		return t.a[0]
	}
	if t.op == OZext && t.a[0].op == OIte {
		return flagT(t.a[0])
	}
	return nil
}

// isCarry: t is 1 exactly when p+q (= sum) overflows.
func (c *Ctx) isCarry(t, sum, p, q *T) bool {
	k := flagT(t)
	if k == nil {
		return false
	}
	lt := func(k *T) bool { return k.op == OUlt && k.a[0] == sum && (k.a[1] == p || k.a[1] == q) }
	if k.op == OOr {
		return lt(k.a[0]) && lt(k.a[1])
	}
	return lt(k)
}

// noCarry: k says that an addend is zero, d that the sum carries.
func (c *Ctx) noCarry(k, d *T) bool {
	if d.op != OUlt || d.a[0].op != OAdd || d.a[0].a[0] != d.a[1] && d.a[0].a[1] != d.a[1] {
		return false
	}
	z := c.BV(d.a[1].s, 0)
	ok := map[*T]bool{}
	for _, x := range d.a[0].a[:2] {
		for _, e := range disjuncts(c.Eq(x, z), nil) {
			ok[e] = true
		}
		ok[c.Eq(x, z)] = true
	}
	for _, e := range disjuncts(k, nil) {
		if !ok[e] {
			return false
		}
	}
	return true
}

func disjuncts(t *T, out []*T) []*T {
	if t.op == OOr {
		return disjuncts(t.a[1], disjuncts(t.a[0], out))
	}
	return append(out, t)
}

// isBorrow: t is 1 exactly when p < q.
func (c *Ctx) isBorrow(t, p, q *T) bool {
	k := flagT(t)
	return k != nil && k.op == OUlt && k.a[0] == p && k.a[1] == q
}

// pairScore is low for pairs that belong together.
func pairScore(t *T) int {
	if t.op == OZext {
		return pairScore(t.a[0])
	}
	if t.op != OConcat {
		return 0
	}
	n, prev := 0, -1
	for _, s := range segs(t, nil) {
		n += 1000
		if s.t != nil && s.t.id != 0 {
			x := s.t
			for x.op == OExtract {
				x = x.a[0]
			}
			if prev >= 0 {
				d := prev - int(x.id)
				if d < 0 {
					d = -d
				}
				if d > 900 {
					d = 900
				}
				n += d
			}
			prev = int(x.id)
		}
	}
	return n
}

// pp renders a term to a limited depth, for debugging.
func (t *T) pp(d int) string {
	if t.op == OConst {
		return t.constSMT()
	}
	if t.op == OVar {
		return t.name
	}
	s := fmt.Sprintf("%s.%d#%d", opName(t), t.s, t.id)
	if t.op == OExtract {
		s += fmt.Sprintf("[%d:%d]", t.v>>32, t.v&0xffffffff)
	}
	if d == 0 {
		return s
	}
	s += "("
	for i := uint8(0); i < t.n; i++ {
		if i > 0 {
			s += " "
		}
		s += t.a[i].pp(d - 1)
	}
	return s + ")"
}

func opName(t *T) string {
	switch t.op {
	case OExtract:
		return "ex"
	case OZext:
		return "zx"
	}
	return opSMT[t.op]
}

// lowZeros is a number of low bits of t known to be zero.
func lowZeros(t *T) int {
	switch t.op {
	case OConcat:
		if t.a[1].isZero() {
			return int(t.a[1].s) + lowZeros(t.a[0])
		}
		if n := lowZeros(t.a[1]); n < int(t.a[1].s) {
			return n
		}
		return int(t.a[1].s)
	case OConst:
		if t.isZero() {
			return int(t.s)
		}
		return int(t.bigVal().TrailingZeroBits())
	case OZext:
		return lowZeros(t.a[0])
	}
	return 0
}

// carryIn recognises a+b as the high word of a wide sum whose low words'
// carry is one of the addends.
func (c *Ctx) carryIn(a, b *T) *T {
	for _, t := range []*T{a, b} {
		k := flagT(t)
		if k == nil || k.op != OUlt || k.a[0].op != OAdd || k.a[0].s != t.s {
			continue
		}
		sum := k.a[0]
		if !c.isCarry(t, sum, sum.a[0], sum.a[1]) {
			continue
		}
		o := a
		if t == a {
			o = b
		}
		z := c.BV(t.s, 0)
		x, y := o, z
		if o.op == OAdd {
			x, y = o.a[0], o.a[1]
		}
		return c.Extract(c.pair(x, y, sum), int(2*t.s)-1, int(t.s))
	}
	return nil
}

// pair is (x:p) + (y:q) or (x:q) + (y:p), which are equal, for sum = p+q.
func (c *Ctx) pair(x, y, sum *T) *T {
	p, q := sum.a[0], sum.a[1]
	l, r := c.Concat(x, p), c.Concat(y, q)
	l2, r2 := c.Concat(y, p), c.Concat(x, q)
	if pairScore(l2)+pairScore(r2) < pairScore(l)+pairScore(r) {
		l, r = l2, r2
	}
	return c.Add(l, r)
}

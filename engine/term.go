package main

// Hash-consed terms over Bool, fixed-width bit-vectors and IEEE floats, with a
// light simplifier, a concrete evaluator and an SMT-LIB2 printer.

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strings"
)

// Sort: 0 = Bool, n>0 = BitVec n, -32/-64 = Float32/Float64.
type Sort int32

const (
	SBool Sort = 0
	SF32  Sort = -32
	SF64  Sort = -64
)

func (s Sort) isBV() bool { return s > 0 }
func (s Sort) isFP() bool { return s < 0 }
func (s Sort) smt() string {
	switch {
	case s == 0:
		return "Bool"
	case s > 0:
		return fmt.Sprintf("(_ BitVec %d)", int(s))
	case s == SF32:
		return "(_ FloatingPoint 8 24)"
	default:
		return "(_ FloatingPoint 11 53)"
	}
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract
	OZext
	OSext
	// floats
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFRti // v = mode 0 RNE 1 RNA 2 RTP 3 RTN 4 RTZ
	OFEq
	OFLt
	OFLe
	OFIsNaN
	OFFromBits
	OFToFP
	OFFromS
	OFFromU
	OFToS // RTZ, width in sort
	OFToU
	OUF
)

var opSMT = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OConcat: "concat", OFNeg: "fp.neg", OFAbs: "fp.abs", OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq", OFIsNaN: "fp.isNaN",
}

type T struct {
	tb   int16 // topBits+1, 0 = not computed
	op   Op
	s    Sort
	id   uint32
	n    uint8  // number of args
	v    uint64 // const payload (<=64 bit), extract hi<<32|lo, mode
	a    [3]*T
	big  *big.Int // const payload for wide
	name string
	sym  bool // contains a variable
}

type tkey struct {
	op      Op
	s       Sort
	v       uint64
	a, b, c uint32
	name    string
}

type Ctx struct {
	tab      map[tkey]*T
	nextID   uint32
	tru      *T
	fls      *T
	vars     []*T
	ufs      map[string][]Sort // uf name -> arg sorts + result
	extMemo  map[extKey]*T
	fuseMemo map[pairKey]*T
	eqMemo   map[pairKey]*T
	monoMemo map[uint32]mono
	wideMemo map[uint32]bool
}

type extKey struct {
	id     uint32
	hi, lo int16
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*T{}, nextID: 1, ufs: map[string][]Sort{}, extMemo: map[extKey]*T{}, fuseMemo: map[pairKey]*T{}, eqMemo: map[pairKey]*T{}, monoMemo: map[uint32]mono{}, wideMemo: map[uint32]bool{}}
	c.tru = c.mk(OConst, SBool, 1, nil, nil, nil, "")
	c.fls = c.mk(OConst, SBool, 0, nil, nil, nil, "")
	return c
}

func tid(t *T) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (c *Ctx) mk(op Op, s Sort, v uint64, x, y, z *T, name string) *T {
	k := tkey{op, s, v, tid(x), tid(y), tid(z), name}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &T{op: op, s: s, v: v, name: name, id: c.nextID}
	c.nextID++
	t.a = [3]*T{x, y, z}
	switch {
	case z != nil:
		t.n = 3
	case y != nil:
		t.n = 2
	case x != nil:
		t.n = 1
	}
	t.sym = op == OVar
	for i := uint8(0); i < t.n; i++ {
		if t.a[i].sym {
			t.sym = true
		}
	}
	c.tab[k] = t
	return t
}

func mask(w Sort) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (c *Ctx) BV(w Sort, v uint64) *T {
	if w > 64 {
		return c.BVBig(w, new(big.Int).SetUint64(v))
	}
	return c.mk(OConst, w, v&mask(w), nil, nil, nil, "")
}

func (c *Ctx) BVBig(w Sort, v *big.Int) *T {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	v = new(big.Int).Mod(v, m)
	if w <= 64 {
		return c.BV(w, v.Uint64())
	}
	t := c.mk(OConst, w, 0, nil, nil, nil, v.Text(16))
	t.big = v
	return t
}

func (c *Ctx) Bool(b bool) *T {
	if b {
		return c.tru
	}
	return c.fls
}

func (c *Ctx) F32(f float32) *T {
	return c.mk(OConst, SF32, uint64(math.Float32bits(f)), nil, nil, nil, "")
}
func (c *Ctx) F64(f float64) *T { return c.mk(OConst, SF64, math.Float64bits(f), nil, nil, nil, "") }
func (c *Ctx) FConst(s Sort, f float64) *T {
	if s == SF32 {
		return c.F32(float32(f))
	}
	return c.F64(f)
}

func (c *Ctx) Var(name string, s Sort) *T {
	k := tkey{OVar, s, 0, 0, 0, 0, name}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := c.mk(OVar, s, 0, nil, nil, nil, name)
	c.vars = append(c.vars, t)
	return t
}

func (t *T) isConst() bool { return t.op == OConst }

// value of a BV constant as big
func (t *T) bigVal() *big.Int {
	if t.big != nil {
		return t.big
	}
	return new(big.Int).SetUint64(t.v)
}
func (t *T) isZero() bool {
	if t.op != OConst {
		return false
	}
	if t.big != nil {
		return t.big.Sign() == 0
	}
	return t.v == 0 && t.s > 0
}
func (t *T) isOne() bool {
	return t.op == OConst && t.s > 0 && ((t.big == nil && t.v == 1) || (t.big != nil && t.big.IsUint64() && t.big.Uint64() == 1))
}
func (t *T) isOnes() bool {
	if t.op != OConst || t.s <= 0 {
		return false
	}
	if t.s <= 64 {
		return t.v == mask(t.s)
	}
	return t.big.BitLen() == int(t.s) && new(big.Int).Add(t.big, big.NewInt(1)).BitLen() == int(t.s)+1
}

func sext64(v uint64, w Sort) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

// signed value of a const as int64 (w<=64)
func (t *T) sval() int64 { return sext64(t.v, t.s) }

func bigSigned(v *big.Int, w Sort) *big.Int {
	if v.Bit(int(w)-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	return v
}

// ---------- Bool ----------
func (c *Ctx) Not(a *T) *T {
	switch a.op {
	case OConst:
		return c.Bool(a.v == 0)
	case ONot:
		return a.a[0]
	case OUlt:
		return c.Ule(a.a[1], a.a[0])
	case OUle:
		return c.Ult(a.a[1], a.a[0])
	case OSlt:
		return c.Sle(a.a[1], a.a[0])
	case OSle:
		return c.Slt(a.a[1], a.a[0])
	}
	return c.mk(ONot, SBool, 0, a, nil, nil, "")
}

func isNeg(a, b *T) bool {
	if a.op == ONot && a.a[0] == b || b.op == ONot && b.a[0] == a {
		return true
	}
	switch {
	case a.op == OUlt && b.op == OUle, a.op == OUle && b.op == OUlt, a.op == OSlt && b.op == OSle, a.op == OSle && b.op == OSlt:
		return a.a[0] == b.a[1] && a.a[1] == b.a[0]
	}
	return false
}

func (c *Ctx) And(a, b *T) *T {
	if a.op == OConst {
		if a.v == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.v == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if isNeg(a, b) {
		return c.fls
	}
	for _, p := range [2][2]*T{{a, b}, {b, a}} {
		x, y := p[0], p[1]
		if y.op == OAnd && (y.a[0] == x || y.a[1] == x) {
			return y
		}
		if y.op == OAnd && (isNeg(y.a[0], x) || isNeg(y.a[1], x)) {
			return c.fls
		}
		if y.op == OOr && (y.a[0] == x || y.a[1] == x) {
			return x
		}
		if y.op == OOr && isNeg(y.a[0], x) {
			return c.And(x, y.a[1])
		}
		if y.op == OOr && isNeg(y.a[1], x) {
			return c.And(x, y.a[0])
		}
	}
	// x = k1 and x = k2
	if a.op == OEq && b.op == OEq && a.a[1].isConst() && b.a[1].isConst() && a.a[0] == b.a[0] && a.a[1] != b.a[1] && a.a[0].s >= 0 {
		return c.fls
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, SBool, 0, a, b, nil, "")
}

func (c *Ctx) Or(a, b *T) *T {
	if a.op == OConst {
		if a.v != 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.v != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if isNeg(a, b) {
		return c.tru
	}
	for _, p := range [2][2]*T{{a, b}, {b, a}} {
		x, y := p[0], p[1]
		if y.op == OOr && (y.a[0] == x || y.a[1] == x) {
			return y
		}
		if y.op == OOr && (isNeg(y.a[0], x) || isNeg(y.a[1], x)) {
			return c.tru
		}
		if y.op == OAnd && (y.a[0] == x || y.a[1] == x) {
			return x
		}
		if y.op == OAnd && isNeg(y.a[0], x) {
			return c.Or(x, y.a[1])
		}
		if y.op == OAnd && isNeg(y.a[1], x) {
			return c.Or(x, y.a[0])
		}
	}
	// merge a<b or a==b -> a<=b
	for _, p := range [2][2]*T{{a, b}, {b, a}} {
		x, y := p[0], p[1]
		if y.op == OEq && (x.op == OUlt || x.op == OSlt) {
			if (y.a[0] == x.a[0] && y.a[1] == x.a[1]) || (y.a[0] == x.a[1] && y.a[1] == x.a[0]) {
				if x.op == OUlt {
					return c.Ule(x.a[0], x.a[1])
				}
				return c.Sle(x.a[0], x.a[1])
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, SBool, 0, a, b, nil, "")
}

func (c *Ctx) Implies(a, b *T) *T { return c.Or(c.Not(a), b) }

func (c *Ctx) Eq(a, b *T) *T {
	if a.s != b.s {
		panic(fmt.Sprintf("Eq sort mismatch %d %d", a.s, b.s))
	}
	if a == b {
		return c.tru // structural (SMT =) equality; FP uses FEq
	}
	if a.isConst() && b.isConst() {
		return c.fls
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.s == SBool {
		if b.isConst() {
			if b.v != 0 {
				return a
			}
			return c.Not(a)
		}
		if isNeg(a, b) {
			return c.fls
		}
	}
	if (a.op == OMul || b.op == OMul) && a.s.isBV() && a.s <= 64 && !b.isConst() && c.sameMono(a, b) {
		return c.tru
	}
	if b.isConst() && a.s.isBV() {
		switch a.op {
		case OIte:
			// ite(c,k1,x) = k
			if a.a[1].isConst() && a.a[2].isConst() {
				t, e := a.a[1] == b, a.a[2] == b
				switch {
				case t && e:
					return c.tru
				case t:
					return a.a[0]
				case e:
					return c.Not(a.a[0])
				default:
					return c.fls
				}
			}
			if a.a[1].isConst() {
				if a.a[1] == b {
					return c.Or(a.a[0], c.Eq(a.a[2], b))
				}
				return c.And(c.Not(a.a[0]), c.Eq(a.a[2], b))
			}
			if a.a[2].isConst() {
				if a.a[2] == b {
					return c.Or(c.Not(a.a[0]), c.Eq(a.a[1], b))
				}
				return c.And(a.a[0], c.Eq(a.a[1], b))
			}
		case OZext:
			x := a.a[0]
			hi := c.Extract(b, int(a.s)-1, int(x.s))
			if !hi.isZero() {
				return c.fls
			}
			return c.Eq(x, c.Extract(b, int(x.s)-1, 0))
		case OSext:
			x := a.a[0]
			lo := c.Extract(b, int(x.s)-1, 0)
			if c.Sext(lo, a.s) != b {
				return c.fls
			}
			return c.Eq(x, lo)
		case OConcat:
			h, l := a.a[0], a.a[1]
			return c.And(c.Eq(h, c.Extract(b, int(a.s)-1, int(l.s))), c.Eq(l, c.Extract(b, int(l.s)-1, 0)))
		case OAdd:
			if a.a[1].isConst() {
				return c.Eq(a.a[0], c.Sub(b, a.a[1]))
			}
		case OBNot:
			return c.Eq(a.a[0], c.BNot(b))
		case ONeg:
			return c.Eq(a.a[0], c.Neg(b))
		case OBXor:
			if a.a[1].isConst() {
				return c.Eq(a.a[0], c.BXor(b, a.a[1]))
			}
			if b.isZero() {
				return c.Eq(a.a[0], a.a[1])
			}
		case OSub:
			if b.isZero() {
				return c.Eq(a.a[0], a.a[1])
			}
		}
	} else if a.s.isBV() {
		if a.n > 0 && b.n > 0 {
			k := pairKey{a.id, b.id}
			if r := c.eqMemo[k]; r != nil {
				return r
			}
			r := c.eq2(a, b)
			c.eqMemo[k] = r
			return r
		}
	}
	return c.eq2(a, b)
}

func (c *Ctx) eq2(a, b *T) *T {
	if !b.isConst() && a.s.isBV() {
		if a.op == OZext && b.op == OZext && a.a[0].s == b.a[0].s {
			return c.Eq(a.a[0], b.a[0])
		}
		if a.op == OSext && b.op == OSext && a.a[0].s == b.a[0].s {
			return c.Eq(a.a[0], b.a[0])
		}
		if a.op == OConcat && b.op == OConcat && a.a[1].s == b.a[1].s {
			return c.And(c.Eq(a.a[0], b.a[0]), c.Eq(a.a[1], b.a[1]))
		}
		if a.op == OAdd && b.op == OAdd {
			for i := 0; i < 2; i++ {
				for j := 0; j < 2; j++ {
					if a.a[i] == b.a[j] {
						return c.Eq(a.a[1-i], b.a[1-j])
					}
				}
			}
		}
		if a.op == OIte && b.op == OIte && a.a[0] == b.a[0] {
			return c.Ite(a.a[0], c.Eq(a.a[1], b.a[1]), c.Eq(a.a[2], b.a[2]))
		}
		if a.op == OIte && (a.a[1] == b || a.a[2] == b) {
			if a.a[1] == b {
				return c.Or(a.a[0], c.Eq(a.a[2], b))
			}
			return c.Or(c.Not(a.a[0]), c.Eq(a.a[1], b))
		}
		if b.op == OIte && (b.a[1] == a || b.a[2] == a) {
			return c.Eq(b, a)
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, SBool, 0, a, b, nil, "")
}

func (c *Ctx) Ite(k, a, b *T) *T {
	if a.s != b.s {
		panic("Ite sort mismatch")
	}
	if k.op == OConst {
		if k.v != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if k.op == ONot {
		return c.Ite(k.a[0], b, a)
	}
	if a.s == SBool {
		if a.isConst() {
			if a.v != 0 {
				return c.Or(k, b)
			}
			return c.And(c.Not(k), b)
		}
		if b.isConst() {
			if b.v != 0 {
				return c.Or(c.Not(k), a)
			}
			return c.And(k, a)
		}
	}
	if a.op == OIte && a.a[0] == k {
		a = a.a[1]
	}
	if b.op == OIte && b.a[0] == k {
		b = b.a[2]
	}
	if a == b {
		return a
	}
	// ite(k, x, ite(k2, x, y)) = ite(k or k2, x, y)
	if b.op == OIte && b.a[1] == a {
		return c.Ite(c.Or(k, b.a[0]), a, b.a[2])
	}
	if a.op == OIte && a.a[2] == b {
		return c.Ite(c.And(k, a.a[0]), a.a[1], b)
	}
	// a sum carries only if neither addend is zero
	if b.op == OIte && b.a[2] == a && c.noCarry(k, b.a[0]) {
		return b
	}
	// ite(x = k, k, x) = x
	if k.op == OEq && ((k.a[0] == a && k.a[1] == b) || (k.a[0] == b && k.a[1] == a)) && a.s >= 0 {
		return b
	}
	if a.op == OZext && b.op == OZext && a.a[0].s == b.a[0].s {
		return c.Zext(c.Ite(k, a.a[0], b.a[0]), a.s)
	}
	if a.op == OZext && b.isConst() {
		lo := c.Extract(b, int(a.a[0].s)-1, 0)
		if c.Zext(lo, a.s) == b {
			return c.Zext(c.Ite(k, a.a[0], lo), a.s)
		}
	}
	if b.op == OZext && a.isConst() {
		lo := c.Extract(a, int(b.a[0].s)-1, 0)
		if c.Zext(lo, a.s) == a {
			return c.Zext(c.Ite(k, lo, b.a[0]), a.s)
		}
	}
	if a.s > 64 {
		if r := c.iteWide(k, a, b); r != nil {
			return r
		}
	}
	if a.s == 1 && a.isConst() && b.isConst() && k.op == OEq && k.a[0].s == 1 {
		// ite(x = 1, 1, 0) on one bit
		x, y := k.a[0], k.a[1]
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.v == a.v {
				return x
			}
			return c.BNot(x)
		}
	}
	return c.mk(OIte, a.s, 0, k, a, b, "")
}

// share the common low part and the common leading zeros of two wide terms
func (c *Ctx) iteWide(k, a, b *T) *T {
	st := func(t *T) bool { return t.op == OConcat || t.op == OZext || t.op == OConst }
	if !st(a) || !st(b) {
		return nil
	}
	sa, sb := segs(a, nil), segs(b, nil)
	low := 0
	i, j := len(sa)-1, len(sb)-1
	for i >= 0 && j >= 0 {
		x, y := sa[i], sb[j]
		if x.t == nil && y.t == nil {
			n := x.w
			if y.w < n {
				n = y.w
			}
			low += n
			if x.w != y.w {
				break
			}
		} else if x.t != nil && y.t != nil && x.t == y.t {
			low += x.w
		} else {
			break
		}
		i--
		j--
	}
	hz := 0
	if sa[0].t == nil && sb[0].t == nil {
		hz = sa[0].w
		if sb[0].w < hz {
			hz = sb[0].w
		}
	}
	w := int(a.s)
	if low+hz == 0 || low+hz >= w {
		return nil
	}
	mid := c.Ite(k, c.Extract(a, w-hz-1, low), c.Extract(b, w-hz-1, low))
	r := mid
	if low > 0 {
		r = c.Concat(mid, c.Extract(a, low-1, 0))
	}
	return c.Zext(r, a.s)
}

// ---------- BV ----------
func (c *Ctx) big2(op Op, w Sort, a, b *big.Int) *T {
	r := new(big.Int)
	switch op {
	case OAdd:
		r.Add(a, b)
	case OSub:
		r.Sub(a, b)
	case OMul:
		r.Mul(a, b)
	case OUDiv:
		if b.Sign() == 0 {
			r.Sub(r.Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
		} else {
			r.Div(a, b)
		}
	case OURem:
		if b.Sign() == 0 {
			r.Set(a)
		} else {
			r.Mod(a, b)
		}
	case OSDiv, OSRem:
		sa, sb := bigSigned(a, w), bigSigned(b, w)
		if sb.Sign() == 0 {
			if op == OSRem {
				r.Set(sa)
			} else if sa.Sign() < 0 {
				r.SetInt64(1)
			} else {
				r.SetInt64(-1)
			}
		} else if op == OSDiv {
			r.Quo(sa, sb)
		} else {
			r.Rem(sa, sb)
		}
	case OBAnd:
		r.And(a, b)
	case OBOr:
		r.Or(a, b)
	case OBXor:
		r.Xor(a, b)
	case OShl:
		if b.IsUint64() && b.Uint64() < uint64(w) {
			r.Lsh(a, uint(b.Uint64()))
		}
	case OLshr:
		if b.IsUint64() && b.Uint64() < uint64(w) {
			r.Rsh(a, uint(b.Uint64()))
		}
	case OAshr:
		sa := bigSigned(a, w)
		if b.IsUint64() && b.Uint64() < uint64(w) {
			r.Rsh(sa, uint(b.Uint64()))
		} else if sa.Sign() < 0 {
			r.SetInt64(-1)
		}
	}
	return c.BVBig(w, r)
}

func fold2(op Op, w Sort, a, b uint64) uint64 {
	switch op {
	case OAdd:
		return a + b
	case OSub:
		return a - b
	case OMul:
		return a * b
	case OUDiv:
		if b == 0 {
			return ^uint64(0)
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return ^uint64(0)
		}
		if y == -1 {
			return uint64(-x)
		}
		return uint64(x / y)
	case OSRem:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x % y)
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		x := sext64(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x >> b)
	}
	panic("fold2")
}

func (c *Ctx) bin(op Op, a, b *T) *T {
	w := a.s
	if a.s != b.s || w <= 0 {
		panic(fmt.Sprintf("bin %v sort mismatch %d %d", op, a.s, b.s))
	}
	if a.isConst() && b.isConst() {
		if w <= 64 {
			return c.BV(w, fold2(op, w, a.v, b.v))
		}
		return c.big2(op, w, a.bigVal(), b.bigVal())
	}
	// push op with a constant into ite of constants
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.isConst() || (!b.isConst() && a.id > b.id) {
			a, b = b, a
		}
	}
	switch op {
	case OAdd:
		if b.isZero() {
			return a
		}
		if b.isConst() && a.op == OAdd && a.a[1].isConst() {
			return c.bin(OAdd, a.a[0], c.bin(OAdd, a.a[1], b))
		}
		if b.isConst() && a.op == OIte && a.a[1].isConst() && a.a[2].isConst() {
			return c.Ite(a.a[0], c.bin(OAdd, a.a[1], b), c.bin(OAdd, a.a[2], b))
		}
		// hoist constants: (x+k)+y -> (x+y)+k
		if !b.isConst() && a.op == OAdd && a.a[1].isConst() {
			return c.bin(OAdd, c.bin(OAdd, a.a[0], b), a.a[1])
		}
		if !b.isConst() && b.op == OAdd && b.a[1].isConst() {
			return c.bin(OAdd, c.bin(OAdd, a, b.a[0]), b.a[1])
		}
		if a.op == OSub && a.a[1] == b {
			return a.a[0]
		}
		if b.op == OSub && b.a[1] == a {
			return b.a[0]
		}
		if a.op == ONeg {
			return c.bin(OSub, b, a.a[0])
		}
		if b.op == ONeg {
			return c.bin(OSub, a, b.a[0])
		}
		if r := c.disjoint(a, b); r != nil {
			return r
		}
		// nothing is added to the low words
		for _, x := range [][2]*T{{a, b}, {b, a}} {
			if k := lowZeros(x[1]) &^ 63; k > 0 && k < int(w) {
				hi := int(w) - 1
				return c.Concat(c.Add(c.Extract(x[0], hi, k), c.Extract(x[1], hi, k)), c.Extract(x[0], k-1, 0))
			}
		}
		if w >= 8 && w <= 128 {
			if r := c.carryIn(a, b); r != nil {
				return r
			}
		}
	case OSub:
		if b.isZero() {
			return a
		}
		if a == b {
			return c.BV(w, 0)
		}
		if b.isConst() {
			return c.bin(OAdd, a, c.Neg(b))
		}
		if a.isZero() {
			return c.Neg(b)
		}
		if a.op == OAdd && a.a[0] == b {
			return a.a[1]
		}
		if a.op == OAdd && a.a[1] == b {
			return a.a[0]
		}
		if b.op == OAdd && b.a[0] == a {
			return c.Neg(b.a[1])
		}
		if b.op == OAdd && b.a[1] == a {
			return c.Neg(b.a[0])
		}
		if a.op == OAdd && a.a[1].isConst() { // (x+k)-y -> (x-y)+k
			return c.bin(OAdd, c.bin(OSub, a.a[0], b), a.a[1])
		}
		if b.op == OAdd && b.a[1].isConst() {
			return c.bin(OAdd, c.bin(OSub, a, b.a[0]), c.Neg(b.a[1]))
		}
		if b.op == ONeg {
			return c.bin(OAdd, a, b.a[0])
		}
	case OMul:
		if b.isZero() {
			return b
		}
		if b.isOne() {
			return a
		}
		if b.isOnes() {
			return c.Neg(a)
		}
	case OUDiv:
		if b.isOne() {
			return a
		}
	case OSDiv:
		if b.isOne() {
			return a
		}
	case OURem:
		if b.isOne() {
			return c.BV(w, 0)
		}
	case OBAnd:
		if b.isZero() {
			return b
		}
		if b.isOnes() || a == b {
			return a
		}
		if b.isConst() {
			// contiguous mask -> concat/extract
			bv := b.bigVal()
			lo := int(bv.TrailingZeroBits())
			hi := bv.BitLen() - 1
			run := new(big.Int).Add(new(big.Int).Rsh(bv, uint(lo)), big.NewInt(1))
			if int(run.TrailingZeroBits()) == hi-lo+1 && run.BitLen() == hi-lo+2 {
				mid := c.Extract(a, hi, lo)
				r := c.Zext(mid, Sort(int(w)-lo))
				if lo > 0 {
					r = c.Concat(r, c.BV(Sort(lo), 0))
				}
				return r
			}
			if a.op == OBAnd && a.a[1].isConst() {
				return c.bin(OBAnd, a.a[0], c.bin(OBAnd, a.a[1], b))
			}
		}
		if a.op == OBNot && a.a[0] == b || b.op == OBNot && b.a[0] == a {
			return c.BV(w, 0)
		}
	case OBOr:
		if b.isZero() || a == b {
			return a
		}
		if b.isOnes() {
			return b
		}
		if r := c.disjoint(a, b); r != nil {
			return r
		}
	case OBXor:
		if b.isZero() {
			return a
		}
		if a == b {
			return c.BV(w, 0)
		}
		if b.isOnes() {
			return c.BNot(a)
		}
		if r := c.disjoint(a, b); r != nil {
			return r
		}
	case OShl:
		if b.isConst() {
			bv := b.bigVal()
			if bv.Sign() == 0 {
				return a
			}
			if !bv.IsUint64() || bv.Uint64() >= uint64(w) {
				return c.BV(w, 0)
			}
			k := int(bv.Uint64())
			return c.Concat(c.Extract(a, int(w)-1-k, 0), c.BV(Sort(k), 0))
		}
		if a.isZero() {
			return a
		}
	case OLshr:
		if b.isConst() {
			bv := b.bigVal()
			if bv.Sign() == 0 {
				return a
			}
			if !bv.IsUint64() || bv.Uint64() >= uint64(w) {
				return c.BV(w, 0)
			}
			k := int(bv.Uint64())
			return c.Zext(c.Extract(a, int(w)-1, k), w)
		}
		if a.isZero() {
			return a
		}
	case OAshr:
		if b.isConst() {
			bv := b.bigVal()
			if bv.Sign() == 0 {
				return a
			}
			k := int(w) - 1
			if bv.IsUint64() && bv.Uint64() < uint64(w) {
				k = int(bv.Uint64())
			}
			return c.Sext(c.Extract(a, int(w)-1, k), w)
		}
		if a.isZero() {
			return a
		}
	}
	return c.mk(op, w, 0, a, b, nil, "")
}

func (c *Ctx) Add(a, b *T) *T  { return c.bin(OAdd, a, b) }
func (c *Ctx) Sub(a, b *T) *T  { return c.bin(OSub, a, b) }
func (c *Ctx) Mul(a, b *T) *T  { return c.bin(OMul, a, b) }
func (c *Ctx) BAnd(a, b *T) *T { return c.bin(OBAnd, a, b) }
func (c *Ctx) BOr(a, b *T) *T  { return c.bin(OBOr, a, b) }
func (c *Ctx) BXor(a, b *T) *T { return c.bin(OBXor, a, b) }
func (c *Ctx) Shl(a, b *T) *T  { return c.bin(OShl, a, b) }
func (c *Ctx) Lshr(a, b *T) *T { return c.bin(OLshr, a, b) }
func (c *Ctx) Ashr(a, b *T) *T { return c.bin(OAshr, a, b) }

// segments of a term, most significant first
type seg struct {
	t *T // nil = zeros
	w int
}

func segs(t *T, out []seg) []seg {
	switch t.op {
	case OConcat:
		out = segs(t.a[0], out)
		return segs(t.a[1], out)
	case OZext:
		out = append(out, seg{nil, int(t.s - t.a[0].s)})
		return segs(t.a[0], out)
	case OConst:
		if t.isZero() {
			return append(out, seg{nil, int(t.s)})
		}
		v := t.bigVal()
		hi, lo := v.BitLen(), int(v.TrailingZeroBits())
		if hi < int(t.s) {
			out = append(out, seg{nil, int(t.s) - hi})
		}
		mid := new(big.Int).Rsh(v, uint(lo))
		out = append(out, seg{&T{op: OConst, s: Sort(hi - lo), v: mid.Uint64(), big: mid, id: 0}, hi - lo})
		if lo > 0 {
			out = append(out, seg{nil, lo})
		}
		return out
	}
	return append(out, seg{t, int(t.s)})
}

// a op b where no bit position can be set in both: concat of pieces, or nil
func (c *Ctx) disjoint(a, b *T) *T {
	// quick rejection
	interesting := func(t *T) bool { return t.op == OConcat || t.op == OZext || t.op == OConst }
	if !interesting(a) || !interesting(b) {
		return nil
	}
	sa, sb := segs(a, nil), segs(b, nil)
	hasZ := func(s []seg) bool {
		for _, x := range s {
			if x.t == nil {
				return true
			}
		}
		return false
	}
	if !hasZ(sa) || !hasZ(sb) {
		return nil
	}
	var parts []seg
	i, j := 0, 0
	oa, ob := 0, 0 // consumed bits from top of current segs
	for i < len(sa) && j < len(sb) {
		ra, rb := sa[i].w-oa, sb[j].w-ob
		n := ra
		if rb < n {
			n = rb
		}
		var p seg
		switch {
		case sa[i].t == nil && sb[j].t == nil:
			p = seg{nil, n}
		case sa[i].t == nil:
			hi := sb[j].w - 1 - ob
			p = seg{c.Extract(sb[j].t, hi, hi-n+1), n}
		case sb[j].t == nil:
			hi := sa[i].w - 1 - oa
			p = seg{c.Extract(sa[i].t, hi, hi-n+1), n}
		default:
			return nil
		}
		if p.t != nil && p.t.isConst() && p.t.id == 0 {
			p.t = c.BVBig(Sort(n), p.t.bigVal())
		}
		parts = append(parts, p)
		oa += n
		ob += n
		if oa == sa[i].w {
			i++
			oa = 0
		}
		if ob == sb[j].w {
			j++
			ob = 0
		}
	}
	var r *T
	for _, p := range parts {
		t := p.t
		if t == nil {
			t = c.BV(Sort(p.w), 0)
		}
		if r == nil {
			r = t
		} else {
			r = c.Concat(r, t)
		}
	}
	return r
}

func (c *Ctx) BNot(a *T) *T {
	if a.isConst() {
		if a.s <= 64 {
			return c.BV(a.s, ^a.v)
		}
		return c.BVBig(a.s, new(big.Int).Not(a.big))
	}
	if a.op == OBNot {
		return a.a[0]
	}
	if a.op == ONeg { // ~(-x) = x-1
		return c.bin(OAdd, a.a[0], c.BNot(c.BV(a.s, 0)))
	}
	return c.mk(OBNot, a.s, 0, a, nil, nil, "")
}
func (c *Ctx) Neg(a *T) *T {
	if a.isConst() {
		if a.s <= 64 {
			return c.BV(a.s, -a.v)
		}
		return c.BVBig(a.s, new(big.Int).Neg(a.big))
	}
	if a.op == ONeg {
		return a.a[0]
	}
	if a.op == OSub {
		return c.Sub(a.a[1], a.a[0])
	}
	return c.mk(ONeg, a.s, 0, a, nil, nil, "")
}

func (c *Ctx) Ult(a, b *T) *T {
	if a == b {
		return c.fls
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.bigVal().Cmp(b.bigVal()) < 0)
	}
	if b.isZero() || a.isOnes() {
		return c.fls
	}
	if b.isOne() {
		return c.Eq(a, c.BV(a.s, 0))
	}
	if a.isZero() {
		return c.Not(c.Eq(b, a))
	}
	if a.op == OZext && b.op == OZext && a.a[0].s == b.a[0].s {
		return c.Ult(a.a[0], b.a[0])
	}
	if a.op == OZext && b.isConst() {
		x := a.a[0]
		if b.bigVal().BitLen() > int(x.s) {
			return c.tru
		}
		return c.Ult(x, c.Extract(b, int(x.s)-1, 0))
	}
	if b.op == OZext && a.isConst() {
		x := b.a[0]
		if a.bigVal().BitLen() > int(x.s) {
			return c.fls
		}
		return c.Ult(c.Extract(a, int(x.s)-1, 0), x)
	}
	// both carry tests of one sum are the same condition
	if a.op == OAdd && b == a.a[1] && !b.isConst() {
		return c.Ult(a, a.a[0])
	}
	if r := c.cmpIte(OUlt, a, b); r != nil {
		return r
	}
	return c.mk(OUlt, SBool, 0, a, b, nil, "")
}
func (c *Ctx) cmpIte(op Op, a, b *T) *T {
	f := func(x, y *T) *T {
		switch op {
		case OUlt:
			return c.Ult(x, y)
		case OUle:
			return c.Ule(x, y)
		case OSlt:
			return c.Slt(x, y)
		default:
			return c.Sle(x, y)
		}
	}
	if b.isConst() && a.op == OIte && (a.a[1].isConst() || a.a[2].isConst()) {
		return c.Ite(a.a[0], f(a.a[1], b), f(a.a[2], b))
	}
	if a.isConst() && b.op == OIte && (b.a[1].isConst() || b.a[2].isConst()) {
		return c.Ite(b.a[0], f(a, b.a[1]), f(a, b.a[2]))
	}
	return nil
}
func (c *Ctx) Ule(a, b *T) *T {
	if a == b {
		return c.tru
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.bigVal().Cmp(b.bigVal()) <= 0)
	}
	if a.isZero() || b.isOnes() {
		return c.tru
	}
	if b.isZero() {
		return c.Eq(a, b)
	}
	if a.isOne() {
		return c.Not(c.Eq(b, c.BV(a.s, 0)))
	}
	if a.op == OZext && b.op == OZext && a.a[0].s == b.a[0].s {
		return c.Ule(a.a[0], b.a[0])
	}
	if a.op == OZext && b.isConst() {
		x := a.a[0]
		if b.bigVal().BitLen() > int(x.s) {
			return c.tru
		}
		return c.Ule(x, c.Extract(b, int(x.s)-1, 0))
	}
	if b.op == OZext && a.isConst() {
		x := b.a[0]
		if a.bigVal().BitLen() > int(x.s) {
			return c.fls
		}
		return c.Ule(c.Extract(a, int(x.s)-1, 0), x)
	}
	if r := c.cmpIte(OUle, a, b); r != nil {
		return r
	}
	return c.mk(OUle, SBool, 0, a, b, nil, "")
}
func (c *Ctx) Slt(a, b *T) *T {
	if a == b {
		return c.fls
	}
	if a.isConst() && b.isConst() {
		return c.Bool(bigSigned(a.bigVal(), a.s).Cmp(bigSigned(b.bigVal(), b.s)) < 0)
	}
	if a.op == OZext && b.op == OZext && a.a[0].s == b.a[0].s {
		return c.Ult(a.a[0], b.a[0])
	}
	if a.op == OSext && b.op == OSext && a.a[0].s == b.a[0].s {
		return c.Slt(a.a[0], b.a[0])
	}
	if a.op == OZext && b.isConst() {
		if bigSigned(b.bigVal(), b.s).Sign() <= 0 {
			return c.fls
		}
		return c.Ult(a, b)
	}
	if b.op == OZext && a.isConst() {
		if bigSigned(a.bigVal(), a.s).Sign() < 0 {
			return c.tru
		}
		return c.Ult(a, b)
	}
	if a.op == OSext && b.isConst() {
		x := a.a[0]
		lo := c.Extract(b, int(x.s)-1, 0)
		if c.Sext(lo, a.s) == b {
			return c.Slt(x, lo)
		}
		return c.Bool(bigSigned(b.bigVal(), b.s).Sign() > 0)
	}
	if b.op == OSext && a.isConst() {
		x := b.a[0]
		lo := c.Extract(a, int(x.s)-1, 0)
		if c.Sext(lo, a.s) == a {
			return c.Slt(lo, x)
		}
		return c.Bool(bigSigned(a.bigVal(), a.s).Sign() < 0)
	}
	if r := c.cmpIte(OSlt, a, b); r != nil {
		return r
	}
	return c.mk(OSlt, SBool, 0, a, b, nil, "")
}
func (c *Ctx) Sle(a, b *T) *T {
	if a == b {
		return c.tru
	}
	if a.isConst() && b.isConst() {
		return c.Bool(bigSigned(a.bigVal(), a.s).Cmp(bigSigned(b.bigVal(), b.s)) <= 0)
	}
	if a.op == OZext && b.op == OZext && a.a[0].s == b.a[0].s {
		return c.Ule(a.a[0], b.a[0])
	}
	if a.op == OSext && b.op == OSext && a.a[0].s == b.a[0].s {
		return c.Sle(a.a[0], b.a[0])
	}
	if a.op == OZext && b.isConst() {
		if bigSigned(b.bigVal(), b.s).Sign() < 0 {
			return c.fls
		}
		return c.Ule(a, b)
	}
	if b.op == OZext && a.isConst() {
		if bigSigned(a.bigVal(), a.s).Sign() <= 0 {
			return c.tru
		}
		return c.Ule(a, b)
	}
	if a.op == OSext && b.isConst() {
		x := a.a[0]
		lo := c.Extract(b, int(x.s)-1, 0)
		if c.Sext(lo, a.s) == b {
			return c.Sle(x, lo)
		}
		return c.Bool(bigSigned(b.bigVal(), b.s).Sign() > 0)
	}
	if b.op == OSext && a.isConst() {
		x := b.a[0]
		lo := c.Extract(a, int(x.s)-1, 0)
		if c.Sext(lo, a.s) == a {
			return c.Sle(lo, x)
		}
		return c.Bool(bigSigned(a.bigVal(), a.s).Sign() < 0)
	}
	if r := c.cmpIte(OSle, a, b); r != nil {
		return r
	}
	return c.mk(OSle, SBool, 0, a, b, nil, "")
}

func (c *Ctx) Concat(a, b *T) *T {
	w := a.s + b.s
	if a.isConst() && b.isConst() {
		if w <= 64 {
			return c.BV(w, a.v<<uint(b.s)|b.v)
		}
		r := new(big.Int).Lsh(a.bigVal(), uint(b.s))
		return c.BVBig(w, r.Or(r, b.bigVal()))
	}
	if a.isZero() {
		return c.Zext(b, w)
	}
	if a.op == OExtract && b.op == OExtract && a.a[0] == b.a[0] {
		ah, al := int(a.v>>32), int(a.v&0xffffffff)
		bh, bl := int(b.v>>32), int(b.v&0xffffffff)
		if al == bh+1 {
			return c.Extract(a.a[0], ah, bl)
		}
	}
	// zext(x) ++ y stays zext(x ++ y)
	if a.op == OZext {
		return c.Zext(c.Concat(a.a[0], b), w)
	}
	// right-assoc: (x ++ y) ++ z -> x ++ (y ++ z)
	if a.op == OConcat {
		return c.Concat(a.a[0], c.Concat(a.a[1], b))
	}
	// x ++ (extract ++ rest) with adjoining extracts
	if b.op == OConcat {
		m := b.a[0]
		if a.op == OExtract && m.op == OExtract && a.a[0] == m.a[0] && int(a.v&0xffffffff) == int(m.v>>32)+1 {
			return c.Concat(c.Extract(a.a[0], int(a.v>>32), int(m.v&0xffffffff)), b.a[1])
		}
		if a.isConst() && m.isConst() {
			return c.Concat(c.Concat(a, m), b.a[1])
		}
	}
	if r := c.fuse(a, b); r != nil {
		return r
	}
	return c.mk(OConcat, w, 0, a, b, nil, "")
}

func (c *Ctx) Extract(a *T, hi, lo int) *T {
	w := Sort(hi - lo + 1)
	if w <= 0 || hi >= int(a.s) || lo < 0 {
		panic(fmt.Sprintf("bad extract %d %d of %d", hi, lo, a.s))
	}
	if w == a.s {
		return a
	}
	switch a.op {
	case OConst:
		if a.s <= 64 {
			return c.BV(w, a.v>>uint(lo))
		}
		return c.BVBig(w, new(big.Int).Rsh(a.big, uint(lo)))
	case OExtract:
		l := int(a.v & 0xffffffff)
		return c.Extract(a.a[0], hi+l, lo+l)
	case OConcat:
		bl := int(a.a[1].s)
		if hi < bl {
			return c.Extract(a.a[1], hi, lo)
		}
		if lo >= bl {
			return c.Extract(a.a[0], hi-bl, lo-bl)
		}
		return c.Concat(c.Extract(a.a[0], hi-bl, 0), c.Extract(a.a[1], bl-1, lo))
	case OZext:
		x := a.a[0]
		if hi < int(x.s) {
			return c.Extract(x, hi, lo)
		}
		if lo >= int(x.s) {
			return c.BV(w, 0)
		}
		return c.Zext(c.Extract(x, int(x.s)-1, lo), w)
	case OSext:
		x := a.a[0]
		if hi < int(x.s) {
			return c.Extract(x, hi, lo)
		}
		if lo < int(x.s) {
			return c.Sext(c.Extract(x, int(x.s)-1, lo), w)
		}
		return c.Sext(c.Extract(x, int(x.s)-1, int(x.s)-1), w)
	case OBAnd, OBOr, OBXor:
		return c.bin(a.op, c.Extract(a.a[0], hi, lo), c.Extract(a.a[1], hi, lo))
	case OBNot:
		return c.BNot(c.Extract(a.a[0], hi, lo))
	case OIte:
		if a.a[1].isConst() || a.a[2].isConst() || a.s > 64 {
			k := extKey{a.id, int16(hi), int16(lo)}
			if r := c.extMemo[k]; r != nil {
				return r
			}
			r := c.Ite(a.a[0], c.Extract(a.a[1], hi, lo), c.Extract(a.a[2], hi, lo))
			c.extMemo[k] = r
			return r
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			k := extKey{a.id, int16(hi), 0}
			if r := c.extMemo[k]; r != nil {
				return r
			}
			r := c.bin(a.op, c.Extract(a.a[0], hi, 0), c.Extract(a.a[1], hi, 0))
			c.extMemo[k] = r
			return r
		}
	case ONeg:
		if lo == 0 {
			return c.Neg(c.Extract(a.a[0], hi, 0))
		}
	}
	return c.mk(OExtract, w, uint64(hi)<<32|uint64(lo), a, nil, nil, "")
}

func (c *Ctx) Zext(a *T, w Sort) *T {
	if w == a.s {
		return a
	}
	if w < a.s {
		panic("zext shrinks")
	}
	if a.isConst() {
		return c.BVBig2(w, a)
	}
	if a.op == OZext {
		return c.Zext(a.a[0], w)
	}
	return c.mk(OZext, w, 0, a, nil, nil, "")
}
func (c *Ctx) BVBig2(w Sort, a *T) *T {
	if w <= 64 {
		return c.BV(w, a.v)
	}
	return c.BVBig(w, a.bigVal())
}
func (c *Ctx) Sext(a *T, w Sort) *T {
	if w == a.s {
		return a
	}
	if w < a.s {
		panic("sext shrinks")
	}
	if a.isConst() {
		return c.BVBig(w, bigSigned(a.bigVal(), a.s))
	}
	if a.op == OSext {
		return c.Sext(a.a[0], w)
	}
	if a.op == OZext {
		return c.Zext(a.a[0], w)
	}
	if a.op == OIte && a.a[1].isConst() && a.a[2].isConst() {
		return c.Ite(a.a[0], c.Sext(a.a[1], w), c.Sext(a.a[2], w))
	}
	return c.mk(OSext, w, 0, a, nil, nil, "")
}

// resize a BV to width w
func (c *Ctx) Resize(a *T, w Sort, signed bool) *T {
	if w == a.s {
		return a
	}
	if w < a.s {
		return c.Extract(a, int(w)-1, 0)
	}
	if signed {
		return c.Sext(a, w)
	}
	return c.Zext(a, w)
}

// ---------- floats ----------
func (t *T) f64() float64 {
	if t.s == SF32 {
		return float64(math.Float32frombits(uint32(t.v)))
	}
	return math.Float64frombits(t.v)
}
func (t *T) f32() float32 { return math.Float32frombits(uint32(t.v)) }

func frti(mode uint64, x float64) float64 {
	switch mode {
	case 0:
		return math.RoundToEven(x)
	case 1:
		return math.Round(x)
	case 2:
		return math.Ceil(x)
	case 3:
		return math.Floor(x)
	default:
		return math.Trunc(x)
	}
}

func (c *Ctx) FBin(op Op, a, b *T) *T {
	if a.isConst() && b.isConst() {
		return evalF2(c, op, a, b)
	}
	return c.mk(op, a.s, 0, a, b, nil, "")
}
func evalF2(c *Ctx, op Op, a, b *T) *T {
	if a.s == SF32 {
		x, y := a.f32(), b.f32()
		switch op {
		case OFAdd:
			return c.F32(x + y)
		case OFSub:
			return c.F32(x - y)
		case OFMul:
			return c.F32(x * y)
		default:
			return c.F32(x / y)
		}
	}
	x, y := a.f64(), b.f64()
	switch op {
	case OFAdd:
		return c.F64(x + y)
	case OFSub:
		return c.F64(x - y)
	case OFMul:
		return c.F64(x * y)
	default:
		return c.F64(x / y)
	}
}
func (c *Ctx) FNeg(a *T) *T {
	if a.isConst() {
		if a.s == SF32 {
			return c.F32(-a.f32())
		}
		return c.F64(-a.f64())
	}
	if a.op == OFNeg {
		return a.a[0]
	}
	return c.mk(OFNeg, a.s, 0, a, nil, nil, "")
}
func (c *Ctx) FAbs(a *T) *T {
	if a.isConst() {
		return c.FConst(a.s, math.Abs(a.f64()))
	}
	return c.mk(OFAbs, a.s, 0, a, nil, nil, "")
}
func (c *Ctx) FSqrt(a *T) *T {
	if a.isConst() {
		if a.s == SF32 {
			return c.F32(float32(math.Sqrt(a.f64())))
		}
		return c.F64(math.Sqrt(a.f64()))
	}
	return c.mk(OFSqrt, a.s, 0, a, nil, nil, "")
}
func (c *Ctx) FRti(mode uint64, a *T) *T {
	if a.isConst() {
		return c.FConst(a.s, frti(mode, a.f64()))
	}
	return c.mk(OFRti, a.s, mode, a, nil, nil, "")
}
func (c *Ctx) FCmp(op Op, a, b *T) *T {
	if a.isConst() && b.isConst() {
		x, y := a.f64(), b.f64()
		switch op {
		case OFEq:
			return c.Bool(x == y)
		case OFLt:
			return c.Bool(x < y)
		default:
			return c.Bool(x <= y)
		}
	}
	if op == OFEq && a.id > b.id {
		a, b = b, a
	}
	if op == OFEq && a == b {
		return c.Not(c.FIsNaN(a))
	}
	if op == OFLt && a == b {
		return c.fls
	}
	return c.mk(op, SBool, 0, a, b, nil, "")
}
func (c *Ctx) FIsNaN(a *T) *T {
	if a.isConst() {
		x := a.f64()
		return c.Bool(x != x)
	}
	return c.mk(OFIsNaN, SBool, 0, a, nil, nil, "")
}

// reinterpret bits as a float
func (c *Ctx) FFromBits(a *T) *T {
	s := SF64
	if a.s == 32 {
		s = SF32
	}
	if a.isConst() {
		return c.mk(OConst, s, a.v, nil, nil, nil, "")
	}
	return c.mk(OFFromBits, s, 0, a, nil, nil, "")
}
func (c *Ctx) FToFP(a *T, s Sort) *T {
	if a.s == s {
		return a
	}
	if a.isConst() {
		if s == SF32 {
			return c.F32(float32(a.f64()))
		}
		return c.F64(float64(a.f32()))
	}
	if a.op == OFToFP && a.s == SF64 && s == SF32 && a.a[0].s == SF32 {
		return a.a[0] // widening then narrowing is exact
	}
	return c.mk(OFToFP, s, 0, a, nil, nil, "")
}
func (c *Ctx) FFromInt(a *T, s Sort, signed bool) *T {
	op := OFFromU
	if signed {
		op = OFFromS
	}
	if a.isConst() && a.s <= 64 {
		return c.constFromInt(a, s, signed)
	}
	return c.mk(op, s, 0, a, nil, nil, "")
}
func (c *Ctx) constFromInt(a *T, s Sort, signed bool) *T {
	if signed {
		if s == SF32 {
			return c.F32(float32(a.sval()))
		}
		return c.F64(float64(a.sval()))
	}
	if s == SF32 {
		return c.F32(float32(a.v))
	}
	return c.F64(float64(a.v))
}

// truncating conversion to an integer (valid range is the caller's business)
func (c *Ctx) FToInt(a *T, w Sort, signed bool) *T {
	op := OFToU
	if signed {
		op = OFToS
	}
	if a.isConst() {
		x := math.Trunc(a.f64())
		if x != x || math.IsInf(x, 0) {
			return c.BV(w, 1<<63)
		}
		bi, _ := new(big.Float).SetFloat64(x).Int(nil)
		return c.BVBig(w, bi)
	}
	return c.mk(op, w, 0, a, nil, nil, "")
}

func (c *Ctx) UF(name string, s Sort, args ...*T) *T {
	if _, ok := c.ufs[name]; !ok {
		var sg []Sort
		for _, a := range args {
			sg = append(sg, a.s)
		}
		c.ufs[name] = append(sg, s)
	}
	var x [3]*T
	copy(x[:], args)
	t := c.mk(OUF, s, 0, x[0], x[1], x[2], name)
	t.sym = true
	return t
}

// ---------- printing ----------
func (t *T) constSMT() string {
	switch {
	case t.s == SBool:
		if t.v != 0 {
			return "true"
		}
		return "false"
	case t.s.isBV():
		if t.s <= 64 {
			if t.s%4 == 0 {
				return fmt.Sprintf("#x%0*x", int(t.s/4), t.v)
			}
			return fmt.Sprintf("#b%0*b", int(t.s), t.v)
		}
		if t.s%4 == 0 {
			return fmt.Sprintf("#x%0*s", int(t.s/4), t.big.Text(16))
		}
		return fmt.Sprintf("#b%0*s", int(t.s), t.big.Text(2))
	case t.s == SF32:
		if f := t.f32(); f != f {
			return "(_ NaN 8 24)"
		}
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", uint32(t.v))
	default:
		if f := t.f64(); f != f {
			return "(_ NaN 11 53)"
		}
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.v)
	}
}

func fpIdx(s Sort) string {
	if s == SF32 {
		return "8 24"
	}
	return "11 53"
}

var rmName = []string{"RNE", "RNA", "RTP", "RTN", "RTZ"}

// SMT text of t with args referenced through ref
func (t *T) smtNode(ref func(*T) string) string {
	switch t.op {
	case OConst:
		return t.constSMT()
	case OVar:
		return "|" + t.name + "|"
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.v>>32, t.v&0xffffffff, ref(t.a[0]))
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.s-t.a[0].s, ref(t.a[0]))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.s-t.a[0].s, ref(t.a[0]))
	case OFAdd, OFSub, OFMul, OFDiv:
		n := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
		return fmt.Sprintf("(%s RNE %s %s)", n, ref(t.a[0]), ref(t.a[1]))
	case OFSqrt:
		return fmt.Sprintf("(fp.sqrt RNE %s)", ref(t.a[0]))
	case OFRti:
		return fmt.Sprintf("(fp.roundToIntegral %s %s)", rmName[t.v], ref(t.a[0]))
	case OFFromBits:
		return fmt.Sprintf("((_ to_fp %s) %s)", fpIdx(t.s), ref(t.a[0]))
	case OFToFP, OFFromS:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpIdx(t.s), ref(t.a[0]))
	case OFFromU:
		return fmt.Sprintf("((_ to_fp_unsigned %s) RNE %s)", fpIdx(t.s), ref(t.a[0]))
	case OFToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.s, ref(t.a[0]))
	case OFToU:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.s, ref(t.a[0]))
	case OUF:
		if t.n == 0 {
			return "|" + t.name + "|"
		}
		var sb strings.Builder
		sb.WriteString("(|" + t.name + "|")
		for i := uint8(0); i < t.n; i++ {
			sb.WriteString(" " + ref(t.a[i]))
		}
		sb.WriteString(")")
		return sb.String()
	}
	var sb strings.Builder
	sb.WriteString("(" + opSMT[t.op])
	for i := uint8(0); i < t.n; i++ {
		sb.WriteString(" " + ref(t.a[i]))
	}
	sb.WriteString(")")
	return sb.String()
}

// ---------- evaluation under a model ----------
// Model maps variable names to big/uint values (missing = 0).
type Model struct {
	u map[string]uint64
	b map[string]*big.Int
}

type evalVal struct {
	v  uint64
	b  *big.Int // wide
	ok bool
}

type Evaluator struct {
	c    *Ctx
	memo map[uint32]evalVal
	m    *Model
}

func NewEvaluator(c *Ctx, m *Model) *Evaluator {
	return &Evaluator{c: c, memo: map[uint32]evalVal{}, m: m}
}

func (e *Evaluator) Eval(t *T) (v evalVal) {
	if t.op == OConst {
		return evalVal{t.v, t.big, true}
	}
	if r, ok := e.memo[t.id]; ok {
		return r
	}
	r := e.eval(t)
	e.memo[t.id] = r
	return r
}

func (e *Evaluator) toConst(v evalVal, s Sort) *T {
	if s > 64 {
		return e.c.BVBig(s, v.b)
	}
	return e.c.mk(OConst, s, v.v, nil, nil, nil, "")
}

func (e *Evaluator) eval(t *T) evalVal {
	bad := evalVal{}
	switch t.op {
	case OVar:
		if t.s > 64 {
			if b, ok := e.m.b[t.name]; ok {
				return evalVal{0, b, true}
			}
			return evalVal{0, new(big.Int), true}
		}
		return evalVal{e.m.u[t.name], nil, true}
	case OUF:
		return bad
	case OIte:
		k := e.Eval(t.a[0])
		if !k.ok {
			return bad
		}
		if k.v != 0 {
			return e.Eval(t.a[1])
		}
		return e.Eval(t.a[2])
	case OAnd:
		a := e.Eval(t.a[0])
		if a.ok && a.v == 0 {
			return a
		}
		b := e.Eval(t.a[1])
		if b.ok && b.v == 0 {
			return b
		}
		if !a.ok || !b.ok {
			return bad
		}
		return evalVal{1, nil, true}
	case OOr:
		a := e.Eval(t.a[0])
		if a.ok && a.v != 0 {
			return a
		}
		b := e.Eval(t.a[1])
		if b.ok && b.v != 0 {
			return b
		}
		if !a.ok || !b.ok {
			return bad
		}
		return evalVal{0, nil, true}
	}
	var vs [3]evalVal
	wide := t.s > 64
	for i := uint8(0); i < t.n; i++ {
		vs[i] = e.Eval(t.a[i])
		if !vs[i].ok {
			return bad
		}
		if t.a[i].s > 64 {
			wide = true
		}
	}
	bo := func(b bool) evalVal {
		if b {
			return evalVal{1, nil, true}
		}
		return evalVal{0, nil, true}
	}
	if wide || t.op >= OFAdd {
		// rebuild through the constant folder
		var x [3]*T
		for i := uint8(0); i < t.n; i++ {
			x[i] = e.toConst(vs[i], t.a[i].s)
		}
		r := e.c.rebuild(t, x)
		if !r.isConst() {
			return bad
		}
		return evalVal{r.v, r.big, true}
	}
	a, b := vs[0].v, vs[1].v
	switch t.op {
	case ONot:
		return bo(a == 0)
	case OEq:
		return bo(a == b)
	case OBNot:
		return evalVal{^a & mask(t.s), nil, true}
	case ONeg:
		return evalVal{-a & mask(t.s), nil, true}
	case OUlt:
		return bo(a < b)
	case OUle:
		return bo(a <= b)
	case OSlt:
		return bo(sext64(a, t.a[0].s) < sext64(b, t.a[0].s))
	case OSle:
		return bo(sext64(a, t.a[0].s) <= sext64(b, t.a[0].s))
	case OConcat:
		return evalVal{a<<uint(t.a[1].s) | b, nil, true}
	case OExtract:
		return evalVal{(a >> (t.v & 0xffffffff)) & mask(t.s), nil, true}
	case OZext:
		return evalVal{a, nil, true}
	case OSext:
		return evalVal{uint64(sext64(a, t.a[0].s)) & mask(t.s), nil, true}
	}
	return evalVal{fold2(t.op, t.s, a, b) & mask(t.s), nil, true}
}

// rebuild t with new args through the smart constructors
func (c *Ctx) rebuild(t *T, x [3]*T) *T {
	switch t.op {
	case ONot:
		return c.Not(x[0])
	case OAnd:
		return c.And(x[0], x[1])
	case OOr:
		return c.Or(x[0], x[1])
	case OEq:
		if t.a[0].s.isFP() && x[0].isConst() && x[1].isConst() {
			// SMT equality of floats: all NaNs equal
			f, g := x[0].f64(), x[1].f64()
			if f != f && g != g {
				return c.tru
			}
			return c.Bool(x[0].v == x[1].v)
		}
		return c.Eq(x[0], x[1])
	case OIte:
		return c.Ite(x[0], x[1], x[2])
	case OBNot:
		return c.BNot(x[0])
	case ONeg:
		return c.Neg(x[0])
	case OUlt:
		return c.Ult(x[0], x[1])
	case OUle:
		return c.Ule(x[0], x[1])
	case OSlt:
		return c.Slt(x[0], x[1])
	case OSle:
		return c.Sle(x[0], x[1])
	case OConcat:
		return c.Concat(x[0], x[1])
	case OExtract:
		return c.Extract(x[0], int(t.v>>32), int(t.v&0xffffffff))
	case OZext:
		return c.Zext(x[0], t.s)
	case OSext:
		return c.Sext(x[0], t.s)
	case OFAdd, OFSub, OFMul, OFDiv:
		return c.FBin(t.op, x[0], x[1])
	case OFNeg:
		return c.FNeg(x[0])
	case OFAbs:
		return c.FAbs(x[0])
	case OFSqrt:
		return c.FSqrt(x[0])
	case OFRti:
		return c.FRti(t.v, x[0])
	case OFEq, OFLt, OFLe:
		return c.FCmp(t.op, x[0], x[1])
	case OFIsNaN:
		return c.FIsNaN(x[0])
	case OFFromBits:
		return c.FFromBits(x[0])
	case OFToFP:
		return c.FToFP(x[0], t.s)
	case OFFromS:
		return c.FFromInt(x[0], t.s, true)
	case OFFromU:
		return c.FFromInt(x[0], t.s, false)
	case OFToS:
		return c.FToInt(x[0], t.s, true)
	case OFToU:
		return c.FToInt(x[0], t.s, false)
	case OUF:
		return t
	}
	return c.bin(t.op, x[0], x[1])
}

var _ = bits.Len64

// mono is a product in normal form: a coefficient and powers of other terms.
type mono struct {
	coef uint64
	pow  map[*T]uint64
	ok   bool
}

func (c *Ctx) mono(t *T) mono {
	if t.op == OConst {
		return mono{coef: t.v, ok: t.big == nil}
	}
	if t.op != OMul {
		return mono{coef: 1, pow: map[*T]uint64{t: 1}, ok: true}
	}
	if m, ok := c.monoMemo[t.id]; ok {
		return m
	}
	a, b := c.mono(t.a[0]), c.mono(t.a[1])
	r := mono{coef: a.coef * b.coef, pow: map[*T]uint64{}, ok: a.ok && b.ok && len(a.pow)+len(b.pow) <= 64}
	if r.ok {
		for _, m := range []mono{a, b} {
			for x, n := range m.pow {
				r.pow[x] += n
				if n > 1<<40 {
					r.ok = false
				}
			}
		}
	}
	c.monoMemo[t.id] = r
	return r
}

// sameMono reports whether two terms are the same product up to the order and
// grouping of the factors.
func (c *Ctx) sameMono(a, b *T) bool {
	x, y := c.mono(a), c.mono(b)
	if !x.ok || !y.ok || len(x.pow) != len(y.pow) || (x.coef-y.coef)<<(64-uint(a.s)) != 0 {
		return false
	}
	for t, n := range x.pow {
		if y.pow[t] != n {
			return false
		}
	}
	return true
}

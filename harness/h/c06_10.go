package h

import (
	"math"
	"math/big"
	"strconv"

	"github.com/myyrakle/gost"
	"gostverif/nd"
	"gostverif/nd128"
)

// ---- C06 ----
type shiftOps[T any] interface {
	anyint
	Shl(T) T
	Shr(T) T
}

func shifts[T shiftOps[T]](t ty[T]) {
	a, n := t.in("a"), t.in("count")
	nd.Assume(n >= 0)
	l, r := a.Shl(n), a.Shr(n)
	nd.Observe("shl", l)
	nd.Observe("shr", r)
	var zero T
	if uint64(n) >= uint64(t.bits) {
		nd.Assert(l == zero, "Shl: a count of at least the width must give zero")
		if a < 0 {
			nd.Assert(r == ^zero, "Shr: a count of at least the width must give the sign fill")
		} else {
			nd.Assert(r == zero, "Shr: a count of at least the width must give zero")
		}
		return
	}
	nd.Assert(l == a<<uint64(n), "Shl: must be a * 2^count modulo 2^N")
	nd.Assert(r == a>>uint64(n), "Shr: must be a / 2^count rounded down")
}

func shiftCount() (hi, lo uint64) {
	k := nd.Choice("count", 131)
	if k < 129 {
		return 0, uint64(k)
	}
	hi, lo = nd.U64("count.hi"), nd.U64("count.lo")
	nd.Assume(hi>>63 == 0)
	if k == 129 {
		nd.Assume(hi == 0 && lo > 128)
	} else {
		nd.Assume(hi != 0)
	}
	return hi, lo
}

// low128 is x modulo 2^128 as two halves.
func low128(x *big.Int) (hi, lo uint64) {
	m := new(big.Int).Lsh(big.NewInt(1), 128)
	m.Sub(m, big.NewInt(1))
	m.And(m, x)
	return new(big.Int).Rsh(m, 64).Uint64(), new(big.Int).And(m, new(big.Int).SetUint64(^uint64(0))).Uint64()
}

func H_C06_U128() {
	a := inU128("a")
	ch, cl := shiftCount()
	l, r := a.Shl(nd128.MkU128(ch, cl)), a.Shr(nd128.MkU128(ch, cl))
	lh, ll := nd128.SplitU128(l)
	rh, rl := nd128.SplitU128(r)
	nd.Observe("shl.hi", lh)
	nd.Observe("shr.lo", rl)
	if ch != 0 || cl >= 128 {
		nd.Assert(lh == 0 && ll == 0, "U128.Shl: a count of at least 128 must give zero")
		nd.Assert(rh == 0 && rl == 0, "U128.Shr: a count of at least 128 must give zero")
		return
	}
	eh, el := low128(new(big.Int).Lsh(bigU128(a), uint(cl)))
	nd.Assert(lh == eh && ll == el, "U128.Shl: must be a * 2^count modulo 2^128")
	eh, el = low128(new(big.Int).Rsh(bigU128(a), uint(cl)))
	nd.Assert(rh == eh && rl == el, "U128.Shr: must be a / 2^count rounded down")
}

func H_C06_I128() {
	a := inI128("a")
	ch, cl := shiftCount()
	l, r := a.Shl(nd128.MkI128(int64(ch), cl)), a.Shr(nd128.MkI128(int64(ch), cl))
	lh, ll := nd128.SplitI128(l)
	rh, rl := nd128.SplitI128(r)
	nd.Observe("shl.hi", lh)
	nd.Observe("shr.lo", rl)
	ah, _ := nd128.SplitI128(a)
	if ch != 0 || cl >= 128 {
		nd.Assert(lh == 0 && ll == 0, "I128.Shl: a count of at least 128 must give zero")
		nd.Assert(rh == ah>>63 && rl == uint64(ah>>63), "I128.Shr: a count of at least 128 must give the sign fill")
		return
	}
	eh, el := low128(new(big.Int).Lsh(bigI128(a), uint(cl)))
	nd.Assert(uint64(lh) == eh && ll == el, "I128.Shl: must be a * 2^count modulo 2^128")
	eh, el = low128(new(big.Int).Rsh(bigI128(a), uint(cl)))
	nd.Assert(uint64(rh) == eh && rl == el, "I128.Shr: must be a / 2^count rounded down")
}

// ---- C07 ----
func isU(r gost.U128, e *big.Int) bool {
	h, l := nd128.SplitU128(r)
	nd.Observe("r.hi", h)
	nd.Observe("r.lo", l)
	eh, el := low128(e)
	return bigU(h, l).Cmp(bigU(eh, el)) == 0
}
func isI(r gost.I128, e *big.Int) bool {
	h, l := nd128.SplitI128(r)
	nd.Observe("r.hi", h)
	nd.Observe("r.lo", l)
	eh, el := low128(e)
	return bigU(uint64(h), l).Cmp(bigU(eh, el)) == 0
}

func H_C07_U128_AddSub() {
	a, b := inU128("a"), inU128("b")
	nd.Assert(isU(a.Add(b), badd(bigU128(a), bigU128(b))), "U128.Add: must be the sum modulo 2^128")
	nd.Assert(isU(a.Sub(b), bsub(bigU128(a), bigU128(b))), "U128.Sub: must be the difference modulo 2^128")
}
func H_C07_I128_AddSub() {
	a, b := inI128("a"), inI128("b")
	nd.Assert(isI(a.Add(b), badd(bigI128(a), bigI128(b))), "I128.Add: must be the sum modulo 2^128")
	nd.Assert(isI(a.Sub(b), bsub(bigI128(a), bigI128(b))), "I128.Sub: must be the difference modulo 2^128")
}
func H_C07_I128_Sign() {
	a := inI128("a")
	neg := new(big.Int).Neg(bigI128(a))
	nd.Assert(isI(a.Neg(), neg), "I128.Neg: must be the two's-complement negation")
	h, l := nd128.SplitI128(a)
	if h < 0 {
		nd.Assert(isI(a.Abs(), neg), "I128.Abs: must be the magnitude modulo 2^128")
	} else {
		nd.Assert(eqI128(a.Abs(), a), "I128.Abs: must be the magnitude modulo 2^128")
	}
	nd.Assert(bool(a.IsNegative()) == (h < 0), "I128.IsNegative: must hold exactly below zero")
	nd.Assert(bool(a.IsPositive()) == (h > 0 || h == 0 && l > 0), "I128.IsPositive: must hold exactly above zero")
}
func H_C07_Convert() {
	u, i := nd.U64("u"), nd.I64("i")
	nd.Assert(isU(gost.U128_FromU64(gost.U64(u)), new(big.Int).SetUint64(u)), "U128_FromU64: must keep the value")
	nd.Assert(isI(gost.I128_FromU64(gost.U64(u)), new(big.Int).SetUint64(u)), "I128_FromU64: must keep the value")
	nd.Assert(isI(gost.I128_FromI64(gost.I64(i)), new(big.Int).SetInt64(i)), "I128_FromI64: must keep the value")
}
func H_C07_Const() {
	one := new(big.Int).Lsh(big.NewInt(1), 127)
	nd.Assert(bigI128(gost.I128_MIN).Cmp(new(big.Int).Neg(one)) == 0, "I128_MIN must be -2^127")
	nd.Assert(bigI128(gost.I128_MAX).Cmp(new(big.Int).Sub(one, big.NewInt(1))) == 0, "I128_MAX must be 2^127-1")
	nd.Assert(bigU128(gost.U128_MIN).Sign() == 0, "U128_MIN must be 0")
	nd.Assert(bigU128(gost.U128_MAX).Cmp(bsub(badd(one, one), big.NewInt(1))) == 0, "U128_MAX must be 2^128-1")
}

// ---- C08 ----
// window is a 128-bit value whose free bits are w consecutive ones at a chosen
// position, plus optionally all ones above (a negative value for I128).
func window(name string, w int, fill bool) (hi, lo uint64) {
	pos := nd.Choice(name+".pos", (128-w)/16+1) * 16
	v := nd.U64(name) & (1<<uint(w) - 1)
	if pos < 64 {
		lo = v << uint(pos)
		if pos > 0 {
			hi = v >> uint(64-pos)
		}
	} else {
		hi = v << uint(pos-64)
	}
	if fill {
		top := pos + w
		if top < 64 {
			lo |= ^uint64(0) << uint(top)
			hi = ^uint64(0)
		} else {
			hi |= ^uint64(0) << uint(top-64)
		}
	}
	return
}

func H_C08_MulU128() {
	a, b := inU128("a"), inU128("b")
	r := a.Mul(b)
	nd.Assert(isU(r, schoolU(a, b)), "U128.Mul: must be the product modulo 2^128")
}

// schoolU is the product by its definition as a sum of shifted addends.
func schoolU(a, b gost.U128) *big.Int {
	x := bigU128(a)
	h, l := nd128.SplitU128(b)
	s := new(big.Int)
	for i := 0; i < 128; i++ {
		var bit uint64
		if i < 64 {
			bit = l >> uint(i) & 1
		} else {
			bit = h >> uint(i-64) & 1
		}
		if bit == 1 {
			s.Add(s, x)
		}
		x = new(big.Int).Lsh(x, 1)
		hh, ll := low128(x)
		x = bigU(hh, ll)
		hh, ll = low128(s)
		s = bigU(hh, ll)
	}
	return s
}

// ---- C09 ----
type ordOps[T any] interface {
	Cmp(T) gost.Ordering
	Eq(T) gost.Bool
}
type intOrd[T any] interface {
	anyint
	ordOps[T]
}

func ordAgrees(c gost.Ordering, e gost.Bool, less, equal bool) {
	nd.Observe("cmp", int(c))
	nd.Assert((c == gost.OrderingLess) == less, "Cmp: Less exactly when the receiver is smaller")
	nd.Assert((c == gost.OrderingEqual) == equal, "Cmp: Equal exactly when the values are equal")
	nd.Assert((c == gost.OrderingGreater) == (!less && !equal), "Cmp: Greater exactly when the receiver is greater")
	nd.Assert(bool(e) == equal, "Eq: true exactly when the values are equal")
}
func totalOrder[T intOrd[T]](t ty[T]) {
	a, b := t.in("a"), t.in("b")
	ordAgrees(a.Cmp(b), a.Eq(b), a < b, a == b)
}
func H_C09_F32() {
	a, b := gost.F32(nd.F32("a")), gost.F32(nd.F32("b"))
	nd.Assume(a == a && b == b)
	ordAgrees(a.Cmp(b), a.Eq(b), a < b, a == b)
}
func H_C09_F64() {
	a, b := gost.F64(nd.F64("a")), gost.F64(nd.F64("b"))
	nd.Assume(a == a && b == b)
	ordAgrees(a.Cmp(b), a.Eq(b), a < b, a == b)
}
func H_C09_Byte() {
	a, b := gost.Byte(nd.U8("a")), gost.Byte(nd.U8("b"))
	ordAgrees(a.Cmp(b), a.Eq(b), a < b, a == b)
}
func H_C09_Char() {
	a, b := gost.Char(nd.I32("a")), gost.Char(nd.I32("b"))
	ordAgrees(a.Cmp(b), a.Eq(b), a < b, a == b)
}
func H_C09_Bool() {
	a, b := nd.Bool("a"), nd.Bool("b")
	ordAgrees(gost.Bool(a).Cmp(gost.Bool(b)), gost.Bool(a).Eq(gost.Bool(b)), !a && b, a == b)
}
func H_C09_U128() {
	a, b := inU128("a"), inU128("b")
	c := bigU128(a).Cmp(bigU128(b))
	ordAgrees(a.Cmp(b), a.Eq(b), c < 0, c == 0)
}
func H_C09_I128() {
	a, b := inI128("a"), inI128("b")
	c := bigI128(a).Cmp(bigI128(b))
	ordAgrees(a.Cmp(b), a.Eq(b), c < 0, c == 0)
}
func H_C09_String() {
	n := nd.Tier(3, 5)
	nd.Bound("strings up to 3 bytes (quick), 5 bytes (thorough)")
	a, b := anyStr("a", n), anyStr("b", n)
	k := 0
	for k < len(a) && k < len(b) && a[k] == b[k] {
		k++
	}
	eq := k == len(a) && k == len(b)
	less := k < len(b) && (k == len(a) || k < len(a) && a[k] < b[k])
	ordAgrees(gost.String(a).Cmp(gost.String(b)), gost.String(a).Eq(gost.String(b)), less, eq)
}
func H_C09_Pair() {
	ak, av, bk, bv := nd.I32("ak"), nd.I64("av"), nd.I32("bk"), nd.I64("bv")
	a := gost.Pair[gost.I32, gost.I64]{Key: gost.I32(ak), Value: gost.I64(av)}
	b := gost.Pair[gost.I32, gost.I64]{Key: gost.I32(bk), Value: gost.I64(bv)}
	ordAgrees(a.Cmp(b), a.Eq(b), ak < bk || ak == bk && av < bv, ak == bk && av == bv)
}
func H_C09_PairNested() {
	type in = gost.Pair[gost.U8, gost.Bool]
	mk := func(n string) (gost.Pair[gost.String, in], string, uint8, bool) {
		s, k, v := nd.Str(n+".s", 1), nd.U8(n+".k"), nd.Bool(n+".v")
		return gost.Pair[gost.String, in]{Key: gost.String(s), Value: in{Key: gost.U8(k), Value: gost.Bool(v)}}, s, k, v
	}
	a, as, ak, av := mk("a")
	b, bs, bk, bv := mk("b")
	less := as < bs || as == bs && (ak < bk || ak == bk && !av && bv)
	ordAgrees(a.Cmp(b), a.Eq(b), less, as == bs && ak == bk && av == bv)
}

// ---- C10 ----
type textOps[T any] interface {
	anyint
	ToString() gost.String
	Display() gost.String
}

func intText[T textOps[T]](t ty[T]) {
	a := t.in("a")
	var want string
	if t.signed {
		want = strconv.FormatInt(int64(a), 10)
	} else {
		want = strconv.FormatUint(uint64(a), 10)
	}
	nd.Observe("text", string(a.ToString()))
	nd.Assert(string(a.ToString()) == want, "ToString: must be the canonical decimal text")
	nd.Assert(string(a.Display()) == want, "Display: must be the canonical decimal text")
}
func H_C10_U128() {
	a := inU128("a")
	want := bigU128(a).String()
	nd.Assert(string(a.ToString()) == want, "U128.ToString: must be the canonical decimal text")
	nd.Assert(string(a.Display()) == want, "U128.Display: must be the canonical decimal text")
}
func H_C10_I128() {
	a := inI128("a")
	want := bigI128(a).String()
	nd.Assert(string(a.ToString()) == want, "I128.ToString: must be the canonical decimal text")
	nd.Assert(string(a.Display()) == want, "I128.Display: must be the canonical decimal text")
}
func H_C10_ByteChar() {
	b, c := nd.U8("b"), nd.I32("c")
	nd.Assert(string(gost.Byte(b).ToString()) == strconv.Itoa(int(b)), "Byte.ToString: must be the canonical decimal text")
	nd.Assert(string(gost.Char(c).ToString()) == strconv.Itoa(int(c)), "Char.ToString: must be the canonical decimal text")
	nd.Assert(string(gost.Byte(b).Display()) == strconv.Itoa(int(b)), "Byte.Display: must be the canonical decimal text")
}
func H_C10_RoundI64() {
	v := nd.I64("v")
	r := gost.String(strconv.FormatInt(v, 10)).ParseI64()
	nd.Assert(bool(r.IsOk()), "ParseI64: must accept the text of every I64")
	nd.Assert(int64(r.Unwrap()) == v, "ParseI64: must give the value back")
}
func H_C10_RoundU64() {
	v := nd.U64("v")
	r := gost.String(strconv.FormatUint(v, 10)).ParseU64()
	nd.Assert(bool(r.IsOk()), "ParseU64: must accept the text of every U64")
	nd.Assert(uint64(r.Unwrap()) == v, "ParseU64: must give the value back")
}

// decimal reads [sign]digits; plain tells there was no leading '+'.
func decimal(s string, n int) (neg, plain, ok bool, mag uint64) {
	i := 0
	plain = true
	if n > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		plain = s[0] == '-'
		i = 1
	}
	if i == n {
		return neg, plain, false, 0
	}
	for ; i < n; i++ {
		if s[i] < '0' || s[i] > '9' {
			return neg, plain, false, 0
		}
		mag = mag*10 + uint64(s[i]-'0')
	}
	return neg, plain, true, mag
}
func H_C10_ParseI64Text() {
	n := nd.Choice("len", nd.Tier(4, 6))
	nd.Bound("texts up to 3 bytes (quick), 5 bytes (thorough)")
	s := nd.Str("s", n)
	neg, plain, ok, mag := decimal(s, n)
	r := gost.String(s).ParseI64()
	if !ok {
		nd.Assert(bool(r.IsErr()), "ParseI64: must reject a text that is not a decimal integer")
		return
	}
	if !plain {
		return
	}
	nd.Assert(bool(r.IsOk()), "ParseI64: must accept a decimal integer in range")
	v := int64(mag)
	if neg {
		v = -v
	}
	nd.Observe("v", int64(r.Unwrap()))
	nd.Assert(int64(r.Unwrap()) == v, "ParseI64: must give the value")
}
func H_C10_ParseU64Text() {
	n := nd.Choice("len", nd.Tier(4, 6))
	nd.Bound("texts up to 3 bytes (quick), 5 bytes (thorough)")
	s := nd.Str("s", n)
	neg, plain, ok, mag := decimal(s, n)
	r := gost.String(s).ParseU64()
	if !ok || neg && mag > 0 {
		nd.Assert(bool(r.IsErr()), "ParseU64: must reject a text that is not a non-negative decimal integer")
		return
	}
	if !plain || neg {
		return
	}
	nd.Assert(bool(r.IsOk()), "ParseU64: must accept a decimal integer in range")
	nd.Observe("v", uint64(r.Unwrap()))
	nd.Assert(uint64(r.Unwrap()) == mag, "ParseU64: must give the value")
}

// long texts: twenty digits, around the limits of the 64-bit types
func longDigits(lead string, free int) (string, *big.Int) {
	d := nd.Str("digits", free)
	for i := 0; i < free; i++ {
		nd.Assume(d[i] >= '0' && d[i] <= '9')
	}
	s := lead + d
	v := new(big.Int)
	for i := 0; i < len(s); i++ {
		v.Add(v.Mul(v, big.NewInt(10)), big.NewInt(int64(s[i]-'0')))
	}
	return s, v
}
func H_C10_ParseU64Limit() {
	lead := "1844674407370955"
	if nd.Choice("lead", 2) == 1 {
		lead = "11844674407370955"
	}
	nd.Bound("texts around 2^64 and 10*2^64: fixed leading digits and four free digits")
	s, v := longDigits(lead, 4)
	r := gost.String(s).ParseU64()
	if v.Cmp(new(big.Int).SetUint64(^uint64(0))) <= 0 {
		nd.Assert(bool(r.IsOk()), "ParseU64: must accept a decimal integer in range")
		nd.Assert(new(big.Int).SetUint64(uint64(r.Unwrap())).Cmp(v) == 0, "ParseU64: must give the value")
	} else {
		nd.Assert(bool(r.IsErr()), "ParseU64: must reject a decimal integer out of range")
	}
}
func H_C10_ParseI64Limit() {
	neg := nd.Choice("neg", 2) == 1
	lead := "922337203685477"
	if nd.Choice("lead", 2) == 1 {
		lead = "1922337203685477"
	}
	nd.Bound("texts around 2^63 and 2*10^19: fixed leading digits and four free digits, both signs")
	s, v := longDigits(lead, 4)
	if neg {
		s = "-" + s
		v.Neg(v)
	}
	r := gost.String(s).ParseI64()
	if tI64.fits(v) {
		nd.Assert(bool(r.IsOk()), "ParseI64: must accept a decimal integer in range")
		nd.Assert(big.NewInt(int64(r.Unwrap())).Cmp(v) == 0, "ParseI64: must give the value")
	} else {
		nd.Assert(bool(r.IsErr()), "ParseI64: must reject a decimal integer out of range")
	}
}

func divU(a, b gost.U128, q, r gost.U128) {
	nd.Assert(isU(q, new(big.Int).Quo(bigU128(a), bigU128(b))), "U128.Div: must be the quotient")
	nd.Assert(isU(r, new(big.Int).Rem(bigU128(a), bigU128(b))), "U128.Rem: must be the remainder")
}

// half makes one half of an operand; the high half is zero or not.
func operand(n string) gost.U128 {
	lo := nd.U64(n + ".lo")
	if nd.Choice(n+".wide", 2) == 0 {
		return nd128.MkU128(0, lo)
	}
	hi := nd.U64(n + ".hi")
	nd.Assume(hi != 0)
	return nd128.MkU128(hi, lo)
}

func H_C08_DivU128() {
	a, b := operand("a"), operand("b")
	nd.Assume(bigU128(b).Sign() != 0)
	divU(a, b, a.Div(b), a.Rem(b))
}

// operandI is a signed operand and its magnitude; the cases cover all values.
func operandI(n string) (x gost.I128, mag *big.Int, neg bool) {
	var hi, lo uint64
	switch nd.Choice(n+".size", 4) {
	case 0:
		lo = nd.U64(n + ".lo")
		nd.Assume(lo != 0)
	case 1:
		hi = nd.U64(n + ".hi")
		nd.Assume(hi != 0 && hi>>63 == 0)
	case 2:
		hi, lo = nd.U64(n+".hi"), nd.U64(n+".lo")
		nd.Assume(hi != 0 && hi>>63 == 0)
		nd.Assume(lo != 0)
	case 3:
		if nd.Choice(n+".min", 2) == 0 {
			return nd128.MkI128(0, 0), bigU(0, 0), false
		}
		return nd128.MkI128(math.MinInt64, 0), bigU(1<<63, 0), true
	}
	mag = bigU(hi, lo)
	if nd.Choice(n+".neg", 2) == 0 {
		return nd128.MkI128(int64(hi), lo), mag, false
	}
	if lo == 0 {
		return nd128.MkI128(int64(-hi), 0), mag, true
	}
	return nd128.MkI128(int64(^hi), -lo), mag, true
}

// isSigned asserts that r is the magnitude m (below 2^128) with a sign, modulo
// 2^128.
func isSigned(r gost.I128, m *big.Int, neg bool) bool {
	h, l := nd128.SplitI128(r)
	mh, ml := low128(m)
	if !neg {
		return uint64(h) == mh && l == ml
	}
	return l == -ml && (ml == 0 && uint64(h) == -mh || ml != 0 && uint64(h) == ^mh)
}

func H_C08_DivI128() {
	a, x, na := operandI("a")
	b, y, nb := operandI("b")
	nd.Assume(y.Sign() != 0)
	nd.Assert(isSigned(a.Div(b), new(big.Int).Quo(x, y), na != nb), "I128.Div: must truncate toward zero")
}
func H_C08_RemI128() {
	a, x, _ := operandI("a")
	b, y, _ := operandI("b")
	nd.Assume(y.Sign() != 0)
	r := a.Rem(b)
	m := new(big.Int).Rem(x, y)
	nd.Assert(isSigned(r, m, false) || isSigned(r, m, true), "I128.Rem: magnitude must be that of the remainder")
}

// H_C08_MulI128 takes the product of the magnitudes from U128.Mul, which
// H_C08_MulU128 decides for every pair of values.
func H_C08_MulI128() {
	a, x, na := operandI("a")
	b, y, nb := operandI("b")
	xh, xl := low128(x)
	yh, yl := low128(y)
	m := bigU128(nd128.MkU128(xh, xl).Mul(nd128.MkU128(yh, yl)))
	nd.Assert(isSigned(a.Mul(b), m, na != nb), "I128.Mul: must be the product modulo 2^128")
}

package h

import (
	"math/big"

	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// ---- C02 saturating ----
type satOps[T any] interface {
	anyint
	SaturatingAdd(T) T
	SaturatingSub(T) T
	SaturatingMul(T) T
	SaturatingDiv(T) T
}

func satAdd[T satOps[T]](t ty[T]) {
	a, b := t.in("a"), t.in("b")
	t.saturated(a.SaturatingAdd(b), badd(t.big(a), t.big(b)), "SaturatingAdd")
}
func satSub[T satOps[T]](t ty[T]) {
	a, b := t.in("a"), t.in("b")
	t.saturated(a.SaturatingSub(b), bsub(t.big(a), t.big(b)), "SaturatingSub")
}
func satMul[T satOps[T]](t ty[T]) {
	a, b := t.in("a"), t.in("b")
	r := a.SaturatingMul(b)
	nd.Observe("r", r)
	switch {
	case t.prodFits(a, b):
		nd.Assert(r == a*b, "SaturatingMul: representable product must be exact")
	case (a < 0) != (b < 0):
		nd.Assert(r == t.min(), "SaturatingMul: must clamp to MIN")
	default:
		nd.Assert(r == t.max(), "SaturatingMul: must clamp to MAX")
	}
}
func satDiv[T satOps[T]](t ty[T]) {
	a, b := t.in("a"), t.in("b")
	nd.Assume(b != 0)
	r := a.SaturatingDiv(b)
	nd.Observe("r", r)
	if t.minByMinus1(a, b) {
		nd.Assert(r == t.max(), "SaturatingDiv: MIN / -1 must clamp to MAX")
		return
	}
	nd.Assert(r == a/b, "SaturatingDiv: must be the truncated quotient")
}

// ---- C03 wrapping ----
type wrapOps[T any] interface {
	anyint
	WrappingAdd(T) T
	WrappingSub(T) T
	WrappingMul(T) T
	WrappingDiv(T) T
}

func wrapping[T wrapOps[T]](t ty[T]) {
	a, b := t.in("a"), t.in("b")
	s, d, p := a.WrappingAdd(b), a.WrappingSub(b), a.WrappingMul(b)
	nd.Observe("sum", s)
	nd.Observe("difference", d)
	nd.Observe("product", p)
	// the operators of the language are arithmetic modulo 2^N
	nd.Assert(s == a+b, "WrappingAdd: must be the sum modulo 2^N")
	nd.Assert(d == a-b, "WrappingSub: must be the difference modulo 2^N")
	nd.Assert(p == a*b, "WrappingMul: must be the product modulo 2^N")
	if b != 0 {
		q := a.WrappingDiv(b)
		nd.Observe("quotient", q)
		if t.minByMinus1(a, b) {
			nd.Assert(q == t.min(), "WrappingDiv: MIN / -1 must wrap to MIN")
		} else {
			nd.Assert(q == a/b, "WrappingDiv: must be the truncated quotient")
		}
	}
}

// ---- C04 operators and assigning forms ----
type opOps[T any] interface {
	Add(T) T
	Sub(T) T
	Mul(T) T
	Div(T) T
}
type asgOps[T any, P any] interface {
	*T
	AddAssign(T)
	SubAssign(T)
	MulAssign(T)
	DivAssign(T)
}
type iops[T any] interface {
	anyint
	opOps[T]
	Rem(T) T
}
type iasg[T any] interface {
	asgOps[T, T]
	RemAssign(T)
}

func operators[T iops[T], P iasg[T]](t ty[T]) {
	a, b := t.in("a"), t.in("b")
	nd.Observe("sum", a.Add(b))
	nd.Observe("difference", a.Sub(b))
	nd.Observe("product", a.Mul(b))
	nd.Assert(a.Add(b) == a+b, "Add: must agree with +")
	nd.Assert(a.Sub(b) == a-b, "Sub: must agree with -")
	nd.Assert(a.Mul(b) == a*b, "Mul: must agree with *")
	x := a
	P(&x).AddAssign(b)
	nd.Assert(x == a.Add(b), "AddAssign: must store Add")
	x = a
	P(&x).SubAssign(b)
	nd.Assert(x == a.Sub(b), "SubAssign: must store Sub")
	x = a
	P(&x).MulAssign(b)
	nd.Assert(x == a.Mul(b), "MulAssign: must store Mul")
	if b == 0 {
		return
	}
	nd.Observe("quotient", a.Div(b))
	nd.Observe("remainder", a.Rem(b))
	nd.Assert(a.Div(b) == a/b, "Div: must agree with /")
	nd.Assert(a.Rem(b) == a%b, "Rem: must agree with %")
	x = a
	P(&x).DivAssign(b)
	nd.Assert(x == a.Div(b), "DivAssign: must store Div")
	x = a
	P(&x).RemAssign(b)
	nd.Assert(x == a.Rem(b), "RemAssign: must store Rem")
}

type negOps[T any] interface {
	sint
	Neg(T) T
}

func negation[T negOps[T]](t ty[T]) {
	a, b := t.in("a"), t.in("b")
	nd.Observe("neg", a.Neg(b))
	nd.Assert(a.Neg(b) == -a, "Neg: must be the negation of the receiver")
}

type scalar interface {
	~byte | ~rune | ~float32 | ~float64 | ~complex64 | ~complex128
}
type sops[T any] interface {
	scalar
	opOps[T]
}
type sasg[T any] interface{ asgOps[T, T] }

// same is equality of values in which a NaN is the same as a NaN.
func same[T comparable](a, b T) bool { return a == b || (a != a && b != b) }

// scalars checks the four operators of a non-integer-typed scalar; div tells
// whether b may divide.
func scalars[T sops[T], P sasg[T]](a, b T, div bool) {
	nd.Assert(same(a.Add(b), a+b), "Add: must agree with +")
	nd.Assert(same(a.Sub(b), a-b), "Sub: must agree with -")
	nd.Assert(same(a.Mul(b), a*b), "Mul: must agree with *")
	x := a
	P(&x).AddAssign(b)
	nd.Assert(same(x, a.Add(b)), "AddAssign: must store Add")
	x = a
	P(&x).SubAssign(b)
	nd.Assert(same(x, a.Sub(b)), "SubAssign: must store Sub")
	x = a
	P(&x).MulAssign(b)
	nd.Assert(same(x, a.Mul(b)), "MulAssign: must store Mul")
	if div {
		nd.Assert(same(a.Div(b), a/b), "Div: must agree with /")
		x = a
		P(&x).DivAssign(b)
		nd.Assert(same(x, a.Div(b)), "DivAssign: must store Div")
	}
}

func H_C04_Byte() {
	a, b := gost.Byte(nd.U8("a")), gost.Byte(nd.U8("b"))
	scalars[gost.Byte](a, b, b != 0)
}
func H_C04_Char() {
	a, b := gost.Char(nd.I32("a")), gost.Char(nd.I32("b"))
	scalars[gost.Char](a, b, b != 0)
}
func H_C04_F32() { scalars(gost.F32(nd.F32("a")), gost.F32(nd.F32("b")), true) }
func H_C04_F64() { scalars(gost.F64(nd.F64("a")), gost.F64(nd.F64("b")), true) }

func sameC64(a, b complex64) bool {
	return same(real(a), real(b)) && same(imag(a), imag(b))
}
func sameC128(a, b complex128) bool {
	return same(real(a), real(b)) && same(imag(a), imag(b))
}

func H_C04_Complex64() {
	a := gost.Complex64(complex(nd.F32("ar"), nd.F32("ai")))
	b := gost.Complex64(complex(nd.F32("br"), nd.F32("bi")))
	ra, rb := complex64(a), complex64(b)
	nd.Assert(sameC64(complex64(a.Add(b)), ra+rb), "Add: must agree with +")
	nd.Assert(sameC64(complex64(a.Sub(b)), ra-rb), "Sub: must agree with -")
	nd.Assert(sameC64(complex64(a.Mul(b)), ra*rb), "Mul: must agree with *")
	x := a
	x.AddAssign(b)
	nd.Assert(sameC64(complex64(x), complex64(a.Add(b))), "AddAssign: must store Add")
	x = a
	x.SubAssign(b)
	nd.Assert(sameC64(complex64(x), complex64(a.Sub(b))), "SubAssign: must store Sub")
	x = a
	x.MulAssign(b)
	nd.Assert(sameC64(complex64(x), complex64(a.Mul(b))), "MulAssign: must store Mul")
}
func H_C04_Complex128() {
	a := gost.Complex128(complex(nd.F64("ar"), nd.F64("ai")))
	b := gost.Complex128(complex(nd.F64("br"), nd.F64("bi")))
	ra, rb := complex128(a), complex128(b)
	nd.Assert(sameC128(complex128(a.Add(b)), ra+rb), "Add: must agree with +")
	nd.Assert(sameC128(complex128(a.Sub(b)), ra-rb), "Sub: must agree with -")
	nd.Assert(sameC128(complex128(a.Mul(b)), ra*rb), "Mul: must agree with *")
	x := a
	x.AddAssign(b)
	nd.Assert(sameC128(complex128(x), complex128(a.Add(b))), "AddAssign: must store Add")
	x = a
	x.SubAssign(b)
	nd.Assert(sameC128(complex128(x), complex128(a.Sub(b))), "SubAssign: must store Sub")
	x = a
	x.MulAssign(b)
	nd.Assert(sameC128(complex128(x), complex128(a.Mul(b))), "MulAssign: must store Mul")
}

// complex division, over the Gaussian integers -2..2 as operands
func H_C04_ComplexDiv() {
	small := func(n string) float64 { return float64(nd.Choice(n, 5) - 2) }
	p, q, r, s := small("ar"), small("ai"), small("br"), small("bi")
	nd.Bound("complex division over Gaussian integers with parts in -2..2")
	a, b := gost.Complex128(complex(p, q)), gost.Complex128(complex(r, s))
	nd.Assert(sameC128(complex128(a.Div(b)), complex128(a)/complex128(b)), "Complex128.Div: must agree with /")
	x := a
	x.DivAssign(b)
	nd.Assert(sameC128(complex128(x), complex128(a.Div(b))), "Complex128.DivAssign: must store Div")
	c, d := gost.Complex64(complex64(a)), gost.Complex64(complex64(b))
	nd.Assert(sameC64(complex64(c.Div(d)), complex64(c)/complex64(d)), "Complex64.Div: must agree with /")
	y := c
	y.DivAssign(d)
	nd.Assert(sameC64(complex64(y), complex64(c.Div(d))), "Complex64.DivAssign: must store Div")
}

func H_C04_String() {
	n := nd.Tier(3, 5)
	a, b := anyStr("a", n), anyStr("b", n)
	nd.Bound("strings up to 3 bytes (quick), 5 bytes (thorough)")
	nd.Assert(string(gost.String(a).Add(gost.String(b))) == a+b, "String.Add: must concatenate")
	x := gost.String(a)
	x.AddAssign(gost.String(b))
	nd.Observe("x", string(x))
	nd.Assert(string(x) == a+b, "String.AddAssign: must concatenate")
}

func H_C04_AssignU128() {
	a, b := inU128("a"), inU128("b")
	x := a
	x.AddAssign(b)
	nd.Assert(eqU128(x, a.Add(b)), "U128.AddAssign: must store Add")
	x = a
	x.SubAssign(b)
	nd.Assert(eqU128(x, a.Sub(b)), "U128.SubAssign: must store Sub")
}
func H_C04_AssignI128() {
	a, b := inI128("a"), inI128("b")
	x := a
	x.AddAssign(b)
	nd.Assert(eqI128(x, a.Add(b)), "I128.AddAssign: must store Add")
	x = a
	x.SubAssign(b)
	nd.Assert(eqI128(x, a.Sub(b)), "I128.SubAssign: must store Sub")
}

func H_C04_AssignMulDivU128() {
	a, b := operand("a"), operand("b")
	x := a
	x.MulAssign(b)
	nd.Assert(eqU128(x, a.Mul(b)), "U128.MulAssign: must store Mul")
	nd.Assume(bigU128(b).Sign() != 0)
	x = a
	x.DivAssign(b)
	nd.Assert(eqU128(x, a.Div(b)), "U128.DivAssign: must store Div")
	x = a
	x.RemAssign(b)
	nd.Assert(eqU128(x, a.Rem(b)), "U128.RemAssign: must store Rem")
}
func H_C04_AssignMulDivI128() {
	a, _, _ := operandI("a")
	b, y, _ := operandI("b")
	x := a
	x.MulAssign(b)
	nd.Assert(eqI128(x, a.Mul(b)), "I128.MulAssign: must store Mul")
	nd.Assume(y.Sign() != 0)
	x = a
	x.DivAssign(b)
	nd.Assert(eqI128(x, a.Div(b)), "I128.DivAssign: must store Div")
	x = a
	x.RemAssign(b)
	nd.Assert(eqI128(x, a.Rem(b)), "I128.RemAssign: must store Rem")
}

// ---- C05 ----
type absOps[T any] interface {
	sint
	Abs() T
	IsPositive() gost.Bool
	IsNegative() gost.Bool
}

func absolute[T absOps[T]](t ty[T]) {
	a := t.in("a")
	e := a
	if a < 0 {
		e = -a
	}
	nd.Observe("abs", a.Abs())
	nd.Assert(a.Abs() == e, "Abs: must be the magnitude modulo 2^N")
	nd.Assert(bool(a.IsPositive()) == (a > 0), "IsPositive: must hold exactly above zero")
	nd.Assert(bool(a.IsNegative()) == (a < 0), "IsNegative: must hold exactly below zero")
}

type diffOps[T, U any] interface {
	anyint
	AbsDiff(T) U
}

func absDiff[T diffOps[T, U], U anyint](t ty[T], u ty[U]) {
	a, b := t.in("a"), t.in("b")
	var e *big.Int
	if a > b {
		e = bsub(t.big(a), t.big(b))
	} else {
		e = bsub(t.big(b), t.big(a))
	}
	r := a.AbsDiff(b)
	nd.Observe("r", r)
	nd.Assert(u.is(r, e), "AbsDiff: must be the exact distance")
}

type powOps[T any] interface {
	anyint
	Pow(gost.U32) T
}

func pow[T powOps[T]](t ty[T]) {
	a := t.in("a")
	n := nd.Choice("exp", nd.Tier(9, 17))
	nd.Bound("exponents 0..8 (quick), 0..16 (thorough), every base")
	var e T = 1
	for i := 0; i < n; i++ {
		e *= a
	}
	r := a.Pow(gost.U32(n))
	nd.Observe("r", r)
	nd.Assert(r == e, "Pow: must be the n-fold product modulo 2^N")
}

var powExps = []uint32{17, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 255, 256, 257, 1000, 4095, 65535, 65536, 65537, 1 << 24, 1<<31 - 1, 1 << 31, 1<<31 + 1, 3000000019, 1<<32 - 2, 1<<32 - 1}

// powLaw checks chosen large exponents.
func powLaw[T powOps[T]](t ty[T]) {
	a := t.in("a")
	e := uint32(0)
	if k := nd.Choice("exp", len(powExps)+nd.Tier(64, 512)); k < len(powExps) {
		e = powExps[k]
	} else {
		e = uint32(k - len(powExps))
	}
	nd.Bound("every base; exponents below 64 (thorough: 512) and 26 chosen ones up to 2^32-1: square-and-multiply reference")
	var ref T = 1
	base := a
	for i := 0; i < 32; i++ {
		if e>>uint(i)&1 == 1 {
			ref *= base
		}
		if e>>uint(i) > 1 {
			base *= base
		}
	}
	r := a.Pow(gost.U32(e))
	nd.Assert(r == ref, "Pow: must be the n-fold product modulo 2^N (large exponent)")
}

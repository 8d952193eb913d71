package h

import (
	"math"

	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// ---- C11 ----

// The floats at which the math library's own values are computed, next to the
// case of an arbitrary float, for which the library's transcendental functions
// are uninterpreted.
var floats = []float64{0.3, -2.5, 7.0001, 1e-3, 12345.678, 1.0000001, 0.9999, 64, -1, 1e-310, 3e38}

func anyF32(n string) (gost.F32, float64) {
	k := nd.Choice(n+".at", len(floats)+1)
	v := nd.F32(n)
	if k > 0 {
		v = float32(floats[k-1])
	}
	return gost.F32(v), float64(v)
}
func anyF64(n string) (gost.F64, float64) {
	k := nd.Choice(n+".at", len(floats)+1)
	v := nd.F64(n)
	if k > 0 {
		v = floats[k-1]
	}
	return gost.F64(v), v
}

// is32: r is w rounded to single precision, down to the sign of a zero.
func is32(r gost.F32, w float64) bool { return nd.SameF32(float32(r), float32(w)) }
func is64(r gost.F64, w float64) bool { return nd.SameF64(float64(r), w) }

func H_C11_F32_Round() {
	v := nd.F32("a")
	a, x := gost.F32(v), float64(v)
	nd.Assert(is32(a.Floor(), math.Floor(x)), "F32.Floor: must be the largest integer not above the value")
	nd.Assert(is32(a.Ceil(), math.Ceil(x)), "F32.Ceil: must be the smallest integer not below the value")
	nd.Assert(is32(a.Round(), math.Round(x)), "F32.Round: must be the nearest integer, halves away from zero")
	nd.Assert(is32(a.Trunc(), math.Trunc(x)), "F32.Trunc: must be the integer part")
}
func H_C11_F64_Round() {
	x := nd.F64("a")
	a := gost.F64(x)
	nd.Assert(is64(a.Floor(), math.Floor(x)), "F64.Floor: must be the largest integer not above the value")
	nd.Assert(is64(a.Ceil(), math.Ceil(x)), "F64.Ceil: must be the smallest integer not below the value")
	nd.Assert(is64(a.Round(), math.Round(x)), "F64.Round: must be the nearest integer, halves away from zero")
	nd.Assert(is64(a.Trunc(), math.Trunc(x)), "F64.Trunc: must be the integer part")
}
func H_C11_F32_Exact() {
	v := nd.F32("a")
	a, x := gost.F32(v), float64(v)
	nd.Assert(is32(a.Abs(), math.Abs(x)), "F32.Abs: must be the magnitude")
	nd.Assert(is32(a.Sqrt(), math.Sqrt(x)), "F32.Sqrt: must be the correctly rounded square root")
	nd.Assume(x-x == 0)
	// exact, so that Trunc + Frac is the value
	nd.Assert(float32(a.Frac()) == float32(x-math.Trunc(x)), "F32.Frac: must be the fractional part")
}
func H_C11_F64_Exact() {
	x := nd.F64("a")
	a := gost.F64(x)
	nd.Assert(is64(a.Abs(), math.Abs(x)), "F64.Abs: must be the magnitude")
	nd.Assert(is64(a.Sqrt(), math.Sqrt(x)), "F64.Sqrt: must be the correctly rounded square root")
	nd.Assume(x-x == 0)
	nd.Assert(float64(a.Frac()) == x-math.Trunc(x), "F64.Frac: must be the fractional part")
}
func H_C11_F32_Math() {
	a, x := anyF32("a")
	nd.Assert(is32(a.Exp(), math.Exp(x)), "F32.Exp: must be the math library's value")
	nd.Assert(is32(a.Exp2(), math.Exp2(x)), "F32.Exp2: must be the math library's value")
	nd.Assert(is32(a.Ln(), math.Log(x)), "F32.Ln: must be the math library's value")
	nd.Assert(is32(a.Log2(), math.Log2(x)), "F32.Log2: must be the math library's value")
	nd.Assert(is32(a.Log10(), math.Log10(x)), "F32.Log10: must be the math library's value")
}
func H_C11_F64_Math() {
	a, x := anyF64("a")
	nd.Assert(is64(a.Exp(), math.Exp(x)), "F64.Exp: must be the math library's value")
	nd.Assert(is64(a.Exp2(), math.Exp2(x)), "F64.Exp2: must be the math library's value")
	nd.Assert(is64(a.Ln(), math.Log(x)), "F64.Ln: must be the math library's value")
	nd.Assert(is64(a.Log2(), math.Log2(x)), "F64.Log2: must be the math library's value")
	nd.Assert(is64(a.Log10(), math.Log10(x)), "F64.Log10: must be the math library's value")
}
func H_C11_F32_Two() {
	a, x := anyF32("a")
	b, y := anyF32("b")
	nd.Assert(is32(a.Powf(b), math.Pow(x, y)), "F32.Powf: must be the math library's value")
	nd.Assert(is32(a.Log(b), math.Log(x)/math.Log(y)), "F32.Log: must be the quotient of the math library's logarithms")
}
func H_C11_F64_Two() {
	a, x := anyF64("a")
	b, y := anyF64("b")
	nd.Assert(is64(a.Powf(b), math.Pow(x, y)), "F64.Powf: must be the math library's value")
	nd.Assert(is64(a.Log(b), math.Log(x)/math.Log(y)), "F64.Log: must be the quotient of the math library's logarithms")
}

var exponents = []int{0, 1, 2, 3, -1, -2, 5, 16, -7, 127, 1000, 1<<24 + 1, -(1<<24 + 1), 1<<31 + 3}

func anyExp(name string) int {
	k := nd.Choice(name+".at", len(exponents)+1)
	n := nd.Int(name)
	if k > 0 {
		n = exponents[k-1]
	}
	return n
}
func H_C11_F32_Powi() {
	a, x := anyF32("a")
	n := anyExp("n")
	nd.Assert(is32(a.Powi(n), math.Pow(x, float64(n))), "F32.Powi: must be the math library's power")
}
func H_C11_F64_Powi() {
	a, x := anyF64("a")
	n := anyExp("n")
	nd.Assert(is64(a.Powi(n), math.Pow(x, float64(n))), "F64.Powi: must be the math library's power")
}

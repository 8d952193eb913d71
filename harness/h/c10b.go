package h

import (
	"math/bits"
	"strconv"

	"github.com/myyrakle/gost"
	"gostverif/nd"
	"gostverif/nd128"
)

// Concrete 128-bit values, for implementations whose formulas are beyond the
// solvers.

type wide struct{ hi, lo uint64 }

func (a wide) plus(b wide) wide {
	lo, c := bits.Add64(a.lo, b.lo, 0)
	hi, _ := bits.Add64(a.hi, b.hi, c)
	return wide{hi, lo}
}
func (a wide) minus(b wide) wide {
	lo, c := bits.Sub64(a.lo, b.lo, 0)
	hi, _ := bits.Sub64(a.hi, b.hi, c)
	return wide{hi, lo}
}
func (a wide) times(b wide) wide {
	hi, lo := bits.Mul64(a.lo, b.lo)
	return wide{hi + a.hi*b.lo + a.lo*b.hi, lo}
}
func (a wide) less(b wide) bool { return a.hi < b.hi || a.hi == b.hi && a.lo < b.lo }
func (a wide) shl(n uint) wide {
	if n >= 64 {
		return wide{a.lo << (n - 64), 0}
	}
	return wide{a.hi<<n | a.lo>>(64-n), a.lo << n}
}

// by is the quotient and the remainder.
func (a wide) by(b wide) (q, r wide) {
	if b.hi == 0 {
		hi := a.hi / b.lo
		lo, rem := bits.Div64(a.hi%b.lo, a.lo, b.lo)
		return wide{hi, lo}, wide{0, rem}
	}
	r = a
	for i := bits.LeadingZeros64(b.hi); i >= 0; i-- {
		if d := b.shl(uint(i)); !r.less(d) {
			r = r.minus(d)
			q = q.plus(wide{0, 1}.shl(uint(i)))
		}
	}
	return q, r
}

// digits is the decimal text.
func (a wide) digits() string {
	var s []byte
	for a.hi != 0 || a.lo != 0 || s == nil {
		var r wide
		a, r = a.by(wide{0, 10})
		s = append(s, '0'+byte(r.lo))
	}
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
	return string(s)
}

// listed are values around the powers of ten and two and some in between;
// part chooses a fourth of them.
func listed(part int) []wide {
	one := wide{0, 1}
	var r []wide
	p := one
	for i := 0; i < 39; i++ {
		if i%4 == part {
			r = append(r, p.minus(one), p, p.plus(one), p.plus(wide{0, 9}), p.shl(1).plus(wide{0, 5}))
		}
		p = p.times(wide{0, 10})
	}
	for i := uint(0); i < 128; i++ {
		if int(i/3)%4 == part {
			r = append(r, one.shl(i).minus(one), one.shl(i), one.shl(i).plus(one))
		}
	}
	x := wide{0x9E3779B97F4A7C15, 0xF39CC0605CEDC834}
	for i := 0; i < 12; i++ {
		x = x.times(wide{uint64(part), 0xBF58476D1CE4E5B9}).plus(wide{7, uint64(i)})
		r = append(r, x, wide{x.lo, 0}, wide{1, x.lo}, wide{0, x.hi})
	}
	return r
}

func H_C10_Listed128() {
	nd.NoMerge()
	nd.Bound("about 700 listed 128-bit values: next to the powers of ten and of two, multiples of 2^64, and some in between, of both signs")
	zero := wide{}
	sub := nd.Choice("sub", 8)
	for k, v := range listed(nd.Choice("part", 4)) {
		if k%8 != sub {
			continue
		}
		u := nd128.MkU128(v.hi, v.lo)
		want := v.digits()
		nd.Assert(string(u.ToString()) == want && string(u.Display()) == want, "U128.ToString: must be the canonical decimal text of a listed value")
		i := nd128.MkI128(int64(v.hi), v.lo)
		if v.hi>>63 == 1 {
			want = "-" + zero.minus(v).digits()
		}
		nd.Assert(string(i.ToString()) == want && string(i.Display()) == want, "I128.ToString: must be the canonical decimal text of a listed value")
		n := zero.minus(v)
		i = nd128.MkI128(int64(n.hi), n.lo)
		want = n.digits()
		if n.hi>>63 == 1 {
			want = "-" + v.digits()
		}
		nd.Assert(string(i.ToString()) == want && string(i.Display()) == want, "I128.ToString: must be the canonical decimal text of a listed value")
	}
}

func intListed[T textOps[T]](t ty[T], v uint64) {
	x := T(v)
	var want string
	if t.signed {
		want = strconv.FormatInt(int64(x), 10)
	} else {
		want = strconv.FormatUint(uint64(x), 10)
	}
	nd.Assert(string(x.ToString()) == want && string(x.Display()) == want, "ToString: must be the canonical decimal text of a listed value")
}

func H_C10_Listed() {
	nd.NoMerge()
	nd.Bound("about 350 listed 64-bit values of both signs, and their low 8, 16 and 32 bits: texts and parsing")
	for _, w := range listed(nd.Choice("part", 4)) {
		if w.hi != 0 {
			continue
		}
		for _, v := range []uint64{w.lo, -w.lo} {
			intListed(tI8, v)
			intListed(tI16, v)
			intListed(tI32, v)
			intListed(tI64, v)
			intListed(tISize, v)
			intListed(tU8, v)
			intListed(tU16, v)
			intListed(tU32, v)
			intListed(tU64, v)
			intListed(tUSize, v)
			r := gost.String(strconv.FormatInt(int64(v), 10)).ParseI64()
			nd.Assert(bool(r.IsOk()) && uint64(r.Unwrap()) == v, "ParseI64: must give a listed value back")
			s := gost.String(strconv.FormatUint(v, 10)).ParseU64()
			nd.Assert(bool(s.IsOk()) && uint64(s.Unwrap()) == v, "ParseU64: must give a listed value back")
		}
	}
	for _, t := range []gost.String{"9223372036854775808", "-9223372036854775809", "18446744073709551616", "18446744073709551615", "99999999999999999999", "-99999999999999999999", "100000000000000000000", "340282366920938463463374607431768211456"} {
		nd.Assert(bool(t.ParseI64().IsErr()), "ParseI64: must reject a listed text out of range")
		nd.Assert(bool(t.ParseU64().IsErr()) == (t != "9223372036854775808" && t != "18446744073709551615"), "ParseU64: must reject a listed text exactly when out of range")
	}
}

// operands128 are values for multiplying and dividing.
func operands128() []wide {
	return []wide{
		{0, 0}, {0, 1}, {0, 2}, {0, 3}, {0, 7}, {0, 10}, {0, 0xFFFFFFFF}, {0, 1 << 32}, {0, 0x100000001},
		{0, 1<<63 - 1}, {0, 1 << 63}, {0, ^uint64(0) - 1}, {0, ^uint64(0)}, {1, 0}, {1, 1}, {1, ^uint64(0)}, {2, 0}, {0xFFFFFFFF, 0xFFFFFFFF00000000},
		{1 << 32, 0}, {0x9E3779B97F4A7C15, 0xF39CC0605CEDC834}, {0x1E3779B97F4A7C15, 0x739CC0605CEDC835}, {0, 0x9E3779B97F4A7C15}, {3, 0x739CC0605CEDC835},
		{1<<63 - 1, ^uint64(0)}, {1<<63 - 1, 0}, {1 << 63, 0}, {1 << 63, 1}, {1<<63 | 1, 0}, {^uint64(0), 0}, {^uint64(0), 1}, {^uint64(0), 1 << 63}, {^uint64(0), ^uint64(0) - 9}, {^uint64(0), ^uint64(0)},
	}
}

func isWideU(x gost.U128, w wide) bool {
	h, l := nd128.SplitU128(x)
	return h == w.hi && l == w.lo
}
func isWideI(x gost.I128, w wide) bool {
	h, l := nd128.SplitI128(x)
	return uint64(h) == w.hi && l == w.lo
}

func H_C08_Listed() {
	nd.NoMerge()
	nd.Bound("every pair out of 33 listed 128-bit operands: small ones, ones next to 2^32, 2^63, 2^64, 2^127 and 2^128, and some in between")
	v := operands128()
	a := v[nd.Choice("a", len(v))]
	mag := func(w wide) wide {
		if w.hi>>63 == 1 {
			return wide{}.minus(w)
		}
		return w
	}
	u, i := nd128.MkU128(a.hi, a.lo), nd128.MkI128(int64(a.hi), a.lo)
	for _, b := range v {
		x, y := nd128.MkU128(b.hi, b.lo), nd128.MkI128(int64(b.hi), b.lo)
		nd.Assert(isWideU(u.Mul(x), a.times(b)), "U128.Mul of listed operands: must be the product modulo 2^128")
		nd.Assert(isWideI(i.Mul(y), a.times(b)), "I128.Mul of listed operands: must be the product modulo 2^128")
		if (b == wide{}) {
			continue
		}
		q, r := a.by(b)
		nd.Assert(isWideU(u.Div(x), q) && isWideU(u.Rem(x), r), "U128.Div and Rem of listed operands: must be the quotient and the remainder")
		q, r = mag(a).by(mag(b))
		if a.hi>>63 != b.hi>>63 {
			q = wide{}.minus(q)
		}
		nd.Assert(isWideI(i.Div(y), q), "I128.Div of listed operands: must truncate toward zero")
		m := i.Rem(y)
		nd.Assert(isWideI(m, r) || isWideI(m, wide{}.minus(r)), "I128.Rem of listed operands: magnitude must be that of the remainder")
	}
}

package h

import (
	"math/big"

	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// signed and unsigned primitive-width integer types of gost
type sint interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64
}
type uint_ interface {
	~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}
type anyint interface{ sint | uint_ }

// per-type facts and input makers
type ty[T anyint] struct {
	bits   uint
	signed bool
	in     func(name string) T
}

var (
	tISize = ty[gost.ISize]{64, true, func(n string) gost.ISize { return gost.ISize(nd.I64(n)) }}
	tI8    = ty[gost.I8]{8, true, func(n string) gost.I8 { return gost.I8(nd.I8(n)) }}
	tI16   = ty[gost.I16]{16, true, func(n string) gost.I16 { return gost.I16(nd.I16(n)) }}
	tI32   = ty[gost.I32]{32, true, func(n string) gost.I32 { return gost.I32(nd.I32(n)) }}
	tI64   = ty[gost.I64]{64, true, func(n string) gost.I64 { return gost.I64(nd.I64(n)) }}
	tUSize = ty[gost.USize]{64, false, func(n string) gost.USize { return gost.USize(nd.U64(n)) }}
	tU8    = ty[gost.U8]{8, false, func(n string) gost.U8 { return gost.U8(nd.U8(n)) }}
	tU16   = ty[gost.U16]{16, false, func(n string) gost.U16 { return gost.U16(nd.U16(n)) }}
	tU32   = ty[gost.U32]{32, false, func(n string) gost.U32 { return gost.U32(nd.U32(n)) }}
	tU64   = ty[gost.U64]{64, false, func(n string) gost.U64 { return gost.U64(nd.U64(n)) }}
)

// big is the mathematical value of x.
func (t ty[T]) big(x T) *big.Int {
	if t.signed {
		return new(big.Int).SetInt64(int64(x))
	}
	return new(big.Int).SetUint64(uint64(x))
}
func (t ty[T]) min() T {
	if t.signed {
		var one T = 1
		return one << (t.bits - 1)
	}
	return 0
}
func (t ty[T]) max() T { return ^t.min() }

// fits: e is representable in T.
func (t ty[T]) fits(e *big.Int) bool {
	return e.Cmp(t.big(t.min())) >= 0 && e.Cmp(t.big(t.max())) <= 0
}
func (t ty[T]) is(r T, e *big.Int) bool { return t.big(r).Cmp(e) == 0 }

func badd(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func bsub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func bmul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }

// checked asserts r is Some(e) exactly when e is representable.
func (t ty[T]) checked(r gost.Option[T], e *big.Int, what string) {
	if t.fits(e) {
		nd.Assert(bool(r.IsSome()), what+": representable result must be Some")
		v := r.Unwrap()
		nd.Observe(what, v)
		nd.Assert(t.is(v, e), what+": value must be exact")
	} else {
		nd.Observe(what, bool(r.IsNone()))
		nd.Assert(bool(r.IsNone()), what+": unrepresentable result must be None")
	}
}

// saturated asserts r is e clamped to the type.
func (t ty[T]) saturated(r T, e *big.Int, what string) {
	nd.Observe(what, r)
	switch {
	case e.Cmp(t.big(t.min())) < 0:
		nd.Assert(r == t.min(), what+": must clamp to MIN")
	case e.Cmp(t.big(t.max())) > 0:
		nd.Assert(r == t.max(), what+": must clamp to MAX")
	default:
		nd.Assert(t.is(r, e), what+": representable result must be exact")
	}
}

// quorem is truncated division, by definition of the language on the
// magnitude of the type (b != 0, not MIN / -1).
func (t ty[T]) minByMinus1(a, b T) bool { return t.signed && a == t.min() && b == ^T(0) }

// prodFits: the product a*b is representable in T. The three formulations are
// equivalent by arithmetic (floor division); stating their equivalence gives
// the solver the lemma whichever one the code is written with.
func (t ty[T]) prodFits(a, b T) bool {
	if t.signed {
		ma, mb := t.mag(a), t.mag(b)
		if ma == 0 || mb == 0 {
			return true
		}
		lim := uint64(t.max())
		if (a < 0) != (b < 0) {
			f := ma <= (lim+1)/mb
			nd.Lemma(f == (mb <= (lim+1)/ma))
			return f
		}
		f := ma <= lim/mb
		nd.Lemma(f == (mb <= lim/ma))
		return f
	}
	ma, mb := uint64(a), uint64(b)
	if ma == 0 || mb == 0 {
		return true
	}
	lim := uint64(t.max())
	f := ma <= lim/mb
	nd.Lemma(f == (mb <= lim/ma))
	return f
}

// mag is |a|.
func (t ty[T]) mag(a T) uint64 {
	if a < 0 {
		a = -a
	}
	return uint64(a) & (1<<t.bits - 1)
}

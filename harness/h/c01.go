package h

import (
	"github.com/myyrakle/gost"
	"gostverif/nd"
)

type checkedOps[T any] interface {
	anyint
	CheckedAdd(T) gost.Option[T]
	CheckedSub(T) gost.Option[T]
	CheckedMul(T) gost.Option[T]
	CheckedDiv(T) gost.Option[T]
	CheckedRem(T) gost.Option[T]
}

func chkAdd[T checkedOps[T]](t ty[T]) {
	a, b := t.in("a"), t.in("b")
	t.checked(a.CheckedAdd(b), badd(t.big(a), t.big(b)), "CheckedAdd")
}
func chkSub[T checkedOps[T]](t ty[T]) {
	a, b := t.in("a"), t.in("b")
	t.checked(a.CheckedSub(b), bsub(t.big(a), t.big(b)), "CheckedSub")
}
func chkMul[T checkedOps[T]](t ty[T]) {
	a, b := t.in("a"), t.in("b")
	r := a.CheckedMul(b)
	fits := t.prodFits(a, b)
	nd.Observe("CheckedMul", bool(r.IsSome()))
	nd.Assert(bool(r.IsSome()) == fits, "CheckedMul: Some exactly when the product is representable")
	if r.IsSome() {
		// a representable product equals the product modulo 2^N
		nd.Assert(r.Unwrap() == a*b, "CheckedMul: value must be exact")
	}
}
func chkDiv[T checkedOps[T]](t ty[T]) {
	a, b := t.in("a"), t.in("b")
	r, s := a.CheckedDiv(b), a.CheckedRem(b)
	if b == 0 || t.minByMinus1(a, b) {
		nd.Assert(bool(r.IsNone()), "CheckedDiv: zero divisor and MIN/-1 must be None")
		nd.Assert(bool(s.IsNone()), "CheckedRem: zero divisor and MIN%-1 must be None")
		return
	}
	nd.Assert(bool(r.IsSome()), "CheckedDiv: must be Some")
	nd.Assert(bool(s.IsSome()), "CheckedRem: must be Some")
	q, m := r.Unwrap(), s.Unwrap()
	nd.Observe("q", q)
	nd.Observe("m", m)
	nd.Assert(q == a/b, "CheckedDiv: must be the truncated quotient")
	nd.Assert(m == a%b, "CheckedRem: must be the remainder of truncated division")
}

func chkAddSub[T checkedOps[T]](t ty[T]) { chkAdd(t); chkSub(t) }

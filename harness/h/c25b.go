package h

import (
	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// A copy of an option made by assignment is an option of its own: storing
// into one of them is not seen through the other.
func H_C25_Copies() {
	nd.Bound(boundOpt + "; a copy made by assignment, then one of Insert, GetOrInsert, GetOrInsertWith on an absent value, Take, Replace on either")
	o, some, x := opt("o")
	p := o
	a, b := &o, &p
	if nd.Choice("which", 2) == 1 {
		a, b = b, a
	}
	y := el("y")
	now, cur := true, y
	switch nd.Choice("op", 5) {
	case 0:
		r := a.Insert(y)
		nd.Assert(*r == y, "Insert: a reference to the value inserted")
	case 1:
		if some {
			cur = x
		}
		r := a.GetOrInsert(y)
		nd.Assert(*r == cur, "GetOrInsert: the value present, or the one inserted")
	case 2:
		if some {
			cur = x
		}
		r := a.GetOrInsertWith(func() gost.I32 { return y })
		nd.Assert(*r == cur, "GetOrInsertWith: the value present, or the one computed")
	case 3:
		optIs(a.Take(), some, x, "Take: what was there")
		now = false
	case 4:
		optIs(a.Replace(y), some, x, "Replace: what was there")
	}
	optIs(*a, now, cur, "what is stored")
	optIs(*b, some, x, "the copy keeps what it held")
}

// An option or result given to itself.
func H_C25_Self() {
	nd.Bound(boundOpt + "; Or, OrElse and Xor of an option and itself")
	o, some, x := opt("o")
	switch nd.Choice("what", 3) {
	case 0:
		optIs(o.Or(o), some, x, "Or of an option and itself")
	case 1:
		optIs(o.OrElse(func() gost.Option[gost.I32] { return o }), some, x, "OrElse of an option and itself")
	case 2:
		optIs(o.Xor(o), false, 0, "Xor of an option and itself")
	}
	optIs(o, some, x, "the receiver afterwards")
}

// Options which hold a nil interface are Some all the same.
func H_C25_NilAny() {
	nd.Bound("And, AndThen, Map, Filter, Or, Xor, Take, Replace, Insert, GetOrInsert and GetOrInsertWith with Some of a nil interface")
	o := gost.Some(gost.I32(el("x")))
	null := gost.Some[any](nil)
	isNull := func(p gost.Option[any], what string) {
		nd.Assert(bool(p.IsSome()) && p.Unwrap() == nil, what+": Some of nil")
	}
	none := gost.None[any]()
	switch nd.Choice("what", 12) {
	case 0:
		isNull(o.And(null), "And")
	case 1:
		isNull(o.AndThen(func(gost.I32) gost.Option[any] { return null }), "AndThen")
	case 2:
		isNull(gost.Some[any](1).Map(func(any) any { return nil }), "Map")
	case 3:
		isNull(null.Map(func(v any) any { return v }), "Map")
	case 4:
		isNull(null.Filter(func(v any) gost.Bool { return v == nil }), "Filter")
	case 5:
		isNull(null.Or(gost.Some[any](1)), "Or")
		isNull(none.Or(null), "Or")
	case 6:
		isNull(null.Xor(none), "Xor")
		isNull(none.Xor(null), "Xor")
		nd.Assert(bool(null.Xor(null).IsNone()), "Xor of two")
	case 7:
		isNull(null.Take(), "Take")
		nd.Assert(bool(null.IsNone()), "Take leaves None")
	case 8:
		p := gost.Some[any](1)
		nd.Assert(p.Replace(nil).Unwrap() == 1, "Replace")
		isNull(p, "Replace")
	case 9:
		nd.Assert(*none.Insert(nil) == nil, "Insert")
		isNull(none, "Insert")
	case 10:
		nd.Assert(*null.GetOrInsert(1) == nil, "GetOrInsert")
		isNull(null, "GetOrInsert")
	case 11:
		nd.Assert(*none.GetOrInsertWith(func() any { return nil }) == nil, "GetOrInsertWith")
		isNull(none, "GetOrInsertWith")
	}
	nd.Assert(null.UnwrapOr(1) == nil || bool(null.IsNone()), "UnwrapOr")
}

// The panics of Expect and Unwrap say what they were given.
func H_C25_Message() {
	nd.Bound("Expect of None with a message of 0..3 arbitrary bytes")
	m := nd.Str("m", nd.Choice("n", 4))
	text, panicked := caught(func() { gost.None[gost.I32]().Expect(m) })
	nd.Assert(panicked && text == m, "Expect: panics with its message")
}

func H_C26_Message() {
	nd.Bound("Expect of Err and ExpectErr of Ok with a message of 0..3 arbitrary bytes, Unwrap of Err")
	m := nd.Str("m", nd.Choice("n", 4))
	text, panicked := caught(func() { gost.Err[gost.I32](errR).Expect(m) })
	nd.Assert(panicked && text == m, "Expect: panics with its message")
	text, panicked = caught(func() { gost.Ok(el("x")).ExpectErr(m) })
	nd.Assert(panicked && text == m, "ExpectErr: panics with its message")
	var v any
	nd.Catch(func() {
		defer func() {
			v = recover()
			panic(v)
		}()
		gost.Err[gost.I32](errR).Unwrap()
	})
	nd.Assert(v == any(errR), "Unwrap: panics with the error")
}

// Functions which return a nil error.
func H_C26_NilErr() {
	nd.Bound(boundRes + "; MapErr and OrElse whose function returns a nil error, AndThen whose function returns Err(nil)")
	r, ok, x, e := res("r", errR)
	none := func(error) error { return nil }
	var q gost.Result[gost.I32]
	switch nd.Choice("what", 3) {
	case 0:
		q, e = r.MapErr(none), nil
	case 1:
		q, e = r.OrElse(func(error) gost.Result[gost.I32] { return gost.Err[gost.I32](nil) }), nil
	case 2:
		q = r.AndThen(func(gost.I32) gost.Result[gost.I32] { return gost.Err[gost.I32](nil) })
		if ok {
			ok, e = false, nil
		}
	}
	resultIs(q, ok, x, e, "an error which is nil")
}

// A result is a value: its methods leave it as it was, also when it is its
// own argument.
func H_C26_Self() {
	nd.Bound(boundRes + "; And, AndThen, Or and OrElse of a result and itself")
	r, ok, x, e := res("r", errR)
	var q gost.Result[gost.I32]
	switch nd.Choice("what", 4) {
	case 0:
		q = r.And(r)
	case 1:
		q = r.AndThen(func(gost.I32) gost.Result[gost.I32] { return r })
	case 2:
		q = r.Or(r)
	case 3:
		q = r.OrElse(func(error) gost.Result[gost.I32] { return r })
	}
	resultIs(q, ok, x, e, "a result and itself")
	resultIs(r, ok, x, e, "the receiver afterwards")
}

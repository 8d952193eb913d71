package h

import (
	"errors"

	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// opt is an arbitrary Option[I32]: None or Some of an arbitrary value.
func opt(name string) (gost.Option[gost.I32], bool, gost.I32) {
	if nd.Choice(name+".some", 2) == 0 {
		return gost.None[gost.I32](), false, 0
	}
	x := el(name)
	return gost.Some(x), true, x
}

func anyIs(o gost.Option[any], some bool, want gost.I32, what string) {
	nd.Assert(bool(o.IsSome()) == some && bool(o.IsNone()) == !some, what+": Some or None")
	if some {
		v, ok := o.Unwrap().(gost.I32)
		nd.Assert(ok && v == want, what+": value")
	}
}

func called(n int, want bool, what string) {
	k := 0
	if want {
		k = 1
	}
	nd.Assert(n == k, what+": the function is called exactly when the case requires it")
}

const boundOpt = "None and Some of every value; functions return arbitrary values of their type"

func H_C25_Map() {
	nd.Bound(boundOpt)
	o, some, x := opt("o")
	r, d := el("r"), el("d")
	n, m := 0, 0
	f := func(y gost.I32) gost.I32 {
		n++
		nd.Assert(some && y == x, "the function receives the contained value")
		return r
	}
	g := func() gost.I32 { m++; return d }
	switch nd.Choice("what", 4) {
	case 0:
		optIs(o.Map(f), some, r, "Map")
		called(n, some, "Map")
	case 1:
		w := d
		if some {
			w = r
		}
		nd.Assert(o.MapOr(d, f) == w, "MapOr: the mapped value or the default")
		called(n, some, "MapOr")
	case 2:
		w := d
		if some {
			w = r
		}
		nd.Assert(o.MapOrElse(g, f) == w, "MapOrElse: the mapped value or the computed default")
		called(n, some, "MapOrElse")
		called(m, !some, "MapOrElse default")
	case 3:
		b := nd.Bool("b")
		got := o.IsSomeAnd(func(y gost.I32) gost.Bool { f(y); return gost.Bool(b) })
		nd.Assert(bool(got) == (some && b), "IsSomeAnd: Some and accepted")
		called(n, some, "IsSomeAnd")
	}
	optIs(o, some, x, "the receiver afterwards")
}

func H_C25_Logic() {
	nd.Bound(boundOpt)
	o, some, x := opt("o")
	p, some2, y := opt("p")
	n := 0
	switch nd.Choice("what", 6) {
	case 0:
		a := gost.None[any]()
		if some2 {
			a = gost.Some[any](y)
		}
		anyIs(o.And(a), some && some2, y, "And")
	case 1:
		r := o.AndThen(func(z gost.I32) gost.Option[any] {
			n++
			nd.Assert(some && z == x, "the function receives the contained value")
			if some2 {
				return gost.Some[any](y)
			}
			return gost.None[any]()
		})
		anyIs(r, some && some2, y, "AndThen")
		called(n, some, "AndThen")
	case 2:
		w := y
		if some {
			w = x
		}
		optIs(o.Or(p), some || some2, w, "Or")
	case 3:
		w := y
		if some {
			w = x
		}
		optIs(o.OrElse(func() gost.Option[gost.I32] { n++; return p }), some || some2, w, "OrElse")
		called(n, !some, "OrElse")
	case 4:
		w := y
		if some {
			w = x
		}
		optIs(o.Xor(p), some != some2, w, "Xor")
	case 5:
		b := nd.Bool("b")
		r := o.Filter(func(z gost.I32) gost.Bool {
			n++
			nd.Assert(some && z == x, "the function receives the contained value")
			return gost.Bool(b)
		})
		optIs(r, some && b, x, "Filter")
		called(n, some, "Filter")
	}
	optIs(o, some, x, "the receiver afterwards")
	optIs(p, some2, y, "the argument afterwards")
}

func H_C25_Unwrap() {
	nd.Bound(boundOpt)
	o, some, x := opt("o")
	d := el("d")
	w := d
	if some {
		w = x
	}
	n := 0
	switch nd.Choice("what", 4) {
	case 0:
		nd.Assert(o.UnwrapOr(d) == w, "UnwrapOr")
	case 1:
		nd.Assert(o.UnwrapOrElse(func() gost.I32 { n++; return d }) == w, "UnwrapOrElse")
		called(n, !some, "UnwrapOrElse")
	case 2:
		var got gost.I32
		p := nd.Catch(func() { got = o.Unwrap() })
		nd.Assert(p == !some, "Unwrap: panics exactly on None")
		nd.Assert(p || got == x, "Unwrap: the contained value")
	case 3:
		var got gost.I32
		p := nd.Catch(func() { got = o.Expect("missing") })
		nd.Assert(p == !some, "Expect: panics exactly on None")
		nd.Assert(p || got == x, "Expect: the contained value")
	}
	optIs(o, some, x, "the receiver afterwards")
}

// optStep applies one storing method to o, whose contents are (some, x).
func optStep(o *gost.Option[gost.I32], some bool, x gost.I32) (bool, gost.I32) {
	y := el("y")
	n := 0
	switch nd.Choice("op", 5) {
	case 0:
		p := o.Insert(y)
		nd.Assert(*p == y, "Insert: a reference to the value inserted")
		if nd.Choice("write", 2) == 1 {
			z := el("z")
			*p = z
			return true, z
		}
		return true, y
	case 1:
		p := o.GetOrInsert(y)
		if some {
			y = x
		}
		nd.Assert(*p == y, "GetOrInsert: the value present, or the one inserted")
		if nd.Choice("write", 2) == 1 {
			z := el("z")
			*p = z
			return true, z
		}
		return true, y
	case 2:
		p := o.GetOrInsertWith(func() gost.I32 { n++; return y })
		called(n, !some, "GetOrInsertWith")
		if some {
			y = x
		}
		nd.Assert(*p == y, "GetOrInsertWith: the value present, or the one computed")
		if nd.Choice("write", 2) == 1 {
			z := el("z")
			*p = z
			return true, z
		}
		return true, y
	case 3:
		t := o.Take()
		optIs(t, some, x, "Take: what was there")
		return false, 0
	}
	t := o.Replace(y)
	optIs(t, some, x, "Replace: what was there")
	return true, y
}

func H_C25_Store() {
	nd.Bound(boundOpt + "; histories of 2 (thorough: 3) of Insert, GetOrInsert, GetOrInsertWith, Take, Replace and writes through the returned reference")
	o, some, x := opt("o")
	for i := 0; i < nd.Tier(2, 3); i++ {
		some, x = optStep(&o, some, x)
		optIs(o, some, x, "what is stored")
	}
}

// a taken or replaced value does not follow later changes
func H_C25_Taken() {
	nd.Bound(boundOpt + "; the value handed out by Take or Replace, then one more storing method")
	o, some, x := opt("o")
	var t gost.Option[gost.I32]
	now, cur := false, gost.I32(0)
	if nd.Choice("how", 2) == 0 {
		t = o.Take()
	} else {
		y := el("new")
		t = o.Replace(y)
		now, cur = true, y
	}
	now, cur = optStep(&o, now, cur)
	optIs(o, now, cur, "what is stored")
	optIs(t, some, x, "what was handed out")
}

// pointers and interfaces as contained values
func H_C25_NilLike() {
	nd.Bound("Some of a nil pointer and of a nil interface")
	o := gost.Some[*gost.I32](nil)
	nd.Assert(bool(o.IsSome()) && o.Unwrap() == nil, "Some of a nil pointer is Some")
	nd.Assert(bool(o.Or(gost.None[*gost.I32]()).IsSome()), "Some of a nil pointer is Some")
	a := gost.Some[any](nil)
	nd.Assert(bool(a.IsSome()) && !bool(a.IsNone()), "Some of a nil interface is Some")
	r := gost.Ok[*gost.I32](nil)
	nd.Assert(bool(r.IsOk()) && r.Ok().IsSome() == true, "Ok of a nil pointer is Ok")
}

var errR, errS = errors.New("r"), errors.New("s")

// res is an arbitrary Result[I32].
func res(name string, e error) (gost.Result[gost.I32], bool, gost.I32, error) {
	switch nd.Choice(name+".case", 3) {
	case 0:
		x := el(name)
		return gost.Ok(x), true, x, nil
	case 1:
		return gost.Err[gost.I32](e), false, 0, e
	}
	return gost.Err[gost.I32](nil), false, 0, nil
}

func resultIs(r gost.Result[gost.I32], ok bool, x gost.I32, e error, what string) {
	nd.Assert(bool(r.IsOk()) == ok && bool(r.IsErr()) == !ok, what+": Ok or Err")
	if ok {
		nd.Assert(r.Unwrap() == x, what+": value")
	} else {
		nd.Assert(r.UnwrapErr() == e, what+": error")
	}
}

const boundRes = "Ok of every value, Err of an error and of nil; functions return arbitrary values of their type"

func H_C26_Map() {
	nd.Bound(boundRes)
	r, ok, x, e := res("r", errR)
	y, d := el("y"), el("d")
	b := nd.Bool("b")
	n, m := 0, 0
	f := func(z gost.I32) gost.I32 {
		n++
		nd.Assert(ok && z == x, "the function receives the contained value")
		return y
	}
	g := func() gost.I32 { m++; return d }
	h := func(z error) error {
		m++
		nd.Assert(!ok && z == e, "the function receives the contained error")
		return errS
	}
	w := d
	if ok {
		w = y
	}
	switch nd.Choice("what", 6) {
	case 0:
		resultIs(r.Map(f), ok, y, e, "Map")
		called(n, ok, "Map")
	case 1:
		nd.Assert(r.MapOr(d, f) == w, "MapOr: the mapped value or the default")
		called(n, ok, "MapOr")
	case 2:
		nd.Assert(r.MapOrElse(g, f) == w, "MapOrElse: the mapped value or the computed default")
		called(n, ok, "MapOrElse")
		called(m, !ok, "MapOrElse default")
	case 3:
		resultIs(r.MapErr(h), ok, x, errS, "MapErr")
		called(m, !ok, "MapErr")
	case 4:
		got := r.IsOkAnd(func(z gost.I32) gost.Bool { f(z); return gost.Bool(b) })
		nd.Assert(bool(got) == (ok && b), "IsOkAnd: Ok and accepted")
		called(n, ok, "IsOkAnd")
	case 5:
		got := r.IsErrAnd(func(z error) gost.Bool { h(z); return gost.Bool(b) })
		nd.Assert(bool(got) == (!ok && b), "IsErrAnd: Err and accepted")
		called(m, !ok, "IsErrAnd")
	}
	resultIs(r, ok, x, e, "the receiver afterwards")
}

func H_C26_Logic() {
	nd.Bound(boundRes)
	r, ok, x, e := res("r", errR)
	q, ok2, y, e2 := res("q", errS)
	n := 0
	switch nd.Choice("what", 4) {
	case 0, 1:
		var got gost.Result[gost.I32]
		name := "And"
		if nd.Choice("fn", 2) == 0 {
			got = r.And(q)
		} else {
			name = "AndThen"
			got = r.AndThen(func(z gost.I32) gost.Result[gost.I32] {
				n++
				nd.Assert(ok && z == x, "the function receives the contained value")
				return q
			})
			called(n, ok, "AndThen")
		}
		if ok {
			resultIs(got, ok2, y, e2, name)
		} else {
			resultIs(got, false, 0, e, name)
		}
	case 2, 3:
		var got gost.Result[gost.I32]
		name := "Or"
		if nd.Choice("fn", 2) == 0 {
			got = r.Or(q)
		} else {
			name = "OrElse"
			got = r.OrElse(func(z error) gost.Result[gost.I32] {
				n++
				nd.Assert(!ok && z == e, "the function receives the contained error")
				return q
			})
			called(n, !ok, "OrElse")
		}
		if ok {
			resultIs(got, true, x, nil, name)
		} else {
			resultIs(got, ok2, y, e2, name)
		}
	}
	resultIs(r, ok, x, e, "the receiver afterwards")
	resultIs(q, ok2, y, e2, "the argument afterwards")
}

func H_C26_Unwrap() {
	nd.Bound(boundRes)
	r, ok, x, e := res("r", errR)
	d := el("d")
	w := d
	if ok {
		w = x
	}
	n := 0
	var got gost.I32
	var gotE error
	switch nd.Choice("what", 8) {
	case 0:
		nd.Assert(r.UnwrapOr(d) == w, "UnwrapOr")
	case 1:
		nd.Assert(r.UnwrapOrElse(func() gost.I32 { n++; return d }) == w, "UnwrapOrElse")
		called(n, !ok, "UnwrapOrElse")
	case 2:
		p := nd.Catch(func() { got = r.Unwrap() })
		nd.Assert(p == !ok && (p || got == x), "Unwrap: the value, or a panic exactly on Err")
	case 3:
		p := nd.Catch(func() { got = r.Expect("m") })
		nd.Assert(p == !ok && (p || got == x), "Expect: the value, or a panic exactly on Err")
	case 4:
		p := nd.Catch(func() { gotE = r.UnwrapErr() })
		nd.Assert(p == ok && (p || gotE == e), "UnwrapErr: the error, or a panic exactly on Ok")
	case 5:
		p := nd.Catch(func() { gotE = r.ExpectErr("m") })
		nd.Assert(p == ok && (p || gotE == e), "ExpectErr: the error, or a panic exactly on Ok")
	case 6:
		optIs(r.Ok(), ok, x, "Ok")
	case 7:
		o := r.Err()
		nd.Assert(bool(o.IsSome()) == !ok, "Err: Some exactly on Err")
		nd.Assert(ok || o.Unwrap() == e, "Err: the error")
	}
	resultIs(r, ok, x, e, "the receiver afterwards")
}

// C27

func H_C27_Chain() {
	nd.Bound("chains of 1 to 4 (thorough: 6) conditions with every truth assignment and arbitrary branch values")
	n := 1 + nd.Choice("n", nd.Tier(4, 6))
	conds := make([]bool, n)
	vals := els("v", n+1)
	ran := make([]int, n+1)
	for i := range conds {
		conds[i] = nd.Choice("c", 2) == 1
	}
	br := func(i int) func() gost.I32 {
		return func() gost.I32 { ran[i]++; return vals[i] }
	}
	ctx := gost.If(gost.Bool(conds[0]), br(0))
	for i := 1; i < n; i++ {
		ctx = ctx.ElseIf(gost.Bool(conds[i]), br(i))
	}
	got := ctx.Else(br(n))
	first := n
	for i := n - 1; i >= 0; i-- {
		if conds[i] {
			first = i
		}
	}
	nd.Assert(got == vals[first], "the value of the first true branch")
	for i := range ran {
		w := 0
		if i == first {
			w = 1
		}
		nd.Assert(ran[i] == w, "exactly the selected branch is evaluated, once")
	}
}

// a chain prefix used twice
func H_C27_Shared() {
	nd.Bound("a chain of two conditions continued in two ways, every truth assignment")
	c0, c1, c2 := nd.Bool("c0"), nd.Bool("c1"), nd.Bool("c2")
	v := els("v", 5)
	f := func(i int) func() gost.I32 { return func() gost.I32 { return v[i] } }
	base := gost.If(gost.Bool(c0), f(0))
	left := base.ElseIf(gost.Bool(c1), f(1)).Else(f(2))
	right := base.ElseIf(gost.Bool(c2), f(3)).Else(f(4))
	wl, wr := v[2], v[4]
	if c1 {
		wl = v[1]
	}
	if c2 {
		wr = v[3]
	}
	if c0 {
		wl, wr = v[0], v[0]
	}
	nd.Assert(left == wl, "the first continuation")
	nd.Assert(right == wr, "the second continuation")
}

// results that are nil
func H_C27_Nil() {
	nd.Bound("chains of three conditions with every truth assignment, of interfaces, pointers and slices, any of the results nil")
	c := []bool{nd.Choice("c", 2) == 1, nd.Choice("c", 2) == 1, nd.Choice("c", 2) == 1}
	nils := []bool{nd.Choice("nil", 2) == 1, nd.Choice("nil", 2) == 1, nd.Choice("nil", 2) == 1, nd.Choice("nil", 2) == 1}
	ran := make([]int, 4)
	first := 3
	for i := 2; i >= 0; i-- {
		if c[i] {
			first = i
		}
	}
	switch nd.Choice("type", 3) {
	case 0:
		f := func(i int) func() any {
			return func() any {
				ran[i]++
				if nils[i] {
					return nil
				}
				return i
			}
		}
		r := gost.If(gost.Bool(c[0]), f(0)).ElseIf(gost.Bool(c[1]), f(1)).ElseIf(gost.Bool(c[2]), f(2)).Else(f(3))
		nd.Assert((r == nil) == nils[first] && (r == nil || r == any(first)), "the value of the first true branch, nil or not")
	case 1:
		v := make([]int, 4)
		f := func(i int) func() *int {
			return func() *int {
				ran[i]++
				if nils[i] {
					return nil
				}
				return &v[i]
			}
		}
		r := gost.If(gost.Bool(c[0]), f(0)).ElseIf(gost.Bool(c[1]), f(1)).ElseIf(gost.Bool(c[2]), f(2)).Else(f(3))
		nd.Assert((r == nil) == nils[first] && (r == nil || r == &v[first]), "the value of the first true branch, nil or not")
	case 2:
		f := func(i int) func() []int {
			return func() []int {
				ran[i]++
				if nils[i] {
					return nil
				}
				return []int{i}
			}
		}
		r := gost.If(gost.Bool(c[0]), f(0)).ElseIf(gost.Bool(c[1]), f(1)).ElseIf(gost.Bool(c[2]), f(2)).Else(f(3))
		nd.Assert((r == nil) == nils[first] && (r == nil || len(r) == 1 && r[0] == first), "the value of the first true branch, nil or not")
	}
	for i := range ran {
		nd.Assert((ran[i] == 1) == (i == first) && ran[i] <= 1, "exactly the selected branch is evaluated, once")
	}
}

func H_C27_Assert() {
	nd.Bound("every condition, with and without a message")
	b := nd.Bool("b")
	var p bool
	switch nd.Choice("args", 4) {
	case 0:
		p = nd.Catch(func() { gost.Assert(gost.Bool(b)) })
	case 1:
		p = nd.Catch(func() { gost.Assert(gost.Bool(b), "text") })
	case 2:
		p = nd.Catch(func() { gost.Assert(gost.Bool(b), gost.String("text")) })
	case 3:
		p = nd.Catch(func() { gost.Assert(gost.Bool(b), gost.I32(5)) })
	}
	nd.Assert(p == !b, "Assert panics exactly when the condition is false")
}

func assertPair[T gost.Eq[T]](a, b T, eq bool) {
	var args []any
	switch nd.Choice("args", 3) {
	case 1:
		args = append(args, "text")
	case 2:
		args = append(args, gost.String("text"))
	}
	if nd.Choice("ne", 2) == 0 {
		p := nd.Catch(func() { gost.AssertEq(a, b, args...) })
		nd.Assert(p == !eq, "AssertEq panics exactly when the values are unequal")
	} else {
		p := nd.Catch(func() { gost.AssertNe(a, b, args...) })
		nd.Assert(p == eq, "AssertNe panics exactly when the values are equal")
	}
}

// opaque is a value with arbitrary contents but a fixed text.
type opaque int32

func (a opaque) Eq(b opaque) gost.Bool { return a == b }
func (a opaque) Display() gost.String  { return "<opaque>" }
func (a opaque) Debug() gost.String    { return "<opaque>" }

func H_C27_AssertEq() {
	nd.Bound("every pair of 32-bit values, of Bool, of String of up to 1 byte (thorough: 2), of Vec of up to 2 elements; with and without a message")
	switch nd.Choice("type", 4) {
	case 0:
		a, b := opaque(nd.I32("a")), opaque(nd.I32("b"))
		assertPair(a, b, a == b)
	case 1:
		a := gost.String(nd.Str("s", nd.Choice("n", nd.Tier(2, 3))))
		b := gost.String(nd.Str("t", nd.Choice("m", nd.Tier(2, 3))))
		assertPair(a, b, a == b)
	case 2:
		v, w := gost.VecNew[opaque](), gost.VecNew[opaque]()
		n, m := nd.Choice("n", 3), nd.Choice("m", 3)
		eq := n == m
		var s []opaque
		for i := 0; i < n; i++ {
			x := opaque(nd.I32("v"))
			s = append(s, x)
			v.Push(x)
		}
		for i := 0; i < m; i++ {
			x := opaque(nd.I32("w"))
			if i < n {
				eq = eq && s[i] == x
			}
			w.Push(x)
		}
		assertPair(v, w, eq)
	case 3:
		a, b := gost.Bool(nd.Bool("p")), gost.Bool(nd.Bool("q"))
		assertPair(a, b, a == b)
	}
}

// caught is the text f panicked with.
func caught(f func()) (text string, panicked bool) {
	var v any
	panicked = nd.Catch(func() {
		defer func() {
			if v = recover(); v != nil {
				panic(v)
			}
		}()
		f()
	})
	switch t := v.(type) {
	case string:
		text = t
	case gost.String:
		text = string(t)
	case error:
		text = t.Error()
	}
	return
}

func H_C27_Message() {
	nd.Bound("messages around one or two strings of up to 2 arbitrary bytes")
	x := gost.String(nd.Str("x", nd.Choice("n", 3)))
	y := gost.String(nd.Str("y", 1))
	var f func(msg string, args ...any)
	pre := ""
	plain := nd.Choice("plain", 2) == 1
	give := func(msg string, args []any) []any {
		var first any = gost.String(msg)
		if plain {
			first = msg
		}
		return append([]any{first}, args...)
	}
	switch nd.Choice("what", 4) {
	case 0:
		f = func(msg string, args ...any) { gost.Panic(gost.String(msg), args...) }
	case 1:
		f = func(msg string, args ...any) { gost.Assert(false, give(msg, args)...) }
	case 2:
		pre = "assertion failed: 1 != 2\n>>> "
		f = func(msg string, args ...any) { gost.AssertEq(gost.I32(1), gost.I32(2), give(msg, args)...) }
	case 3:
		pre = "assertion failed: 3 == 3\n>>> "
		f = func(msg string, args ...any) { gost.AssertNe(gost.I32(3), gost.I32(3), give(msg, args)...) }
	}
	var text, want string
	var p bool
	switch nd.Choice("args", 6) {
	case 0:
		text, p = caught(func() { f("plain text") })
		want = "plain text"
	case 3:
		text, p = caught(func() { f("{{}} and {{braces}}") })
		want = "{} and {braces}"
	case 4:
		text, p = caught(func() { f("") })
	case 5:
		text, p = caught(func() { f("{{{}}}, {} of {}", x, y, gost.I32(3)) })
		want = "{" + string(x) + "}, " + string(y) + " of 3"
	case 1:
		text, p = caught(func() { f("got {}", x) })
		want = "got " + string(x)
	case 2:
		text, p = caught(func() { f("{}-{}.", x, y) })
		want = string(x) + "-" + string(y) + "."
	}
	nd.Assert(p, "must panic")
	nd.Assert(text == pre+want, "must panic with the message formatted with the arguments after it")
}

func H_C27_NoReturn() {
	nd.Bound("no message, or a message of up to 2 arbitrary bytes")
	x := gost.String(nd.Str("x", nd.Choice("n", 3)))
	var text, want string
	var p bool
	switch nd.Choice("what", 6) {
	case 0:
		text, p = caught(func() { gost.Todo() })
		want = "todo"
	case 1:
		text, p = caught(func() { gost.Unimplemented() })
		want = "not implemented"
	case 2:
		text, p = caught(func() { gost.Unreachable() })
		want = "unreachable"
	case 3:
		text, p = caught(func() { gost.Todo(x) })
		want = string(x)
	case 4:
		text, p = caught(func() { gost.Unimplemented(x) })
		want = string(x)
	case 5:
		text, p = caught(func() { gost.Unreachable(x) })
		want = string(x)
	}
	nd.Assert(p, "must panic")
	nd.Assert(text == want, "must panic with the message")
}

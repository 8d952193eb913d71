package h

import (
	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// A collection as both operands.

func selfAlgebra[S any, P interface {
	*S
	set16[S]
}](a P, is func(s P, want []k16, what string)) {
	n := []int{0, 1, 2, 30}[nd.Choice("n", 4)]
	xs := steps40(n, 0)
	if n > 0 {
		xs[n-1] = key16("x")
		nd.Assume(xs[n-1] > 290)
	}
	for _, x := range xs {
		a.Insert(x)
	}
	var r S
	want := xs
	switch nd.Choice("op", 3) {
	case 0:
		r = a.Union(*a)
	case 1:
		r = a.Intersection(*a)
	case 2:
		r, want = a.SymmetricDifference(*a), nil
	}
	p := P(&r)
	is(p, want, "a set with itself: the result")
	nd.Assert(bool(a.IsSubset(*a)) && bool(a.IsSuperset(*a)) && bool(a.Eq(*a)), "a set and itself")
	nd.Assert(bool(a.IsDisjoint(*a)) == (n == 0), "only an empty set is disjoint from itself")
	// the result is a set of its own
	if nd.Choice("change", 2) == 0 {
		p.Insert(-7)
		is(a, xs, "a set after an insertion into the result")
		is(p, append(append([]k16{}, want...), -7), "the result after an insertion")
	} else if n > 0 {
		a.Remove(xs[0])
		is(p, want, "the result after a removal from the set")
		is(a, xs[1:], "the set after a removal")
	}
}

const selfBound = "sets of 0, 1, 2 and 30 elements, one arbitrary, as both operands of every operation; then a change to the result or to the set"

func H_C20_Self() {
	nd.NoMerge()
	nd.Bound(selfBound)
	a := gost.BTreeSetNew[gost.I16]()
	selfAlgebra(&a, func(s *gost.BTreeSet[gost.I16], want []k16, what string) { setIs(s, want, 1, what) })
}

func H_C22_Self() {
	nd.NoMerge()
	nd.Bound(selfBound)
	a := gost.HashSetNew[gost.I16]()
	selfAlgebra(&a, func(s *gost.HashSet[gost.I16], want []k16, what string) { setIs(s, want, 1, what) })
}

// The results of set operations are apart from the operands.
func apartAlgebra[S any, P interface {
	*S
	set16[S]
}](a, b P, is func(s P, want []k16, what string)) {
	xs := [][]k16{{}, {1}, {1, 2}, {1, 2, 3}}[nd.Choice("a", 4)]
	ys := [][]k16{{}, {1}, {2, 3}, {1, 2, 3}, {4}}[nd.Choice("b", 5)]
	for _, x := range xs {
		a.Insert(x)
	}
	for _, y := range ys {
		b.Insert(y)
	}
	var r S
	var want []k16
	switch nd.Choice("op", 3) {
	case 0:
		r = a.Union(*b)
		want = append(append([]k16{}, xs...), filter16(ys, xs, false)...)
	case 1:
		r = a.Intersection(*b)
		want = filter16(xs, ys, true)
	case 2:
		r = a.SymmetricDifference(*b)
		want = append(filter16(xs, ys, false), filter16(ys, xs, false)...)
	}
	p := P(&r)
	x := key16("x")
	switch nd.Choice("change", 4) {
	case 0:
		p.Insert(x)
		want = append(filter16(want, []k16{x}, false), x)
	case 1:
		p.Remove(x)
		want = filter16(want, []k16{x}, false)
	case 2:
		a.Insert(x)
		b.Insert(x)
		xs = append(filter16(xs, []k16{x}, false), x)
		ys = append(filter16(ys, []k16{x}, false), x)
	case 3:
		a.Remove(x)
		b.Remove(x)
		xs, ys = filter16(xs, []k16{x}, false), filter16(ys, []k16{x}, false)
	}
	is(p, want, "the result of a set operation, after a change")
	is(a, xs, "the left operand, after a change")
	is(b, ys, "the right operand, after a change")
}

const apartBound = "sets of up to 3 elements; the result of an operation, or both operands, changed by inserting or removing an arbitrary element"

func H_C20_Apart() {
	nd.NoMerge()
	nd.Bound(apartBound)
	a, b := gost.BTreeSetNew[gost.I16](), gost.BTreeSetNew[gost.I16]()
	apartAlgebra(&a, &b, func(s *gost.BTreeSet[gost.I16], want []k16, what string) { setIs(s, want, 1, what) })
}

func H_C22_Apart() {
	nd.NoMerge()
	nd.Bound(apartBound)
	a, b := gost.HashSetNew[gost.I16](), gost.HashSetNew[gost.I16]()
	apartAlgebra(&a, &b, func(s *gost.HashSet[gost.I16], want []k16, what string) { setIs(s, want, 1, what) })
}

// H_C24_Two: two iterators over one collection do not disturb each other.
func H_C24_Two() {
	nd.NoMerge()
	nd.Bound("two iterators over one collection of three elements of each kind, stepped in every order; adaptors of the first made while the second runs")
	s := []gost.I32{4, 50, 600}
	var make1 func() gost.Iterator[gost.I32]
	kind := nd.Choice("kind", 9)
	if kind < 3 {
		s[1] = el("e")
	}
	switch kind {
	case 0:
		v := manyVec(s)
		make1 = func() gost.Iterator[gost.I32] { return v.IntoIter() }
	case 1:
		l := manyList(s)
		make1 = func() gost.Iterator[gost.I32] { return l.IntoIter() }
	case 2:
		d, _ := wideRing(4, 3, 0)
		for _, x := range s {
			d.PushBack(x)
		}
		make1 = func() gost.Iterator[gost.I32] { return d.IntoIter() }
	case 3, 4:
		m := gost.BTreeMapNew[gost.I32, gost.I32]()
		for _, x := range s {
			m.Insert(x, x)
		}
		make1 = func() gost.Iterator[gost.I32] { return m.Keys() }
		if kind == 4 {
			make1 = func() gost.Iterator[gost.I32] { return m.Values() }
		}
	case 5:
		m := gost.BTreeSetNew[gost.I32]()
		for _, x := range s {
			m.Insert(x)
		}
		make1 = func() gost.Iterator[gost.I32] { return m.IntoIter() }
	case 6, 7:
		m := gost.HashMapNew[gost.I32, gost.I32]()
		for _, x := range s[:1] {
			m.Insert(x, x)
		}
		s = s[:1]
		make1 = func() gost.Iterator[gost.I32] { return m.Keys() }
		if kind == 7 {
			make1 = func() gost.Iterator[gost.I32] { return m.Values() }
		}
	case 8:
		m := gost.HashSetNew[gost.I32]()
		m.Insert(s[0])
		s = s[:1]
		make1 = func() gost.Iterator[gost.I32] { return m.IntoIter() }
	}
	a := make1()
	first := nd.Choice("first", 2)
	if first == 1 {
		optIs(a.Next(), true, s[0], "the first of two iterators")
	}
	b := make1()
	i, j := first, 0
	for step := 0; step < 4; step++ {
		if nd.Choice("step", 2) == 0 {
			x := gost.I32(0)
			if i < len(s) {
				x = s[i]
			}
			optIs(a.Next(), i < len(s), x, "the first of two iterators")
			i++
		} else {
			x := gost.I32(0)
			if j < len(s) {
				x = s[j]
			}
			optIs(b.Next(), j < len(s), x, "the second of two iterators")
			j++
		}
	}
	if i > len(s) {
		i = len(s)
	}
	if j > len(s) {
		j = len(s)
	}
	switch nd.Choice("then", 3) {
	case 0:
		v := a.CollectToVec()
		vecIs(&v, s[i:], "collecting the first of two iterators")
	case 1:
		r := a.Rev()
		for k := len(s) - 1; k >= i; k-- {
			optIs(r.Next(), true, s[k], "Rev of the first of two iterators")
		}
		nd.Assert(bool(r.Next().IsNone()), "Rev of the first of two iterators ends")
	case 2:
		f := a.Filter(func(gost.I32) gost.Bool { return true })
		for k := i; k < len(s); k++ {
			optIs(f.Next(), true, s[k], "Filter of the first of two iterators")
		}
	}
	w := b.CollectToVec()
	vecIs(&w, s[j:], "collecting the second of two iterators")
}

package h

import (
	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// iterOps says how to work with elements of type T.
type iterOps[T any] struct {
	eq   func(a, b T) bool
	f    func(T) T      // for Map
	pred func(T) bool   // for Filter
	fold func(a, x T) T // not commutative
	init T
}

func seqSame[T any](o iterOps[T], a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		e := o.eq(a[i], b[i])
		ok = ok && e
	}
	return ok
}

func mapped[T any](o iterOps[T], s []T) []T {
	var r []T
	for _, x := range s {
		r = append(r, o.f(x))
	}
	return r
}

func filtered[T any](o iterOps[T], s []T) []T {
	var r []T
	for _, x := range s {
		if o.pred(x) {
			r = append(r, x)
		}
	}
	return r
}

func reversed[T any](s []T) []T {
	var r []T
	for i := len(s) - 1; i >= 0; i-- {
		r = append(r, s[i])
	}
	return r
}

func folded[T any](o iterOps[T], s []T) T {
	a := o.init
	for _, x := range s {
		a = o.fold(a, x)
	}
	return a
}

// consume takes k elements off it, checking them against s; past the end it
// expects None each time. It returns the elements not yet yielded.
func consume[T any](o iterOps[T], it gost.Iterator[T], s []T, k int, what string) []T {
	for i := 0; i < k; i++ {
		e := it.Next()
		if i < len(s) {
			nd.Assert(bool(e.IsSome()), what+": Next yields each element")
			nd.Assert(o.eq(e.Unwrap(), s[i]), what+": Next yields the elements in order")
		} else {
			nd.Assert(bool(e.IsNone()), what+": Next is None at the end and stays so")
		}
	}
	if k >= len(s) {
		return nil
	}
	return s[k:]
}

func sliceOfVec[T any](v gost.Vec[T]) []T {
	var r []T
	for i := gost.USize(0); i < v.Len(); i++ {
		r = append(r, v.GetUnchecked(i))
	}
	return r
}

func sliceOfList[T any](l gost.LinkedList[T]) []T {
	n := l.Len()
	var r []T
	for i := gost.USize(0); i < n; i++ {
		r = append(r, l.PopFront().Unwrap())
	}
	nd.Assert(bool(l.PopFront().IsNone()), "collected list: nothing beyond its length")
	return r
}

// adapt applies one adaptor to it, of which the elements s have not been
// yielded. It returns the adapted iterator and what it should yield.
func adapt[T any](o iterOps[T], it gost.Iterator[T], s []T, what int) (gost.Iterator[T], []T) {
	switch what {
	case 0:
		return it.Map(o.f), mapped(o, s)
	case 1:
		return it.Filter(func(x T) gost.Bool { return gost.Bool(o.pred(x)) }), filtered(o, s)
	}
	return it.Rev(), reversed(s)
}

// checkIter consumes some elements, then applies one or two adaptors or
// collects the rest.
func checkIter[T any](o iterOps[T], it gost.Iterator[T], s []T) {
	k := nd.Choice("taken", len(s)+2)
	rest := consume(o, it, s, k, "iterator")
	w := nd.Choice("adaptor", 7)
	switch w {
	case 0, 1, 2:
		names := []string{"Map", "Filter", "Rev"}
		n := names[w]
		it2, want := adapt(o, it, rest, w)
		j := nd.Choice("then", 3)
		if j == 0 {
			consume(o, it2, want, len(want)+2, n)
			return
		}
		j--
		rest2 := consume(o, it2, want, j, n)
		switch w2 := nd.Choice("adaptor2", 4); w2 {
		case 0, 1, 2:
			it3, want3 := adapt(o, it2, rest2, w2)
			consume(o, it3, want3, len(want3)+1, n+" then "+names[w2])
		case 3:
			v := it2.CollectToVec()
			nd.Assert(seqSame(o, sliceOfVec(v), rest2), n+" then CollectToVec: the remaining elements in order")
		}
	case 3:
		got := it.Fold(o.init, o.fold)
		nd.Assert(o.eq(got, folded(o, rest)), "Fold: over the remaining elements in order")
	case 4:
		v := it.CollectToVec()
		nd.Assert(seqSame(o, sliceOfVec(v), rest), "CollectToVec: the remaining elements in order")
	case 5:
		l := it.CollectToLinkedList()
		nd.Assert(seqSame(o, sliceOfList(l), rest), "CollectToLinkedList: the remaining elements in order")
	case 6:
		consume(o, it, rest, len(rest)+2, "iterator")
	}
}

func ops32() iterOps[gost.I32] {
	c, m := el("c"), el("mask")
	return iterOps[gost.I32]{
		eq:   func(a, b gost.I32) bool { return a == b },
		f:    func(x gost.I32) gost.I32 { return x ^ c },
		pred: func(x gost.I32) bool { return x&m == 0 },
		fold: func(a, x gost.I32) gost.I32 { return a + a + x },
		init: c,
	}
}

func ops16() iterOps[gost.I16] {
	c, m := gost.I16(nd.I16("c")), gost.I16(nd.I16("mask"))
	return iterOps[gost.I16]{
		eq:   func(a, b gost.I16) bool { return a == b },
		f:    func(x gost.I16) gost.I16 { return x ^ c },
		pred: func(x gost.I16) bool { return x&m == 0 },
		fold: func(a, x gost.I16) gost.I16 { return a + a + x },
		init: c,
	}
}

type pr = gost.Pair[gost.I16, gost.I32]

func opsPair() iterOps[pr] {
	c, m := el("c"), el("mask")
	return iterOps[pr]{
		eq:   func(a, b pr) bool { return a.Key == b.Key && a.Value == b.Value },
		f:    func(x pr) pr { return pr{Key: x.Key + 1, Value: x.Value ^ c} },
		pred: func(x pr) bool { return x.Value&m == 0 },
		fold: func(a, x pr) pr { return pr{Key: a.Key + a.Key + x.Key, Value: a.Value + a.Value + x.Value} },
		init: pr{Key: 1, Value: c},
	}
}

const boundIter = "every number of elements taken first (past the end included), every adaptor, every pair of Map/Filter/Rev with up to one element taken between, arbitrary map, filter and fold parameters"

func H_C24_Vec() {
	nd.NoMerge()
	nd.Bound("vectors of up to 3 arbitrary elements (thorough: 4); " + boundIter)
	v, s := mkVec("v", nd.Tier(3, 4))
	checkIter(ops32(), v.IntoIter(), s)
	vecIs(&v, s, "the vector afterwards")
}

func H_C24_Deque() {
	nd.NoMerge()
	nd.Bound("every ring of capacity 1..3 (thorough: 4); " + boundIter)
	d, s := ring("r", nd.Tier(3, 4), arb)
	checkIter(ops32(), d.IntoIter(), s)
	dequeIs(&d, s, "the deque afterwards")
}

func H_C24_List() {
	nd.NoMerge()
	nd.Bound("lists of up to 3 arbitrary elements (thorough: 4); " + boundIter)
	l, s := mkList("l", nd.Tier(3, 4))
	checkIter(ops32(), l.IntoIter(), s)
	listIs(&l, s, "the list afterwards")
}

// treeFor builds a B-tree map of 0..3 or 12 entries; key order is insertion
// order for an even choice and descending otherwise.
func treeFor() (btm, []pr) {
	m := gost.BTreeMapNew[gost.I16, gost.I32]()
	n := []int{0, 1, 2, 3, 12}[nd.Choice("n", 5)]
	down := nd.Choice("down", 2) == 1
	vals := make([]gost.I32, n)
	var s []pr
	for i := 0; i < n; i++ {
		vals[i] = gost.I32(100 + 7*i)
		if i < 3 {
			vals[i] = el("v")
		}
		s = append(s, pr{Key: gost.I16(3 * i), Value: vals[i]})
	}
	for i := 0; i < n; i++ {
		j := i
		if down {
			j = n - 1 - i
		}
		m.Insert(gost.I16(3*j), vals[j])
	}
	return m, s
}

// checkLong is checkIter for longer contents: fewer points.
func checkTree[T any](o iterOps[T], it gost.Iterator[T], s []T) {
	if len(s) > 3 {
		k := []int{0, 1, 5, 6, 11, 12}[nd.Choice("skip", 6)]
		s = consume(o, it, s, k, "iterator")
		if len(s) > 3 {
			// the filter would split every path per element
			switch nd.Choice("long", 5) {
			case 0:
				consume(o, it, s, len(s)+1, "iterator")
			case 1:
				it2, want := adapt(o, it, s, 0)
				consume(o, it2, want, len(want)+1, "Map")
			case 2:
				it2, want := adapt(o, it, s, 2)
				consume(o, it2, want, len(want)+1, "Rev")
			case 3:
				v := it.CollectToVec()
				nd.Assert(seqSame(o, sliceOfVec(v), s), "CollectToVec: the remaining elements in order")
			case 4:
				l := it.CollectToLinkedList()
				nd.Assert(seqSame(o, sliceOfList(l), s), "CollectToLinkedList: the remaining elements in order")
			}
			return
		}
	}
	checkIter(o, it, s)
}

func H_C24_BTreeMap() {
	nd.NoMerge()
	nd.Bound("B-tree maps of 0..3 and 12 entries with arbitrary values, entries, keys and values; " + boundIter)
	m, s := treeFor()
	switch nd.Choice("what", 3) {
	case 0:
		checkTree(opsPair(), m.IntoIter(), s)
	case 1:
		var ks []gost.I16
		for _, p := range s {
			ks = append(ks, p.Key)
		}
		checkTree(ops16(), m.Keys(), ks)
	case 2:
		var vs []gost.I32
		for _, p := range s {
			vs = append(vs, p.Value)
		}
		checkTree(ops32(), m.Values(), vs)
	}
}

func H_C24_BTreeSet() {
	nd.NoMerge()
	nd.Bound("B-tree sets of 0..3 and 12 elements; " + boundIter)
	s := gost.BTreeSetNew[gost.I16]()
	n := []int{0, 1, 2, 3, 12}[nd.Choice("n", 5)]
	var want []gost.I16
	for i := 0; i < n; i++ {
		want = append(want, gost.I16(3*i-4))
		s.Insert(gost.I16(3*(n-1-i) - 4))
	}
	checkTree(ops16(), s.IntoIter(), want)
}

// hash collections enumerate in an unspecified order: what has been yielded
// and what an adaptor acts on must together be the contents.
func checkUnordered[T any](o iterOps[T], it gost.Iterator[T], s []T) {
	n := len(s)
	k := nd.Choice("taken", n+2)
	var seen []T
	for i := 0; i < k; i++ {
		e := it.Next()
		nd.Assert(bool(e.IsSome()) == (i < n), "Next yields as many elements as there are")
		if i < n {
			seen = append(seen, e.Unwrap())
		}
	}
	match := func(got []T, f func(T) T, what string) {
		nd.Assert(len(got)+len(seen) == n, what+": as many elements as remain")
		used := make([]bool, n)
		nd.Merge(1)
		defer nd.Merge(0)
		// elements are told apart by the harness giving them distinct ids
		take := func(x T, g func(T) T) {
			found := false
			for j := range s {
				if !used[j] && !found && o.eq(x, g(s[j])) {
					used[j] = true
					found = true
				}
			}
			nd.Assert(found, what+": only the remaining elements, each once")
		}
		for _, x := range seen {
			take(x, func(x T) T { return x })
		}
		for _, x := range got {
			take(x, f)
		}
	}
	id := func(x T) T { return x }
	drain := func(it gost.Iterator[T]) []T {
		var got []T
		for i := 0; i < n+1; i++ {
			e := it.Next()
			if bool(e.IsNone()) {
				break
			}
			got = append(got, e.Unwrap())
		}
		nd.Assert(bool(it.Next().IsNone()), "None at the end")
		return got
	}
	var got []T
	f, what := id, ""
	switch nd.Choice("adaptor", 7) {
	case 0:
		match(drain(it), id, "iterator")
		return
	case 1:
		got, f, what = drain(it.Map(o.f)), o.f, "Map"
	case 2:
		got, what = drain(it.Filter(func(T) gost.Bool { return true })), "Filter"
	case 3:
		got, what = drain(it.Rev()), "Rev"
	case 4:
		v := it.CollectToVec()
		got, what = sliceOfVec(v), "CollectToVec"
	case 5:
		got, what = sliceOfList(it.CollectToLinkedList()), "CollectToLinkedList"
	case 6:
		it.Fold(o.init, func(a, x T) T { got = append(got, x); return o.fold(a, x) })
		what = "Fold"
	}
	match(got, f, what)
	// where the iterator is still there, it tells the order
	rest := drain(it)
	if len(rest) != len(got) {
		return
	}
	if what == "Rev" {
		rest = reversed(rest)
	}
	nd.Merge(1)
	same := true
	for i := range rest {
		if !o.eq(got[i], f(rest[i])) {
			same = false
		}
	}
	nd.Merge(0)
	nd.Assert(same, what+": the elements in the order of the iterator")
}

func hashFor() (hm, []pr) {
	m := gost.HashMapNew[gost.I16, gost.I32]()
	n := nd.Choice("n", 4)
	var s []pr
	for i := 0; i < n; i++ {
		p := pr{Key: gost.I16(5 * i), Value: el("v")}
		m.Insert(p.Key, p.Value)
		s = append(s, p)
	}
	return m, s
}

func H_C24_HashMap() {
	nd.NoMerge()
	nd.MapOrder(2)
	nd.Bound("hash maps of up to 3 entries with arbitrary values, every enumeration order; entries, keys and values; every number of elements taken first; every adaptor")
	m, s := hashFor()
	switch nd.Choice("what", 3) {
	case 0:
		checkUnordered(opsPair(), m.IntoIter(), s)
	case 1:
		var ks []gost.I16
		for _, p := range s {
			ks = append(ks, p.Key)
		}
		o := ops16()
		checkUnordered(o, m.Keys(), ks)
	case 2:
		var vs []gost.I32
		for i, p := range s {
			vs = append(vs, p.Value)
			for j := 0; j < i; j++ {
				nd.Assume(vs[j] != p.Value)
			}
		}
		checkUnordered(ops32(), m.Values(), vs)
	}
}

func H_C24_HashSet() {
	nd.NoMerge()
	nd.MapOrder(2)
	nd.Bound("hash sets of up to 3 elements, every enumeration order; every number of elements taken first; every adaptor")
	s := gost.HashSetNew[gost.I16]()
	n := nd.Choice("n", 4)
	var want []gost.I16
	for i := 0; i < n; i++ {
		want = append(want, gost.I16(5*i-3))
		s.Insert(gost.I16(5*i - 3))
	}
	checkUnordered(ops16(), s.IntoIter(), want)
}

// filtering by an arbitrary predicate, hash collections
func H_C24_HashFilter() {
	nd.NoMerge()
	nd.MapOrder(2)
	nd.Bound("hash maps and sets of 3 elements, arbitrary filter, up to one element taken first")
	mask := gost.I16(nd.I16("mask"))
	keep := func(x gost.I16) bool { return x&mask == 0 }
	m := gost.HashMapNew[gost.I16, gost.I32]()
	st := gost.HashSetNew[gost.I16]()
	all := []gost.I16{1, 2, 4}
	for i, x := range all {
		m.Insert(x, gost.I32(i))
		st.Insert(x)
	}
	var it gost.Iterator[gost.I16]
	if nd.Choice("what", 2) == 0 {
		it = m.Keys()
	} else {
		it = st.IntoIter()
	}
	left := map[gost.I16]bool{1: true, 2: true, 4: true}
	if nd.Choice("one", 2) == 1 {
		left[it.Next().Unwrap()] = false
	}
	f := it.Filter(func(x gost.I16) gost.Bool { return gost.Bool(keep(x)) })
	for i := 0; i < 3; i++ {
		e := f.Next()
		if bool(e.IsNone()) {
			break
		}
		x := e.Unwrap()
		nd.Assert(left[x] && keep(x), "Filter: yields only remaining elements the predicate accepts")
		left[x] = false
	}
	nd.Assert(bool(f.Next().IsNone()), "Filter: ends")
	for _, x := range all {
		nd.Assert(!(left[x] && keep(x)), "Filter: yields every remaining element the predicate accepts")
	}
}

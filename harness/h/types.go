package h

import (
	"errors"
	"math"

	"github.com/myyrakle/gost"
	"gostverif/nd"
	"gostverif/nd128"
)

// Elements of many types.

type seqCase[T any] struct {
	s    []T
	same func(a, b T) bool
}

func (c *seqCase[T]) all(n int, at func(i int) T, want []T, what string) {
	nd.Assert(n == len(want), what+": length")
	if n != len(want) {
		return
	}
	for i, x := range want {
		nd.Assert(c.same(at(i), x), what+": the elements in order")
	}
}

func (c *seqCase[T]) opt(o gost.Option[T], some bool, x T, what string) {
	nd.Assert(bool(o.IsSome()) == some, what+": Some exactly when there is one")
	if some && bool(o.IsSome()) {
		nd.Assert(c.same(o.Unwrap(), x), what+": the element")
	}
}

func (c *seqCase[T]) vec(v *gost.Vec[T], want []T, what string) {
	c.all(int(v.Len()), func(i int) T { return v.GetUnchecked(gost.USize(i)) }, want, what)
}

func (c *seqCase[T]) ring(v *gost.VecDeque[T], want []T, what string) {
	c.all(int(v.Len()), func(i int) T { return v.GetUnchecked(gost.USize(i)) }, want, what)
}

func runVec[T any](c *seqCase[T]) {
	s, i := c.s, nd.Choice("i", 3)
	v := gost.VecWithCapacity[T](2)
	for _, x := range s[:3] {
		v.Push(x)
	}
	x := s[3]
	w := append([]T{}, s[:3]...)
	switch nd.Choice("op", 8) {
	case 0:
		v.Insert(gost.USize(i), x)
		w = append(append(append([]T{}, s[:i]...), x), s[i:3]...)
	case 1:
		c.opt(v.Set(gost.USize(i), x), false, x, "Vec.Set")
		w[i] = x
		c.opt(v.Set(3, s[4]), true, s[4], "Vec.Set out of range")
	case 2:
		v.Swap(0, gost.USize(i))
		w[0], w[i] = w[i], w[0]
		v.Reverse()
		w[0], w[2] = w[2], w[0]
	case 3:
		o := gost.VecNew[T]()
		o.Push(x)
		o.Push(s[4])
		v.Append(&o)
		w = append(w, x, s[4])
		c.vec(&o, nil, "the appended Vec")
	case 4:
		v.Fill(x)
		w = []T{x, x, x}
	case 5:
		k := 2
		v.FillWith(func() T { k++; return s[k%5] })
		w = []T{s[3], s[4], s[0]}
	case 6:
		v.Retain(func(y T) gost.Bool { return gost.Bool(!c.same(y, s[i])) })
		w = nil
		for _, y := range s[:3] {
			if !c.same(y, s[i]) {
				w = append(w, y)
			}
		}
	case 7:
		for j := 2; j > i; j-- {
			c.opt(v.Pop(), true, s[j], "Vec.Pop")
		}
		w = w[:i+1]
	}
	c.vec(&v, w, "Vec")
	for j := range w {
		c.opt(v.Get(gost.USize(j)), true, w[j], "Vec.Get")
	}
	c.opt(v.Get(gost.USize(len(w))), false, x, "Vec.Get")
	a := v.AsSlice()
	c.all(len(a), func(i int) T { return a[i] }, w, "Vec.AsSlice")
}

func runRing[T any](c *seqCase[T]) {
	s, i := c.s, nd.Choice("i", 3)
	v := gost.VecDequeWithCapacity[T](4)
	for j := nd.Choice("head", 4); j > 0; j-- {
		v.PushBack(s[4])
		v.PopFront()
	}
	w := append([]T{}, s[:3]...)
	if nd.Choice("front", 2) == 0 {
		for _, x := range w {
			v.PushBack(x)
		}
	} else {
		for j := 2; j >= 0; j-- {
			v.PushFront(w[j])
		}
	}
	x := s[3]
	switch nd.Choice("op", 7) {
	case 0:
		v.PushBack(x)
		v.PushFront(s[4])
		w = append(append([]T{s[4]}, w...), x)
	case 1:
		c.opt(v.Set(gost.USize(i), x), false, x, "VecDeque.Set")
		w[i] = x
		c.opt(v.Set(3, s[4]), true, s[4], "VecDeque.Set out of range")
	case 2:
		v.Swap(0, gost.USize(i))
		w[0], w[i] = w[i], w[0]
	case 3:
		o := gost.VecDequeNew[T]()
		o.PushBack(x)
		o.PushFront(s[4])
		v.Append(&o)
		w = append(w, s[4], x)
		c.ring(&o, nil, "the appended VecDeque")
	case 4:
		v.Fill(x)
		w = []T{x, x, x}
	case 5:
		v.Retain(func(y T) gost.Bool { return gost.Bool(!c.same(y, s[i])) })
		w = nil
		for _, y := range s[:3] {
			if !c.same(y, s[i]) {
				w = append(w, y)
			}
		}
	case 6:
		c.opt(v.PopFront(), true, s[0], "VecDeque.PopFront")
		c.opt(v.PopBack(), true, s[2], "VecDeque.PopBack")
		w = w[1:2]
	}
	c.ring(&v, w, "VecDeque")
	n := len(w)
	if n > 0 {
		c.opt(v.Front(), true, w[0], "VecDeque.Front")
		c.opt(v.Back(), true, w[n-1], "VecDeque.Back")
	}
	c.opt(v.Get(gost.USize(n)), false, x, "VecDeque.Get")
	a := v.AsSlice()
	c.all(len(a), func(i int) T { return a[i] }, w, "VecDeque.AsSlice")
}

func runList[T any](c *seqCase[T]) {
	s := c.s
	v := gost.LinkedListNew[T]()
	v.PushBack(s[1])
	v.PushFront(s[0])
	v.PushBack(s[2])
	w := append([]T{}, s[:3]...)
	switch nd.Choice("op", 4) {
	case 0:
		o := gost.LinkedListNew[T]()
		o.PushBack(s[3])
		o.PushBack(s[4])
		v.Append(&o)
		w = append(w, s[3], s[4])
		nd.Assert(bool(o.IsEmpty()), "the appended LinkedList")
	case 1:
		c.opt(v.PopFront(), true, w[0], "LinkedList.PopFront")
		w = w[1:]
	case 2:
		c.opt(v.PopBack(), true, w[2], "LinkedList.PopBack")
		w = w[:2]
	case 3:
		*v.Front().Unwrap() = s[3]
		*v.Back().Unwrap() = s[4]
		w[0], w[2] = s[3], s[4]
	}
	nd.Assert(int(v.Len()) == len(w), "LinkedList: length")
	nd.Assert(c.same(*v.Front().Unwrap(), w[0]) && c.same(*v.Back().Unwrap(), w[len(w)-1]), "LinkedList: the ends")
	it := v.IntoIter()
	for _, x := range w {
		c.opt(it.Next(), true, x, "LinkedList iterator")
	}
	c.opt(it.Next(), false, s[0], "LinkedList iterator")
	for j := len(w) - 1; j >= 0; j-- {
		c.opt(v.PopBack(), true, w[j], "LinkedList.PopBack")
	}
	c.opt(v.PopBack(), false, s[0], "LinkedList.PopBack")
}

func runIter[T any](c *seqCase[T]) {
	s := c.s
	var it gost.Iterator[T]
	switch nd.Choice("from", 3) {
	case 0:
		v := vecOf(s)
		it = v.IntoIter()
	case 1:
		v := gost.VecDequeWithCapacity[T](5)
		v.PushBack(s[0])
		v.PopFront()
		for _, x := range s {
			v.PushBack(x)
		}
		it = v.IntoIter()
	case 2:
		l := gost.LinkedListNew[T]()
		for _, x := range s {
			l.PushBack(x)
		}
		it = l.IntoIter()
	}
	w := s
	for k := []int{0, 1, 4}[nd.Choice("taken", 3)]; k > 0; k-- {
		c.opt(it.Next(), true, w[0], "Next")
		w = w[1:]
	}
	switch nd.Choice("then", 6) {
	case 0:
		it = it.Rev()
		w = reversed(w)
	case 1:
		it = it.Map(func(T) T { return s[2] })
		w = append([]T{}, w...)
		for i := range w {
			w[i] = s[2]
		}
	case 2:
		it = it.Filter(func(x T) gost.Bool { return gost.Bool(c.same(x, s[1])) })
		var r []T
		for _, x := range w {
			if c.same(x, s[1]) {
				r = append(r, x)
			}
		}
		w = r
	case 3:
		v := it.CollectToVec()
		c.vec(&v, w, "CollectToVec")
		return
	case 4:
		l := it.CollectToLinkedList()
		for _, x := range w {
			c.opt(l.PopFront(), true, x, "CollectToLinkedList")
		}
		c.opt(l.PopFront(), false, s[0], "CollectToLinkedList")
		return
	case 5:
		n := 0
		last := it.Fold(s[0], func(_, x T) T { n++; return x })
		nd.Assert(n == len(w) && c.same(last, w[len(w)-1]), "Fold")
		return
	}
	for _, x := range w {
		c.opt(it.Next(), true, x, "an adaptor's Next")
	}
	c.opt(it.Next(), false, s[0], "an adaptor's Next at the end")
}

func vecOf[T any](s []T) gost.Vec[T] {
	v := gost.VecNew[T]()
	for _, x := range s {
		v.Push(x)
	}
	return v
}

// which of the containers is tried
func seqs[T any](what int, same func(a, b T) bool, s ...T) {
	c := &seqCase[T]{s: s, same: same}
	switch what {
	case 0:
		runVec(c)
	case 1:
		runRing(c)
	case 2:
		runList(c)
	case 3:
		runIter(c)
	}
}

func equal[T comparable](a, b T) bool { return a == b }

const typesBound = "five elements of twelve types: strings of an arbitrary byte, 128-bit numbers, floats (also NaN and negative zero), truth values, empty structs, pointers and interfaces (also nil), errors, functions, pairs, arrays, slices and options; one operation"

func seqTypes(what int) {
	switch nd.Choice("type", 12) {
	case 0:
		b := gost.String(nd.Str("b", 1))
		seqs(what, equal[gost.String], "", b, "a"+b, "", b)
	case 1:
		x := nd128.MkU128(nd.U64("hi"), 1)
		seqs(what, equal[gost.U128], x, nd128.MkU128(1, 0), x, nd128.MkU128(0, 1), nd128.MkU128(0, 0))
	case 2:
		n, z := math.NaN(), math.Copysign(0, -1)
		seqs(what, func(a, b gost.F64) bool { return math.Float64bits(float64(a)) == math.Float64bits(float64(b)) },
			gost.F64(n), 0, gost.F64(z), gost.F64(math.Inf(1)), 5e-324)
	case 3:
		seqs(what, equal[gost.Bool], true, gost.Bool(nd.U8("t") > 9), false, true, false)
	case 4:
		seqs(what, equal[struct{}], struct{}{}, struct{}{}, struct{}{}, struct{}{}, struct{}{})
	case 5:
		a, b := new(gost.I32), new(gost.I32)
		seqs(what, equal[*gost.I32], a, nil, b, a, b)
	case 6:
		p := new(int)
		var np *int
		seqs[any](what, equal[any], nil, 1, gost.I32(1), any(np), p)
	case 7:
		e := errors.New("e")
		seqs[error](what, equal[error], nil, e, errors.New("e"), nil, e)
	case 8:
		k := 0
		f := func(n int) func() int { return func() int { k++; return n } }
		seqs(what, func(a, b func() int) bool { return (a == nil) == (b == nil) && (a == nil || a() == b()) }, f(1), nil, f(2), f(3), nil)
	case 9:
		type pair = gost.Pair[gost.I8, gost.String]
		n := el8("n")
		seqs(what, equal[pair], pair{n, "a"}, pair{1, "b"}, pair{n, "b"}, pair{}, pair{2, ""})
	case 10:
		x := el("x")
		seqs(what, equal[[2]gost.I32], [2]gost.I32{x, 1}, [2]gost.I32{}, [2]gost.I32{1, x}, [2]gost.I32{x, x}, [2]gost.I32{3, 4})
	case 11:
		x := el("x")
		same := func(a, b gost.Option[gost.I32]) bool {
			return a.IsSome() == b.IsSome() && (bool(a.IsNone()) || a.Unwrap() == b.Unwrap())
		}
		seqs(what, same, gost.Some(x), gost.None[gost.I32](), gost.Some(x+1), gost.Some(gost.I32(0)), gost.None[gost.I32]())
	}
}

func H_C12_Types() {
	nd.NoMerge()
	nd.Bound(typesBound)
	seqTypes(0)
}

func H_C14_Types() {
	nd.NoMerge()
	nd.Bound(typesBound + ", four starts of the ring")
	seqTypes(1)
}

func H_C16_Types() {
	nd.NoMerge()
	nd.Bound(typesBound)
	seqTypes(2)
}

func H_C24_Types() {
	nd.NoMerge()
	nd.Bound(typesBound + ", after none, one or four taken")
	seqTypes(3)
}

// ---- ordered elements

// down is ordered the other way round.
type down struct{ n gost.I32 }

func (a down) Cmp(b down) gost.Ordering { return b.n.Cmp(a.n) }
func (a down) Eq(b down) gost.Bool      { return a.n == b.n }

// a pointer that is ordered by what it points to
type byRef struct{ n int }

func (a *byRef) Cmp(b *byRef) gost.Ordering {
	if a.n < b.n {
		return gost.OrderingLess
	} else if a.n > b.n {
		return gost.OrderingGreater
	}
	return gost.OrderingEqual
}
func (a *byRef) Eq(b *byRef) gost.Bool { return a.n == b.n }

// orderedTypes runs the container on six elements given in ascending order,
// the fourth missing from it at first.
func orderedTypes(what int) {
	switch nd.Choice("type", 11) {
	case 0:
		b := gost.String(nd.Str("b", 1))
		nd.Assume(b > "a" && b < "z")
		ordered(what, []gost.String{"", "a", "a" + b, b, b + "a", "z"})
	case 1:
		h := nd.U64("hi")
		nd.Assume(h > 1 && h < 1<<63)
		ordered(what, []gost.U128{nd128.MkU128(0, 5), nd128.MkU128(1, 4), nd128.MkU128(h, 0), nd128.MkU128(h, 1), nd128.MkU128(1<<63, 0), nd128.MkU128(math.MaxUint64, math.MaxUint64)})
	case 2:
		h := nd.U64("lo")
		nd.Assume(h > 2)
		ordered(what, []gost.I128{nd128.MkI128(math.MinInt64, 0), nd128.MkI128(-1, 0), nd128.MkI128(-1, h), nd128.MkI128(0, 2), nd128.MkI128(0, h), nd128.MkI128(math.MaxInt64, 0)})
	case 3:
		ordered(what, []gost.F64{gost.F64(math.Inf(-1)), -1, 0, 5e-324, 1e308, gost.F64(math.Inf(1))})
	case 4:
		ordered(what, []gost.F32{gost.F32(math.Inf(-1)), -1.5, -1e-45, 1e-45, 16777216, gost.F32(math.Inf(1))})
	case 5:
		ordered(what, []gost.U64{0, 1, 1 << 31, 1 << 32, 1 << 63, math.MaxUint64})
	case 6:
		ordered(what, []gost.I64{math.MinInt64, math.MinInt64 + 1, -1, 1, 1 << 62, math.MaxInt64})
	case 7:
		ordered(what, []gost.Char{0, 'a', 'b', 0x7FF, 0xFFFD, 0x10FFFF})
	case 8:
		type pair = gost.Pair[gost.I8, gost.String]
		ordered(what, []pair{{-128, "z"}, {-1, ""}, {-1, "a"}, {0, "b"}, {0, "ba"}, {127, ""}})
	case 9:
		x := gost.I32(nd.I8("x"))
		ordered(what, []down{{1000}, {500}, {x + 1}, {x}, {-500}, {math.MinInt32}})
	case 10:
		ordered(what, []*byRef{{-5}, {-4}, {0}, {1}, {2}, {7}})
	}
}

const orderedBound = "six elements of eleven ordered types: strings, 128-bit numbers, floats with the infinities, the largest and smallest integers, characters, pairs, a type ordered downwards and pointers; in six arrangements"

type orderedKey[T any] interface {
	gost.Ord[T]
	comparable
}

func ordered[T orderedKey[T]](what int, s []T) {
	perm := [][]int{{0, 1, 2, 3, 4, 5}, {5, 4, 3, 2, 1, 0}, {3, 5, 1, 0, 4, 2}, {2, 0, 4, 1, 5, 3}, {1, 0, 3, 2, 5, 4}, {4, 2, 5, 0, 3, 1}}[nd.Choice("arrangement", 6)]
	switch what {
	case 0: // sorting a Vec
		v := gost.VecNew[T]()
		for _, i := range perm {
			v.Push(s[i])
		}
		if nd.Choice("form", 2) == 0 {
			v.Sort()
		} else {
			v.SortUnstable()
		}
		for i, x := range s {
			nd.Assert(v.GetUnchecked(gost.USize(i)) == x, "sorting a Vec")
			o := v.BinarySearch(x)
			nd.Assert(bool(o.IsSome()) && int(o.Unwrap()) == i, "searching a Vec")
		}
		d := vecOf(append(append([]T{}, s[:3]...), s[4:]...))
		nd.Assert(bool(d.BinarySearch(s[3]).IsNone()), "searching a Vec for what is not there")
	case 1: // sorting a VecDeque
		v := gost.VecDequeWithCapacity[T](7)
		for j := nd.Choice("head", 7); j > 0; j-- {
			v.PushBack(s[0])
			v.PopFront()
		}
		for _, i := range perm {
			v.PushBack(s[i])
		}
		if nd.Choice("form", 2) == 0 {
			v.Sort()
		} else {
			v.SortUnstable()
		}
		for i, x := range s {
			nd.Assert(v.GetUnchecked(gost.USize(i)) == x, "sorting a VecDeque")
			o := v.BinarySearch(x)
			nd.Assert(bool(o.IsSome()) && int(o.Unwrap()) == i, "searching a VecDeque")
		}
	case 2: // a heap
		h := gost.BinaryHeapNew[T]()
		for _, i := range perm {
			h.Push(s[i])
		}
		if nd.Choice("take", 2) == 0 {
			v := h.IntoSortedVec()
			for i, x := range s {
				nd.Assert(v.GetUnchecked(gost.USize(i)) == x, "IntoSortedVec")
			}
			return
		}
		for i := 5; i >= 0; i-- {
			o := h.Pop()
			nd.Assert(bool(o.IsSome()) && o.Unwrap() == s[i], "BinaryHeap.Pop: the greatest")
		}
		nd.Assert(bool(h.Pop().IsNone()), "BinaryHeap.Pop: nothing more")
	case 3: // a B-tree map
		m := gost.BTreeMapNew[T, int]()
		for _, i := range perm {
			if i != 3 {
				nd.Assert(bool(m.Insert(s[i], i).IsNone()), "BTreeMap.Insert: nothing replaced")
			}
		}
		nd.Assert(!bool(m.ContainsKey(s[3])) && bool(m.Get(s[3]).IsNone()) && bool(m.Remove(s[3]).IsNone()), "BTreeMap: a missing key")
		r := nd.Choice("remove", 6)
		if r != 3 {
			o := m.Remove(s[r])
			nd.Assert(bool(o.IsSome()) && o.Unwrap() == r, "BTreeMap.Remove: the value")
		}
		for i := range s {
			o := m.Get(s[i])
			nd.Assert(bool(o.IsSome()) == (i != 3 && i != r), "BTreeMap.Get: Some exactly when the key is present")
			if o.IsSome() {
				nd.Assert(o.Unwrap() == i, "BTreeMap.Get: the value")
			}
		}
	case 4: // its order
		m := gost.BTreeMapNew[T, int]()
		for _, i := range perm {
			if i != 3 {
				m.Insert(s[i], i)
			}
		}
		m.Remove(s[1])
		m.Remove(s[3])
		ks, vs, es := m.Keys(), m.Values(), m.IntoIter()
		for _, i := range []int{0, 2, 4, 5} {
			k, v, e := ks.Next(), vs.Next(), es.Next()
			nd.Assert(bool(k.IsSome()) && k.Unwrap() == s[i], "BTreeMap.Keys in order")
			nd.Assert(bool(v.IsSome()) && v.Unwrap() == i, "BTreeMap.Values in the order of the keys")
			nd.Assert(bool(e.IsSome()) && e.Unwrap().Key == s[i] && e.Unwrap().Value == i, "BTreeMap.IntoIter in order")
		}
		nd.Assert(bool(ks.Next().IsNone()) && bool(vs.Next().IsNone()) && bool(es.Next().IsNone()), "BTreeMap iterators end")
		nd.Assert(m.Len() == 4, "BTreeMap.Len")
	case 5: // B-tree sets
		a, b := gost.BTreeSetNew[T](), gost.BTreeSetNew[T]()
		for k, i := range perm {
			if k < 4 {
				nd.Assert(bool(a.Insert(s[i])), "BTreeSet.Insert: a new element")
			}
			if k > 2 {
				b.Insert(s[i])
			}
		}
		u, i, d := a.Union(b), a.Intersection(b), a.SymmetricDifference(b)
		sets(s, perm, u.Contains, i.Contains, d.Contains, a.Contains, b.Contains)
		nd.Assert(!bool(a.IsSubset(b)) && !bool(a.IsDisjoint(b)) && !bool(a.Eq(b)), "BTreeSet: relations")
		nd.Assert(bool(b.Remove(s[perm[3]])) && bool(a.IsDisjoint(b)), "BTreeSet: disjoint without the common element")
	}
}

// sets asserts which of the six elements are in the results, when the one set
// has the first four of the arrangement and the other the last three.
func sets[T any](s []T, perm []int, union, inter, diff, a, b func(T) gost.Bool) {
	for k, i := range perm {
		x := s[i]
		nd.Assert(bool(a(x)) == (k < 4) && bool(b(x)) == (k > 2), "sets: the elements inserted")
		nd.Assert(bool(union(x)), "sets: Union")
		nd.Assert(bool(inter(x)) == (k == 3), "sets: Intersection")
		nd.Assert(bool(diff(x)) == (k != 3), "sets: SymmetricDifference")
	}
}

func H_C13_Types() {
	nd.NoMerge()
	nd.Bound(orderedBound)
	orderedTypes(0)
}

func H_C15_Types() {
	nd.NoMerge()
	nd.Bound(orderedBound + ", seven starts of the ring")
	orderedTypes(1)
}

func H_C17_Types() {
	nd.NoMerge()
	nd.Bound(orderedBound)
	orderedTypes(2)
}

func H_C18_Types() {
	nd.NoMerge()
	nd.Bound(orderedBound + ", each removed in turn")
	orderedTypes(3)
}

func H_C19_Types() {
	nd.NoMerge()
	nd.Bound(orderedBound)
	orderedTypes(4)
}

func H_C20_Types() {
	nd.NoMerge()
	nd.Bound(orderedBound)
	orderedTypes(5)
}

// ---- keys of hash containers

func hashTypes(what int) {
	switch nd.Choice("type", 10) {
	case 0:
		b := gost.String(nd.Str("b", 1))
		nd.Assume(b > "a" && b < "z")
		hashed(what, []gost.String{"", "a", "a" + b, b, b + "a", "z"})
	case 1:
		h := nd.U64("hi")
		nd.Assume(h > 1 && h < 1<<63)
		hashed(what, []gost.U128{nd128.MkU128(0, 5), nd128.MkU128(1, 4), nd128.MkU128(h, 0), nd128.MkU128(h, 1), nd128.MkU128(1<<63, 0), nd128.MkU128(math.MaxUint64, math.MaxUint64)})
	case 2:
		hashed(what, []gost.F64{gost.F64(math.Inf(-1)), -1, 0, 5e-324, 1e308, gost.F64(math.Inf(1))})
	case 3:
		hashed(what, []any{nil, 1, gost.I32(1), int64(1), "1", gost.String("1")})
	case 4:
		a, b, c := new(gost.I32), new(gost.I32), new(gost.I32)
		hashed(what, []*gost.I32{a, nil, b, c, new(gost.I32), new(gost.I32)})
	case 5:
		type pair = gost.Pair[gost.I8, gost.String]
		hashed(what, []pair{{-128, "z"}, {-1, ""}, {-1, "a"}, {0, "b"}, {0, "ba"}, {127, ""}})
	case 6:
		hashed(what, [][2]gost.I32{{0, 0}, {0, 1}, {1, 0}, {1, 1}, {2, 1}, {1, 2}})
	case 7:
		e := errors.New("e")
		hashed(what, []error{nil, e, errors.New("e"), gost.TryLockError{}, errors.New(""), errors.New("x")})
	case 8:
		hashed(what, []gost.Char{0, 'a', 'b', 0x7FF, 0xFFFD, 0x10FFFF})
	case 9:
		hashed(what, []gost.I64{math.MinInt64, math.MinInt64 + 1, -1, 1, 1 << 62, math.MaxInt64})
	}
}

const hashBound = "six keys of ten types: strings, 128-bit numbers, floats, interfaces holding equal values of different types and nil, pointers, pairs, arrays, errors, characters and the largest and smallest integers; in six arrangements, forward and reverse enumeration"

func hashed[T comparable](what int, s []T) {
	perm := [][]int{{0, 1, 2, 3, 4, 5}, {5, 4, 3, 2, 1, 0}, {3, 5, 1, 0, 4, 2}, {2, 0, 4, 1, 5, 3}, {1, 0, 3, 2, 5, 4}, {4, 2, 5, 0, 3, 1}}[nd.Choice("arrangement", 6)]
	if what == 1 {
		a, b := gost.HashSetNew[T](), gost.HashSetNew[T]()
		for k, i := range perm {
			if k < 4 {
				nd.Assert(bool(a.Insert(s[i])), "HashSet.Insert: a new element")
			}
			if k > 2 {
				b.Insert(s[i])
			}
		}
		sets(s, perm, a.Union(b).Contains, a.Intersection(b).Contains, a.SymmetricDifference(b).Contains, a.Contains, b.Contains)
		nd.Assert(!bool(a.IsSubset(b)) && !bool(a.IsDisjoint(b)) && !bool(a.Eq(b)), "HashSet: relations")
		nd.Assert(bool(b.Remove(s[perm[3]])) && bool(a.IsDisjoint(b)), "HashSet: disjoint without the common element")
		return
	}
	m := gost.HashMapNew[T, int]()
	for _, i := range perm {
		if i != 3 {
			nd.Assert(bool(m.Insert(s[i], i).IsNone()), "HashMap.Insert: nothing replaced")
		}
	}
	nd.Assert(!bool(m.ContainsKey(s[3])) && bool(m.Get(s[3]).IsNone()) && bool(m.Remove(s[3]).IsNone()), "HashMap: a missing key")
	r := nd.Choice("remove", 6)
	if r != 3 {
		o := m.Remove(s[r])
		nd.Assert(bool(o.IsSome()) && o.Unwrap() == r, "HashMap.Remove: the value")
	}
	n := 0
	for i := range s {
		o := m.Get(s[i])
		nd.Assert(bool(o.IsSome()) == (i != 3 && i != r), "HashMap.Get: Some exactly when the key is present")
		if o.IsSome() {
			nd.Assert(o.Unwrap() == i, "HashMap.Get: the value")
			n++
		}
	}
	nd.Assert(int(m.Len()) == n, "HashMap.Len")
	it := m.IntoIter()
	seen := make([]bool, len(s))
	for ; n > 0; n-- {
		e := it.Next()
		nd.Assert(bool(e.IsSome()), "HashMap iteration yields every entry")
		p := e.Unwrap()
		nd.Assert(!seen[p.Value] && p.Key == s[p.Value], "HashMap iteration yields every entry once")
		seen[p.Value] = true
	}
	nd.Assert(bool(it.Next().IsNone()), "HashMap iteration yields nothing more")
}

func H_C21_Types() {
	nd.NoMerge()
	nd.Bound(hashBound)
	hashTypes(0)
}

func H_C22_Types() {
	nd.NoMerge()
	nd.Bound(hashBound)
	hashTypes(1)
}

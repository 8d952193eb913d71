package h

import (
	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// H_C23_Twins: neighbouring elements with equal contents, or the same one
// twice, are cloned apart from each other too.
func H_C23_Twins() {
	nd.Bound("vectors, rings, lists and a map of three vectors of one element, equal ones among them; the first, second or third of the clone or of the original changed")
	x, y := el("x"), el("y")
	nd.Assume(x != y)
	equal := nd.Choice("equal", 4) // which of the three hold x: all, the first two, the last two, the outer
	val := func(i int) gost.I32 {
		if []bool{true, i < 2, i > 0, i != 1}[equal] {
			return x
		}
		return y
	}
	inner := make([]gost.Vec[gost.I32], 3)
	for i := range inner {
		inner[i] = gost.VecNew[gost.I32]()
		inner[i].Push(val(i))
	}
	at, side := nd.Choice("at", 3), nd.Choice("side", 2)
	var orig, clone func(i int) gost.Vec[gost.I32]
	switch nd.Choice("outer", 4) {
	case 0:
		v := gost.VecNew[gost.Vec[gost.I32]]()
		for _, e := range inner {
			v.Push(e)
		}
		c := v.Clone()
		orig = func(i int) gost.Vec[gost.I32] { return v.GetUnchecked(gost.USize(i)) }
		clone = func(i int) gost.Vec[gost.I32] { return c.GetUnchecked(gost.USize(i)) }
	case 1:
		v := gost.VecDequeWithCapacity[gost.Vec[gost.I32]](4)
		for i := 0; i < 3; i++ {
			v.PushBack(inner[i])
			v.PopFront()
		}
		for _, e := range inner {
			v.PushBack(e)
		}
		c := v.Clone()
		orig = func(i int) gost.Vec[gost.I32] { return v.GetUnchecked(gost.USize(i)) }
		clone = func(i int) gost.Vec[gost.I32] { return c.GetUnchecked(gost.USize(i)) }
	case 2:
		v := gost.LinkedListNew[gost.Vec[gost.I32]]()
		for _, e := range inner {
			v.PushBack(e)
		}
		c := v.Clone()
		nth := func(l gost.LinkedList[gost.Vec[gost.I32]], i int) gost.Vec[gost.I32] {
			return l.IntoIter().CollectToVec().GetUnchecked(gost.USize(i))
		}
		orig = func(i int) gost.Vec[gost.I32] { return nth(v, i) }
		clone = func(i int) gost.Vec[gost.I32] { return nth(c, i) }
	case 3:
		m := gost.HashMapNew[gost.I32, gost.Vec[gost.I32]]()
		for i, e := range inner {
			m.Insert(gost.I32(i), e)
		}
		c := m.Clone()
		orig = func(i int) gost.Vec[gost.I32] { return m.Get(gost.I32(i)).Unwrap() }
		clone = func(i int) gost.Vec[gost.I32] { return c.Get(gost.I32(i)).Unwrap() }
	}
	changed, other := orig, clone
	if side == 1 {
		changed, other = clone, orig
	}
	g := changed(at)
	z := ^val(at)
	g.SetUnchecked(0, z)
	for i := 0; i < 3; i++ {
		o, c := other(i), changed(i)
		nd.Assert(o.GetUnchecked(0) == val(i), "Clone: elements on the other side stay")
		if i == at {
			nd.Assert(c.GetUnchecked(0) == z, "Clone: the changed element")
		} else {
			nd.Assert(c.GetUnchecked(0) == val(i), "Clone: an element with the same contents stays")
		}
	}
}

// H_C23_OwnEq: elements are compared by their own Eq.
func H_C23_OwnEq() {
	nd.Bound("collections of one or two elements whose Eq looks at a part of them only, the whole arbitrary")
	a, b := keyed{gost.I16(nd.I16("a")), int(nd.I8("m"))}, keyed{gost.I16(nd.I16("b")), int(nd.I8("n"))}
	c := keyed{7, 1}
	same := a.k == b.k
	switch nd.Choice("kind", 8) {
	case 0:
		v, w := gost.VecNew[keyed](), gost.VecNew[keyed]()
		v.Push(c)
		v.Push(a)
		w.Push(keyed{7, 2})
		w.Push(b)
		nd.Assert(bool(v.Eq(w)) == same, "Vec.Eq follows the elements' Eq")
	case 1:
		v, w := gost.VecDequeNew[keyed](), gost.VecDequeWithCapacity[keyed](2)
		v.PushBack(c)
		v.PushBack(a)
		w.PushBack(b)
		w.PushFront(keyed{7, 2})
		nd.Assert(bool(v.Eq(w)) == same, "VecDeque.Eq follows the elements' Eq")
		nd.Assert(bool(v.Contains(b)) == (same || b.k == 7), "VecDeque.Contains follows the elements' Eq")
	case 2:
		v, w := gost.LinkedListNew[keyed](), gost.LinkedListNew[keyed]()
		v.PushBack(c)
		v.PushBack(a)
		w.PushBack(keyed{7, 2})
		w.PushBack(b)
		nd.Assert(bool(v.Eq(w)) == same, "LinkedList.Eq follows the elements' Eq")
	case 3:
		v, w := gost.HashMapNew[gost.I32, keyed](), gost.HashMapNew[gost.I32, keyed]()
		v.Insert(1, c)
		v.Insert(2, a)
		w.Insert(2, b)
		w.Insert(1, keyed{7, 2})
		nd.Assert(bool(v.Eq(w)) == same, "HashMap.Eq follows the values' Eq")
	case 4:
		v, w := gost.BTreeMapNew[gost.I32, keyed](), gost.BTreeMapNew[gost.I32, keyed]()
		v.Insert(1, c)
		v.Insert(2, a)
		w.Insert(2, b)
		w.Insert(1, keyed{7, 2})
		nd.Assert(bool(v.Eq(&w)) == same, "BTreeMap.Eq follows the values' Eq")
	case 5:
		nd.Assert(bool(gost.Some(a).Eq(gost.Some(b))) == same, "Option.Eq follows the value's Eq")
	case 6:
		nd.Assert(bool(gost.Ok(a).Eq(gost.Ok(b))) == same, "Result.Eq follows the value's Eq")
	case 7:
		p, q := gost.Pair[gost.I32, keyed]{Key: 1, Value: a}, gost.Pair[gost.I32, keyed]{Key: 1, Value: b}
		nd.Assert(bool(p.Eq(q)) == same, "Pair.Eq follows the value's Eq")
		r, s := gost.Pair[keyed, gost.I32]{Key: a, Value: 1}, gost.Pair[keyed, gost.I32]{Key: b, Value: 1}
		nd.Assert(bool(r.Eq(s)) == same, "Pair.Eq follows the key's Eq")
	}
}

// H_C24_Owned: what an iterator collects is apart from what it came from.
func H_C24_Owned() {
	nd.Bound("vectors and rings of up to 3 arbitrary elements (full or with room, starting at two places) and lists of up to 3; collected at any point of an iteration; one side changed or cleared, the other looked at")
	s := els("e", 1+nd.Choice("n", 3))
	n := len(s)
	x := el("x")
	taken := nd.Choice("taken", n)
	rest := s[taken:]
	skip := func(it gost.Iterator[gost.I32]) gost.Iterator[gost.I32] {
		for i := 0; i < taken; i++ {
			it.Next()
		}
		return it
	}
	toList, side := nd.Choice("to", 2) == 1, nd.Choice("side", 2)
	var it gost.Iterator[gost.I32]
	var change, check func()
	switch nd.Choice("from", 3) {
	case 0:
		v := gost.VecWithCapacity[gost.I32](gost.USize(n + 2*nd.Choice("room", 2)))
		for _, e := range s {
			v.Push(e)
		}
		it = skip(v.IntoIter())
		change = func() { v.Push(x); v.Fill(x); v.Reverse() }
		check = func() { v.Push(x); vecIs(&v, append(clone32(s), x), "Vec: what was collected from it is changed") }
	case 1:
		d, _ := wideRing(n+1+nd.Choice("room", 2), nd.Choice("head", 2), 0)
		for _, e := range s {
			d.PushBack(e)
		}
		it = skip(d.IntoIter())
		change = func() { d.PushBack(x); d.Fill(x) }
		check = func() {
			d.PushBack(x)
			dequeIs(&d, append(clone32(s), x), "VecDeque: what was collected from it is changed")
		}
	case 2:
		l := manyList(s)
		it = skip(l.IntoIter())
		change = func() { l.PushBack(x); *l.Front().Unwrap() = x; *l.Back().Unwrap() = ^x; l.PopFront() }
		check = func() {
			l.PushBack(x)
			listIs(&l, append(clone32(s), x), "LinkedList: what was collected from it is changed")
		}
	}
	if toList {
		l := it.CollectToLinkedList()
		if side == 0 {
			change()
			listIs(&l, rest, "a collected LinkedList: the source is changed")
			return
		}
		l.PushBack(^x)
		*l.Front().Unwrap() = x
		check()
		return
	}
	v := it.CollectToVec()
	if side == 0 {
		change()
		vecIs(&v, rest, "a collected Vec: the source is changed")
		return
	}
	v.Push(^x)
	v.Reverse()
	v.Fill(x)
	check()
}

// H_C13_OwnEq: searching and deduplicating compare elements by their own Eq.
func H_C13_OwnEq() {
	nd.Bound("vectors of three elements whose Eq looks at a part of them only, the whole arbitrary; of vectors and of rings which start at different places")
	if nd.Choice("elements", 2) == 1 {
		x, y := el("x"), el("y")
		ring := func(head int, xs ...gost.I32) gost.VecDeque[gost.I32] {
			d, _ := wideRing(4, head, 0)
			for _, e := range xs {
				d.PushBack(e)
			}
			return d
		}
		v := gost.VecNew[gost.VecDeque[gost.I32]]()
		v.Push(ring(0, x, 5))
		nd.Assert(bool(v.Contains(ring(3, y, 5))) == (x == y), "Vec.Contains finds an equal ring that starts elsewhere")
		v.Push(ring(2, y, 5))
		v.Dedup()
		nd.Assert((v.Len() == 1) == (x == y), "Vec.Dedup drops an equal ring that starts elsewhere")
		w := gost.VecNew[gost.Vec[gost.I32]]()
		one := gost.VecNew[gost.I32]()
		one.Push(x)
		one.Pop()
		w.Push(one)
		nd.Assert(bool(w.Contains(gost.VecNew[gost.I32]())), "Vec.Contains finds an empty vector")
		w.Push(gost.Vec[gost.I32]{})
		w.Dedup()
		nd.Assert(w.Len() == 1, "Vec.Dedup drops a second empty vector")
		return
	}
	s := []keyed{{gost.I16(nd.I16("a")), 1}, {gost.I16(nd.I16("b")), 2}, {gost.I16(nd.I16("c")), 3}}
	v := gost.VecNew[keyed]()
	for _, e := range s {
		v.Push(e)
	}
	q := keyed{gost.I16(nd.I16("q")), 4}
	nd.Assert(bool(v.Contains(q)) == (q.k == s[0].k || q.k == s[1].k || q.k == s[2].k), "Vec.Contains follows the elements' Eq")
	v.Dedup()
	var want []int
	for i, e := range s {
		if i == 0 || e.k != s[i-1].k {
			want = append(want, e.n)
		}
	}
	nd.Assert(int(v.Len()) == len(want), "Vec.Dedup follows the elements' Eq")
	for i, n := range want {
		nd.Assert(v.GetUnchecked(gost.USize(i)).n == n, "Vec.Dedup keeps the first of equal elements")
	}
}

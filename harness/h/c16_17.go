package h

import (
	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// listIs asserts that l holds exactly want, seen from both ends.
func listIs(l *gost.LinkedList[gost.I32], want []gost.I32, what string) {
	n := len(want)
	nd.Assert(int(l.Len()) == n, what+": length")
	nd.Assert(bool(l.IsEmpty()) == (n == 0), what+": IsEmpty")
	f, b := l.Front(), l.Back()
	nd.Assert(bool(f.IsSome()) == (n > 0), what+": front exists")
	nd.Assert(bool(b.IsSome()) == (n > 0), what+": back exists")
	if n > 0 {
		nd.Assert(*f.Unwrap() == want[0], what+": front")
		nd.Assert(*b.Unwrap() == want[n-1], what+": back")
	}
	it := l.IntoIter()
	ok := true
	for i := 0; i < n; i++ {
		o := it.Next()
		nd.Assert(bool(o.IsSome()), what+": iteration is too short")
		ok = ok && o.Unwrap() == want[i]
	}
	nd.Assert(ok, what+": contents")
	nd.Assert(bool(it.Next().IsNone()), what+": iteration is too long")
}

// drainBack pops everything from the back: exercises the prev links.
func drainBack(l *gost.LinkedList[gost.I32], want []gost.I32, what string) {
	for i := len(want) - 1; i >= 0; i-- {
		optIs(l.PopBack(), true, want[i], what)
	}
	optIs(l.PopBack(), false, 0, what)
	optIs(l.PopFront(), false, 0, what)
	listIs(l, nil, what)
}

func mkList(name string, max int) (gost.LinkedList[gost.I32], []gost.I32) {
	l := gost.LinkedListNew[gost.I32]()
	var s []gost.I32
	n := nd.Choice(name+".len", max+1)
	for i := 0; i < n; i++ {
		x := el(name)
		if i%2 == 1 {
			l.PushFront(x)
			s = append([]gost.I32{x}, s...)
		} else {
			l.PushBack(x)
			s = append(clone32(s), x)
		}
	}
	return l, s
}

func listOp(l *gost.LinkedList[gost.I32], s []gost.I32, ops int) []gost.I32 {
	n := len(s)
	switch nd.Choice("op", ops) {
	case 0:
		x := el("pb")
		l.PushBack(x)
		return append(clone32(s), x)
	case 1:
		x := el("pf")
		l.PushFront(x)
		return append([]gost.I32{x}, s...)
	case 2:
		o := l.PopBack()
		if n == 0 {
			optIs(o, false, 0, "PopBack of an empty list")
			return s
		}
		optIs(o, true, s[n-1], "PopBack")
		return s[:n-1]
	case 3:
		o := l.PopFront()
		if n == 0 {
			optIs(o, false, 0, "PopFront of an empty list")
			return s
		}
		optIs(o, true, s[0], "PopFront")
		return s[1:]
	case 4:
		o, more := mkList("app", 3)
		l.Append(&o)
		listIs(&o, nil, "Append leaves the other list empty")
		y, z := el("own"), el("own")
		o.PushBack(y)
		o.PushFront(z)
		listIs(&o, []gost.I32{z, y}, "the emptied list is independent")
		return append(clone32(s), more...)
	case 5:
		l.Clear()
		return nil
	}
	return s
}

func H_C16_History() {
	k := nd.Tier(4, 5)
	nd.Bound("lists of up to 3 starting elements; 4 (quick) or 5 (thorough) operations; arbitrary elements")
	l, s := mkList("x", 3)
	for i := 0; i < k; i++ {
		s = listOp(&l, s, 6)
		listIs(&l, s, "history")
	}
	drainBack(&l, s, "history, drained from the back")
}

func H_C16_Ends() {
	k := nd.Tier(7, 9)
	nd.Bound("7 (quick) or 9 (thorough) pushes and pops at either end, from empty")
	l := gost.LinkedListNew[gost.I32]()
	var s []gost.I32
	for i := 0; i < k; i++ {
		s = listOp(&l, s, 4)
	}
	listIs(&l, s, "push/pop history")
	drainBack(&l, s, "push/pop history, drained from the back")
}

// Front and Back give references to the stored elements.
func H_C16_References() {
	l, s := mkList("x", 3)
	if len(s) == 0 {
		return
	}
	x := el("new")
	if nd.Choice("end", 2) == 0 {
		*l.Front().Unwrap() = x
		s[0] = x
	} else {
		*l.Back().Unwrap() = x
		s[len(s)-1] = x
	}
	listIs(&l, s, "after writing through the reference")
}

// ---- C17

// hv is an element with an order (by k) and an identity (tag, its position in
// hset.keys).
type hv struct {
	k   gost.I8
	tag gost.I32
}

func (a hv) Cmp(b hv) gost.Ordering { return a.k.Cmp(b.k) }
func (a hv) Eq(b hv) gost.Bool      { return a.k == b.k }

// hset is the multiset of elements a heap should hold.
type hset struct {
	keys []gost.I8
	in   []bool
}

func (s *hset) add(k gost.I8) hv {
	s.keys = append(s.keys, k)
	s.in = append(s.in, true)
	return hv{k, gost.I32(len(s.keys) - 1)}
}
func (s *hset) len() int {
	n := 0
	for _, b := range s.in {
		if b {
			n++
		}
	}
	return n
}

// holds asserts that list is an arrangement of the elements present.
func (s *hset) holds(list []hv, what string) {
	nd.Assert(len(list) == s.len(), what+": number of elements")
	seen := make([]bool, len(s.keys))
	ok := true
	for _, e := range list {
		t := int(e.tag)
		nd.Assert(t >= 0 && t < len(s.keys) && s.in[t] && !seen[t], what+": exactly the elements present")
		seen[t] = true
		ok = ok && e.k == s.keys[t]
	}
	nd.Assert(ok, what+": elements unchanged")
}

func heapIs(b *gost.BinaryHeap[hv], s *hset, what string) {
	n := s.len()
	nd.Assert(int(b.Len()) == n, what+": length")
	nd.Assert(bool(b.IsEmpty()) == (n == 0), what+": IsEmpty")
	nd.Assert(int(b.Capacity()) >= n, what+": capacity below length")
	s.holds(b.AsSlice(), what+": AsSlice")
}

// heapPop pops, and takes the popped element out of s.
func heapPop(b *gost.BinaryHeap[hv], s *hset) {
	o := b.Pop()
	n := s.len()
	nd.Assert(bool(o.IsSome()) == (n > 0), "Pop: None exactly when empty")
	if n == 0 {
		return
	}
	m := o.Unwrap()
	t := int(m.tag)
	nd.Assert(t >= 0 && t < len(s.keys) && s.in[t], "Pop: an element that is present")
	nd.Assert(m.k == s.keys[t], "Pop: the element as pushed")
	nd.Merge(1)
	max := true
	for i, x := range s.keys {
		max = max && (!s.in[i] || x <= m.k)
	}
	nd.Assert(max, "Pop: a maximum")
	nd.Merge(0)
	s.in[t] = false
}

func mkHeap(s *hset, name string, max int) gost.BinaryHeap[hv] {
	b := gost.BinaryHeapNew[hv]()
	for _, x := range els8(name, nd.Choice(name+".len", max+1)) {
		b.Push(s.add(x))
	}
	return b
}

func H_C17_PopAll() {
	nd.NoMerge()
	n := nd.Tier(5, 7)
	nd.Bound("heaps of up to 5 (quick) or 7 (thorough) arbitrary elements pushed and all popped")
	s := &hset{}
	b := mkHeap(s, "x", n)
	heapIs(&b, s, "pushes")
	for s.len() > 0 {
		heapPop(&b, s)
		heapIs(&b, s, "pops")
	}
	heapPop(&b, s)
	heapIs(&b, s, "all popped")
}

// larger heaps: fixed elements in a chosen arrangement, two arbitrary ones
func H_C17_Large() {
	nd.NoMerge()
	n := nd.Tier(11, 17)
	nd.Bound("heaps of up to 11 (quick) or 17 (thorough) elements in four fixed arrangements plus one arbitrary element, all popped")
	b := gost.BinaryHeapNew[gost.I32]()
	n = n - 4 + nd.Choice("n", 4)
	mul := []int{1, 3, 5, 7}[nd.Choice("arr", 4)]
	var s []gost.I32
	at := nd.Choice("at", 3)
	for i := 0; i < n; i++ {
		if i == n*at/2 || i == n-1 && at == 2 {
			x := el("x")
			b.Push(x)
			s = append(s, x)
		}
		x := gost.I32(i * mul % 13 * 10)
		b.Push(x)
		s = append(s, x)
	}
	var prev gost.I32
	m := len(s)
	sum := gost.I64(0)
	for _, x := range s {
		sum += gost.I64(x)
	}
	for i := 0; i < m; i++ {
		o := b.Pop()
		nd.Assert(bool(o.IsSome()), "Pop: Some while elements remain")
		x := o.Unwrap()
		nd.Assert(i == 0 || x <= prev, "Pop: descending order")
		sum -= gost.I64(x)
		prev = x
	}
	nd.Assert(bool(b.Pop().IsNone()), "Pop: None when empty")
	nd.Assert(sum == 0, "Pop: the elements that were pushed")
}

func H_C17_History() {
	nd.NoMerge()
	k := nd.Tier(2, 3)
	nd.Bound("heaps of up to 2 (quick) or 3 (thorough) arbitrary elements; 2 (quick) or 3 (thorough) operations; then two elements popped")
	s := &hset{}
	b := mkHeap(s, "x", nd.Tier(2, 3))
	for i := 0; i < k; i++ {
		switch nd.Choice("op", 5) {
		case 0:
			b.Push(s.add(el8("push")))
		case 1:
			heapPop(&b, s)
		case 2:
			o := mkHeap(s, "app", 2)
			b.Append(&o)
			heapIs(&o, &hset{}, "Append leaves the other heap empty")
		case 3:
			b.Clear()
			s = &hset{}
		case 4:
			r := nd.Choice("res", 3)
			b.Reserve(gost.USize(r))
			nd.Assert(int(b.Capacity()) >= s.len()+r, "Reserve: room for the additional elements")
		}
		heapIs(&b, s, "history")
	}
	heapPop(&b, s)
	heapPop(&b, s)
}

func H_C17_IntoVec() {
	nd.NoMerge()
	nd.Bound("heaps of up to 5 (quick) or 6 (thorough) arbitrary elements")
	s := &hset{}
	b := mkHeap(s, "x", nd.Tier(5, 6))
	if nd.Choice("popped", 2) == 1 {
		heapPop(&b, s)
	}
	if nd.Choice("sorted", 2) == 1 {
		v := b.IntoSortedVec()
		sl := v.AsSlice()
		s.holds(sl, "IntoSortedVec")
		nd.Merge(1)
		asc := true
		for i := 1; i < len(sl); i++ {
			asc = asc && sl[i-1].k <= sl[i].k
		}
		nd.Assert(asc, "IntoSortedVec: ascending")
		nd.Merge(0)
	} else {
		v := b.IntoVec()
		s.holds(v.AsSlice(), "IntoVec")
	}
}

func H_C17_Append() {
	nd.NoMerge()
	nd.Bound("heaps of up to 3 and 2 (quick) or 4 (thorough) arbitrary elements appended, all popped")
	s := &hset{}
	b := mkHeap(s, "x", 3)
	o := mkHeap(s, "y", nd.Tier(2, 4))
	b.Append(&o)
	heapIs(&o, &hset{}, "Append leaves the other heap empty")
	t := &hset{}
	o.Push(t.add(el8("own")))
	heapIs(&b, s, "Append")
	heapIs(&o, t, "the emptied heap is independent")
	for s.len() > 0 {
		heapPop(&b, s)
	}
	heapPop(&b, s)
}

// plain integers, and the heap's own constructors
func H_C17_New() {
	nd.NoMerge()
	n := nd.Choice("n", 4)
	b := gost.BinaryHeapWithCapacity[gost.I32](gost.USize(n))
	nd.Assert(b.Len() == 0 && bool(b.IsEmpty()) && int(b.Capacity()) >= n, "BinaryHeapWithCapacity")
	z := gost.BinaryHeapWithLen[gost.I32](gost.USize(n))
	nd.Assert(int(z.Len()) == n, "BinaryHeapWithLen: length")
	x := el("x")
	z.Push(x)
	for i := 0; i <= n; i++ {
		o := z.Pop()
		nd.Assert(bool(o.IsSome()), "Pop: Some while elements remain")
		nd.Assert(o.Unwrap() == 0 || o.Unwrap() == x, "Pop: an element that is present")
		if i == 0 && n > 0 {
			nd.Assert(o.Unwrap() >= x && o.Unwrap() >= 0, "Pop: a maximum")
		}
	}
	nd.Assert(bool(z.Pop().IsNone()), "Pop: None when empty")
	e := gost.BinaryHeapNew[gost.I32]()
	nd.Assert(bool(e.Pop().IsNone()), "Pop: None when empty")
}

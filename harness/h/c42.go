package h

import (
	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// How many comparisons searching, sorting and the ordered collections take.

// cost counts the comparisons of its elements.
type cost struct{ k gost.I16 }

var compared int

func (a cost) Cmp(b cost) gost.Ordering {
	compared++
	return a.k.Cmp(b.k)
}
func (a cost) Eq(b cost) gost.Bool {
	compared++
	return a.k == b.k
}

func cmpCost(a, b cost) gost.Ordering { return a.Cmp(b) }

// costs asserts that f takes at most max comparisons.
func costs(max int, what string, f func()) {
	compared = 0
	f()
	nd.Observe(what, compared)
	nd.Assert(compared <= max, what+": the number of comparisons")
}

// log2 is the number of binary digits of n.
func log2(n int) int {
	r := 0
	for ; n > 0; n /= 2 {
		r++
	}
	return r
}

func H_C42_Search() {
	nd.NoMerge()
	nd.Bound("sorted Vec and VecDeque (starting at two places) of 200 (thorough: 1000) even numbers, an arbitrary number sought: at most 3 log n comparisons")
	n := nd.Tier(200, 1000)
	q := cost{gost.I16(nd.I16("q"))}
	there := q.k >= 0 && int(q.k) < 2*n && q.k%2 == 0
	max := 3 * log2(n)
	by := nd.Choice("by", 2) == 1
	order := func(x cost) gost.Ordering { return x.Cmp(q) }
	switch nd.Choice("kind", 2) {
	case 0:
		v := gost.VecNew[cost]()
		for i := 0; i < n; i++ {
			v.Push(cost{gost.I16(2 * i)})
		}
		costs(max, "Vec.BinarySearch", func() {
			var o gost.Option[gost.USize]
			if by {
				o = v.BinarySearchBy(order)
			} else {
				o = v.BinarySearch(q)
			}
			nd.Assert(bool(o.IsSome()) == there, "Vec.BinarySearch finds")
		})
	case 1:
		d := gost.VecDequeWithCapacity[cost](gost.USize(n + 1))
		for i := []int{0, n / 3, n}[nd.Choice("head", 2)+1]; i > 0; i-- {
			d.PushBack(cost{})
			d.PopFront()
		}
		for i := 0; i < n; i++ {
			d.PushBack(cost{gost.I16(2 * i)})
		}
		costs(max, "VecDeque.BinarySearch", func() {
			var o gost.Option[gost.USize]
			if by {
				o = d.BinarySearchBy(order)
			} else {
				o = d.BinarySearch(q)
			}
			nd.Assert(bool(o.IsSome()) == there, "VecDeque.BinarySearch finds")
		})
	}
}

// arranged gives the i-th of n keys in one of several arrangements.
func arranged(how, n, i int) gost.I16 {
	switch how {
	case 5: // all equal
		return 7
	case 6: // few different
		return gost.I16(i * 7 % 5)
	case 7: // two runs
		if i < n/2 {
			return gost.I16(i)
		}
		return gost.I16(i - n/2)
	}
	return gost.I16(permute(how, n, i))
}

func H_C42_Sort() {
	nd.NoMerge()
	nd.Bound("Vec and VecDeque of 129 numbers (thorough: 257) in eight arrangements, one of them arbitrary (a multiple of 16 or beyond the others): sorting takes at most 4 n log n comparisons")
	n := nd.Tier(129, 257)
	how := nd.Choice("arrangement", 8)
	if how == 3 {
		n--
	}
	at := nd.Choice("at", nd.Tier(1, 3)) * (n - 1) / 2
	x := gost.I16(nd.I16("x"))
	nd.Assume(x%16 == 0 || x < 0 || int(x) > n)
	key := func(i int) cost {
		if i == at {
			return cost{x}
		}
		return cost{arranged(how, n, i)}
	}
	max := 4 * n * log2(n)
	stable := nd.Choice("form", 4)
	switch nd.Choice("kind", 2) {
	case 0:
		v := gost.VecNew[cost]()
		for i := 0; i < n; i++ {
			v.Push(key(i))
		}
		costs(max, "sorting a Vec", func() {
			switch stable {
			case 0:
				v.Sort()
			case 1:
				v.SortBy(cmpCost)
			case 2:
				v.SortUnstable()
			case 3:
				v.SortUnstableBy(cmpCost)
			}
		})
	case 1:
		d := gost.VecDequeNew[cost]()
		for i := 0; i < n; i++ {
			d.PushBack(key(i))
		}
		costs(max, "sorting a VecDeque", func() {
			switch stable {
			case 0:
				d.Sort()
			case 1:
				d.SortBy(cmpCost)
			case 2:
				d.SortUnstable()
			case 3:
				d.SortUnstableBy(cmpCost)
			}
		})
	}
}

func H_C42_Heap() {
	nd.NoMerge()
	nd.Bound("heaps of 100 (thorough: 400) numbers in eight arrangements: pushing an arbitrary one and popping twice takes at most 4 log n comparisons each")
	n := nd.Tier(100, 400)
	how := nd.Choice("arrangement", 8)
	b := gost.BinaryHeapNew[cost]()
	max := 4 * log2(n)
	for i := 0; i < n; i++ {
		x := cost{arranged(how, n, i)}
		compared = 0
		b.Push(x)
		nd.Assert(compared <= max, "BinaryHeap.Push: the number of comparisons")
	}
	x := cost{gost.I16(nd.I16("x"))}
	costs(max, "BinaryHeap.Push", func() { b.Push(x) })
	costs(max, "BinaryHeap.Pop", func() { b.Pop() })
	costs(max, "BinaryHeap.Pop", func() { b.Pop() })
}

func H_C42_BTree() {
	nd.NoMerge()
	nd.Bound("B-trees of 200 (thorough: 600) even keys in five insertion orders, also after removing most of them; lookup, insertion or removal of a key out of 8 regions; at most 12 log n comparisons")
	n := nd.Tier(200, 600)
	order := nd.Choice("order", 5)
	m := gost.BTreeMapNew[cost, gost.I32]()
	max := 12 * log2(n)
	for i := 0; i < n; i++ {
		x := cost{gost.I16(2 * permute(order, n, i))}
		compared = 0
		m.Insert(x, 0)
		nd.Assert(compared <= max, "BTreeMap.Insert: the number of comparisons")
	}
	if nd.Choice("thinned", 2) == 1 {
		for i := 0; i < n-n/8; i++ {
			compared = 0
			m.Remove(cost{gost.I16(2 * permute(4, n, i))})
			nd.Assert(compared <= max, "BTreeMap.Remove: the number of comparisons")
		}
	}
	q := cost{gost.I16(nd.I16("q"))}
	nd.Assume(q.k%64 < 2 && q.k < 450 || q.k < 0 || int(q.k) > 2*n-3)
	switch nd.Choice("op", 4) {
	case 0:
		costs(max, "BTreeMap.Get", func() { m.Get(q) })
	case 1:
		costs(max, "BTreeMap.ContainsKey", func() { m.ContainsKey(q) })
	case 2:
		costs(max, "BTreeMap.Insert", func() { m.Insert(q, 1) })
	case 3:
		costs(max, "BTreeMap.Remove", func() { m.Remove(q) })
	}
}

func H_C42_BTreeDeep() {
	nd.NoMerge()
	nd.Steps(400_000_000)
	nd.Bound("B-trees of 3000 (thorough: 12000) even keys in ascending or mixed order; lookup of a key next to a multiple of 1024 (4096) or beyond all; at most 8 log n comparisons")
	n := nd.Tier(3000, 12000)
	m := gost.BTreeMapNew[cost, gost.I32]()
	order := []int{0, 4}[nd.Choice("order", 2)]
	for i := 0; i < n; i++ {
		m.Insert(cost{gost.I16(2 * permute(order, n, i))}, 0)
	}
	q := cost{gost.I16(nd.I16("q"))}
	every := gost.I16(nd.Tier(1024, 4096))
	nd.Assume(q.k > 0 && int(q.k) < 2*n && q.k%every < 2 || q.k == -1 || int(q.k) == 2*n+1)
	there := q.k >= 0 && int(q.k) < 2*n && q.k%2 == 0
	switch nd.Choice("op", 2) {
	case 0:
		costs(8*log2(n), "BTreeMap.Get in a large map", func() {
			nd.Assert(bool(m.Get(q).IsSome()) == there, "BTreeMap.Get finds")
		})
	case 1:
		costs(8*log2(n), "BTreeMap.ContainsKey in a large map", func() {
			nd.Assert(bool(m.ContainsKey(q)) == there, "BTreeMap.ContainsKey finds")
		})
	}
}

func H_C42_Growth() {
	nd.Bound("5000 (thorough: 20000) elements pushed onto a Vec, VecDeque (either end) or BinaryHeap from capacity 0..2: at most 4 log n changes of the capacity")
	n := nd.Tier(5000, 20000)
	nd.Steps(100_000_000)
	c := gost.USize(nd.Choice("capacity", 3))
	var push func(gost.I32)
	var capacity func() gost.USize
	switch nd.Choice("kind", 4) {
	case 0:
		v := gost.VecWithCapacity[gost.I32](c)
		push, capacity = v.Push, func() gost.USize { return v.Capacity() }
	case 1:
		d := gost.VecDequeWithCapacity[gost.I32](c)
		push, capacity = d.PushBack, func() gost.USize { return d.Capacity() }
	case 2:
		d := gost.VecDequeWithCapacity[gost.I32](c)
		push, capacity = d.PushFront, func() gost.USize { return d.Capacity() }
	case 3:
		b := gost.BinaryHeapWithCapacity[gost.I32](c)
		push, capacity = b.Push, func() gost.USize { return b.Capacity() }
	}
	grown, last := 0, capacity()
	for i := 0; i < n; i++ {
		push(gost.I32(-i))
		if now := capacity(); now != last {
			grown++
			last = now
		}
	}
	nd.Observe("grown", grown)
	nd.Assert(grown <= 4*log2(n), "the number of times the capacity changes")
	nd.Assert(last >= gost.USize(n), "the capacity suffices")
}

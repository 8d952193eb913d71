package h

import (
	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// Collections of thousands of elements.

const thousandsBound = "1030 and 2100 (thorough: and 5000) elements, one of them arbitrary; "

func thousands() int { return []int{1030, 2100, 5000}[nd.Choice("n", nd.Tier(2, 3))] }

func vec5k(n int, x gost.I32) (gost.Vec[gost.I32], []gost.I32) {
	v := gost.VecNew[gost.I32]()
	var want []gost.I32
	for i := 0; i < n; i++ {
		y := gost.I32(3 * i)
		if i == n/2 {
			y = x
		}
		v.Push(y)
		want = append(want, y)
	}
	return v, want
}

func vec5kIs(v gost.Vec[gost.I32], want []gost.I32, what string) {
	nd.Steps(60000000)
	nd.Assert(int(v.Len()) == len(want), what)
	diff := gost.I32(0)
	for i, w := range want {
		diff |= v.GetUnchecked(gost.USize(i)) ^ w
	}
	nd.Assert(diff == 0, what)
}

func H_C12_Thousands() {
	nd.NoMerge()
	nd.Steps(60000000)
	nd.Bound("a Vec of " + thousandsBound + "one operation")
	n, x := thousands(), gost.I32(nd.I32("x"))
	v, w := vec5k(n, x)
	y := gost.I32(nd.I32("y"))
	at := []int{0, 1, n / 2, n - 1}[nd.Choice("at", 4)]
	switch nd.Choice("op", 8) {
	case 0:
		v.Push(y)
		w = append(w, y)
	case 1:
		r := v.Pop()
		nd.Assert(bool(r.IsSome()) && r.Unwrap() == w[n-1], "Pop: the last")
		w = w[:n-1]
	case 2:
		v.Insert(gost.USize(at), y)
		w = append(w[:at:at], append([]gost.I32{y}, w[at:]...)...)
	case 3:
		r := v.Set(gost.USize(at), y)
		nd.Assert(bool(r.IsNone()), "Set succeeds")
		w[at] = y
	case 4:
		v.Swap(gost.USize(at), gost.USize(n/2+1))
		w = append([]gost.I32{}, w...)
		w[at], w[n/2+1] = w[n/2+1], w[at]
	case 5:
		v.Reverse()
		w = reversed(w)
	case 6:
		o, ow := vec5k(n+5, y)
		v.Append(&o)
		nd.Assert(o.Len() == 0, "Append empties the other")
		w = append(w, ow...)
	case 7:
		v.Clear()
		w = nil
	}
	vec5kIs(v, w, "a Vec of thousands")
}

func H_C13_Thousands() {
	nd.NoMerge()
	nd.Steps(60000000)
	nd.Bound("a Vec of " + thousandsBound + "sorted, searched, deduplicated or thinned out")
	n, x := thousands(), gost.I32(nd.I16("x"))
	op := nd.Choice("op", 5)
	switch op {
	case 0, 1: // sorted from a jumble
		nd.Assume(x%512 == 0)
		v := gost.VecNew[gost.I32]()
		count := make([]int, n)
		for i := 0; i < n; i++ {
			y := (i * 619) % n
			count[y]++
			v.Push(gost.I32(y))
		}
		v.Push(x)
		if op == 0 {
			v.Sort()
		} else {
			v.SortBy(func(a, b gost.I32) gost.Ordering { return b.Cmp(a) })
		}
		nd.Assert(int(v.Len()) == n+1, "a sorted Vec keeps its length")
		sum, ok := gost.I32(0), true
		for i := 0; i <= n; i++ {
			e := v.GetUnchecked(gost.USize(i))
			sum += e
			if i > 0 {
				p := v.GetUnchecked(gost.USize(i - 1))
				if op == 1 {
					p, e = e, p
				}
				nd.Assert(p <= e, "a sorted Vec is in order")
			}
		}
		want := x
		for y, k := range count {
			want += gost.I32(y * k)
		}
		nd.Assert(ok && sum == want, "a sorted Vec holds what it held")
	case 2: // searched
		v, _ := vec5k(n, gost.I32(3*(n/2)))
		q := x
		nd.Assume(q < 100 || q > gost.I32(3*n-100) || q%256 == 0)
		there := q >= 0 && int(q) < 3*n && q%3 == 0
		var o gost.Option[gost.USize]
		if nd.Choice("by", 2) == 0 {
			o = v.BinarySearch(q)
		} else {
			o = v.BinarySearchBy(func(e gost.I32) gost.Ordering { return e.Cmp(q) })
		}
		nd.Assert(bool(o.IsSome()) == there, "searching a Vec of thousands finds exactly what is there")
		if o.IsSome() {
			nd.Assert(gost.I32(o.Unwrap())*3 == q, "searching a Vec of thousands: the index")
		}
	case 3: // pairs, one of them broken
		v := gost.VecNew[gost.I32]()
		var w []gost.I32
		for i := 0; i < n; i++ {
			y := gost.I32(i / 2)
			if i == n/2 {
				y = x
			}
			if len(w) == 0 || w[len(w)-1] != y {
				w = append(w, y)
			}
			v.Push(y)
		}
		v.Dedup()
		vec5kIs(v, w, "Dedup of a Vec of thousands")
	case 4:
		v, all := vec5k(n, x)
		cut := gost.I32(3 * n / 2)
		v.Retain(func(e gost.I32) gost.Bool { return e < cut })
		var w []gost.I32
		for _, e := range all {
			if e < cut {
				w = append(w, e)
			}
		}
		vec5kIs(v, w, "Retain on a Vec of thousands")
	}
}

func H_C14_Thousands() {
	nd.NoMerge()
	nd.Steps(60000000)
	nd.Bound("a VecDeque of " + thousandsBound + "begun at the front of its ring or far into it, one operation, then all taken from either end")
	n, x := thousands(), gost.I32(nd.I32("x"))
	d := gost.VecDequeNew[gost.I32]()
	for i, k := 0, 700*nd.Choice("into", 2); i < k; i++ {
		d.PushBack(0)
		if i%2 == 0 {
			d.PopFront()
		}
	}
	for d.Len() > 0 {
		d.PopFront()
	}
	var w []gost.I32
	for i := 0; i < n; i++ {
		y := gost.I32(3 * i)
		if i == n/2 {
			y = x
		}
		d.PushBack(y)
		w = append(w, y)
	}
	y := gost.I32(nd.I32("y"))
	at := []int{0, 1, n / 2, n - 1}[nd.Choice("at", 4)]
	switch nd.Choice("op", 6) {
	case 0:
		d.PushFront(y)
		w = append([]gost.I32{y}, w...)
	case 1:
		d.Swap(gost.USize(at), gost.USize(n/2+1))
		w[at], w[n/2+1] = w[n/2+1], w[at]
	case 2:
		r := d.Set(gost.USize(at), y)
		nd.Assert(bool(r.IsNone()), "Set succeeds")
		w[at] = y
	case 3:
		o := gost.VecDequeNew[gost.I32]()
		for i := 0; i < n+5; i++ {
			o.PushBack(y)
			w = append(w, y)
		}
		d.Append(&o)
		nd.Assert(o.Len() == 0, "Append empties the other")
	case 4:
		c := d.Clone()
		d.Clear()
		nd.Assert(d.Len() == 0 && bool(d.PopFront().IsNone()), "Clear empties")
		d = *c
	}
	nd.Assert(int(d.Len()) == len(w), "the length of a deque of thousands")
	diff, front := gost.I32(0), nd.Choice("front", 2) == 0
	for i := range w {
		if front {
			r := d.PopFront()
			diff |= r.Unwrap() ^ w[i]
		} else {
			r := d.PopBack()
			diff |= r.Unwrap() ^ w[len(w)-1-i]
		}
	}
	nd.Assert(diff == 0 && d.Len() == 0, "a deque of thousands gives back its elements in order")
}

func H_C16_Thousands() {
	nd.NoMerge()
	nd.Steps(60000000)
	nd.Bound("a LinkedList of " + thousandsBound + "one operation, then all taken from either end")
	n, x := thousands(), gost.I32(nd.I32("x"))
	l, w := list5k(n, x)
	y := gost.I32(nd.I32("y"))
	switch nd.Choice("op", 4) {
	case 0:
		l.PushFront(y)
		w = append([]gost.I32{y}, w...)
	case 1:
		l.PushBack(y)
		w = append(w, y)
	case 2:
		o, ow := list5k(n+5, y)
		l.Append(&o)
		nd.Assert(o.Len() == 0, "Append empties the other")
		w = append(w, ow...)
	case 3:
		c := l.Clone()
		l.Clear()
		nd.Assert(l.Len() == 0 && bool(l.PopFront().IsNone()) && bool(l.PopBack().IsNone()), "Clear empties")
		l = c
	}
	nd.Assert(int(l.Len()) == len(w), "the length of a list of thousands")
	diff, front := gost.I32(0), nd.Choice("front", 2) == 0
	for i := range w {
		if front {
			r := l.PopFront()
			diff |= r.Unwrap() ^ w[i]
		} else {
			r := l.PopBack()
			diff |= r.Unwrap() ^ w[len(w)-1-i]
		}
	}
	nd.Assert(diff == 0 && l.Len() == 0, "a list of thousands gives back its elements in order")
}

func list5k(n int, x gost.I32) (gost.LinkedList[gost.I32], []gost.I32) {
	l := gost.LinkedListNew[gost.I32]()
	var w []gost.I32
	for i := 0; i < n; i++ {
		y := gost.I32(3 * i)
		if i == n/2 {
			y = x
		}
		l.PushBack(y)
		w = append(w, y)
	}
	return l, w
}

func H_C17_Thousands() {
	nd.NoMerge()
	nd.Steps(60000000)
	nd.Bound("a heap of " + thousandsBound + "cleared and used again, or emptied")
	n, x := thousands(), gost.I32(nd.I16("x"))
	nd.Assume(x%512 == 0)
	b := gost.BinaryHeapNew[gost.I32]()
	for i := 0; i < n; i++ {
		b.Push(gost.I32((i * 619) % n))
	}
	b.Push(x)
	nd.Assert(int(b.Len()) == n+1, "the length of a heap of thousands")
	switch nd.Choice("op", 3) {
	case 0:
		b.Clear()
		nd.Assert(b.Len() == 0 && bool(b.IsEmpty()) && bool(b.Pop().IsNone()), "Clear empties")
		b.Push(2)
		b.Push(x)
		r := b.Pop()
		nd.Assert(r.Unwrap() >= x && r.Unwrap() >= 2 && b.Len() == 1, "a cleared heap works")
	case 1:
		seen, last := false, gost.I32(1<<20)
		want := n - 1
		for i := 0; i <= n; i++ {
			r := b.Pop()
			nd.Assert(bool(r.IsSome()), "a heap gives all its elements")
			e := r.Unwrap()
			nd.Assert(e <= last, "a heap gives the largest first")
			last = e
			if !seen && e == x {
				seen = true
				continue
			}
			nd.Assert(e == gost.I32(want), "a heap gives every element")
			want--
		}
		nd.Assert(bool(b.Pop().IsNone()), "and then nothing")
	case 2:
		v := b.IntoSortedVec()
		nd.Assert(int(v.Len()) == n+1, "a heap taken sorted has all its elements")
		want, seen := 0, false
		for i := 0; i <= n; i++ {
			e := v.GetUnchecked(gost.USize(i))
			if !seen && e == x {
				seen = true
				continue
			}
			nd.Assert(e == gost.I32(want), "a heap taken sorted is in order")
			want++
		}
	}
}

package h

import (
	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// dequeIs asserts that d holds exactly want.
func dequeIs(d *gost.VecDeque[gost.I32], want []gost.I32, what string) {
	n := len(want)
	nd.Assert(int(d.Len()) == n, what+": length")
	nd.Assert(bool(d.IsEmpty()) == (n == 0), what+": IsEmpty")
	nd.Assert(int(d.Capacity()) >= n, what+": capacity below length")
	ok := true
	for i := range want {
		ok = ok && d.GetUnchecked(gost.USize(i)) == want[i]
		g := d.Get(gost.USize(i))
		nd.Assert(bool(g.IsSome()), what+": Get in range")
		ok = ok && g.Unwrap() == want[i]
	}
	nd.Assert(ok, what+": contents")
	nd.Assert(bool(d.Get(gost.USize(n)).IsNone()), what+": Get past the end is None")
	f, b := d.Front(), d.Back()
	if n == 0 {
		nd.Assert(bool(f.IsNone()) && bool(b.IsNone()), what+": no front and no back")
		return
	}
	nd.Assert(bool(f.IsSome()) && bool(b.IsSome()), what+": front and back")
	nd.Assert(f.Unwrap() == want[0], what+": front")
	nd.Assert(b.Unwrap() == want[n-1], what+": back")
}

// ring builds a deque of a chosen capacity, with the ring starting at a chosen
// slot (all other slots hold arbitrary junk) and a chosen fill level.
func ring(name string, maxCap int, contents func(n int) []gost.I32) (gost.VecDeque[gost.I32], []gost.I32) {
	c := 1 + nd.Choice(name+".cap", maxCap)
	h := nd.Choice(name+".head", c)
	n := nd.Choice(name+".len", c+1)
	d := gost.VecDequeWithCapacity[gost.I32](gost.USize(c))
	for i := 0; i < c; i++ {
		d.PushBack(-77)
	}
	for i := 0; i < c; i++ {
		d.PopFront()
	}
	for i := 0; i < h; i++ {
		d.PushBack(-77)
		d.PopFront()
	}
	s := contents(n)
	for _, x := range s {
		d.PushBack(x)
	}
	return d, s
}

func arb(n int) []gost.I32 { return els("x", n) }

func dequeOp(d *gost.VecDeque[gost.I32], s []gost.I32, ops int) []gost.I32 {
	n := len(s)
	switch nd.Choice("op", ops) {
	case 0:
		x := el("pb")
		d.PushBack(x)
		return append(clone32(s), x)
	case 1:
		x := el("pf")
		d.PushFront(x)
		return append([]gost.I32{x}, s...)
	case 2:
		o := d.PopBack()
		if n == 0 {
			optIs(o, false, 0, "PopBack of an empty deque")
			return s
		}
		optIs(o, true, s[n-1], "PopBack")
		return s[:n-1]
	case 3:
		o := d.PopFront()
		if n == 0 {
			optIs(o, false, 0, "PopFront of an empty deque")
			return s
		}
		optIs(o, true, s[0], "PopFront")
		return s[1:]
	case 4:
		r := nd.Choice("res", 4)
		d.Reserve(gost.USize(r))
		nd.Assert(int(d.Capacity()) >= n+r, "Reserve: room for the additional elements")
		return s
	case 5:
		i := nd.U64("idx")
		x := el("set")
		r := d.Set(gost.USize(i), x)
		if i < uint64(n) {
			nd.Assert(bool(r.IsNone()), "Set: None when the element exists")
			t := clone32(s)
			for k := range t {
				if uint64(k) == i {
					t[k] = x
				}
			}
			return t
		}
		nd.Assert(bool(r.IsSome()), "Set: hands the value back when the index does not exist")
		nd.Assert(r.Unwrap() == x, "Set: hands the value back when the index does not exist")
		return s
	case 6:
		if n == 0 {
			return s
		}
		i, j := nd.Choice("a", n), nd.Choice("b", n)
		d.Swap(gost.USize(i), gost.USize(j))
		t := clone32(s)
		t[i], t[j] = t[j], t[i]
		return t
	case 7:
		keep := make([]bool, n)
		for i := range keep {
			keep[i] = nd.Choice("keep", 2) == 1
		}
		k, ok := 0, true
		d.Retain(func(x gost.I32) gost.Bool {
			ok = ok && k < n && x == s[k]
			k++
			return gost.Bool(keep[k-1])
		})
		nd.Assert(ok && k == n, "Retain: asks about every element once, in order")
		var t []gost.I32
		for i := range s {
			if keep[i] {
				t = append(t, s[i])
			}
		}
		return t
	case 8:
		d.Clear()
		return nil
	case 9:
		x := el("fill")
		d.Fill(x)
		t := clone32(s)
		for i := range t {
			t[i] = x
		}
		return t
	case 10:
		xs := els("fillw", n)
		k := 0
		d.FillWith(func() gost.I32 { k++; return xs[k-1] })
		nd.Assert(k == n, "FillWith: calls the function once per element")
		return xs
	case 11:
		o, more := ring("o", 2, func(m int) []gost.I32 { return els("app", m) })
		d.Append(&o)
		dequeIs(&o, nil, "Append leaves the other deque empty")
		y := el("own")
		o.PushFront(y)
		dequeIs(&o, []gost.I32{y}, "the emptied deque is independent")
		return append(clone32(s), more...)
	}
	return s
}

// Histories from every ring layout of small capacity.
func H_C14_History() {
	k := nd.Tier(2, 3)
	nd.Bound("every head position and fill level of rings of capacity 1..4; 2 (quick) or 3 (thorough) operations of any kind, arbitrary elements and indices")
	d, s := ring("r", 4, arb)
	dequeIs(&d, s, "pushes")
	for i := 0; i < k; i++ {
		s = dequeOp(&d, s, 12)
		dequeIs(&d, s, "history")
	}
}

// Longer histories of pushes, pops and reservations.
func H_C14_Ends() {
	k := nd.Tier(4, 6)
	nd.Bound("every head position and fill level of rings of capacity 1..3; 4 (quick) or 6 (thorough) pushes, pops (either end) and reservations")
	d, s := ring("r", 3, arb)
	for i := 0; i < k; i++ {
		s = dequeOp(&d, s, 5)
	}
	dequeIs(&d, s, "history")
}

// Growth of larger rings.
func H_C14_Grow() {
	nd.Bound("every head position and fill level of rings of capacity 1..7 (quick) or 1..12 (thorough); growth by a push at either end or a reservation of 1..8")
	d, s := ring("r", nd.Tier(7, 12), arb)
	switch nd.Choice("by", 3) {
	case 0:
		for i := 0; i < 2; i++ {
			x := el("pb")
			d.PushBack(x)
			s = append(clone32(s), x)
		}
	case 1:
		for i := 0; i < 2; i++ {
			x := el("pf")
			d.PushFront(x)
			s = append([]gost.I32{x}, s...)
		}
	case 2:
		r := 1 + nd.Choice("r", 8)
		d.Reserve(gost.USize(r))
		nd.Assert(int(d.Capacity()) >= len(s)+r, "Reserve: room for the additional elements")
	}
	dequeIs(&d, s, "after growth")
	if len(s) > 0 {
		optIs(d.PopBack(), true, s[len(s)-1], "PopBack after growth")
	}
	x := el("end")
	d.PushBack(x)
	if len(s) > 0 {
		s = append(clone32(s[:len(s)-1]), x)
	} else {
		s = []gost.I32{x}
	}
	dequeIs(&d, s, "after growth")
}

// The default deque through two doublings.
func H_C14_Default() {
	nd.Bound("the default deque (capacity 7) starting anywhere, filled at either end to 16 or 30 elements")
	d := gost.VecDequeNew[gost.I32]()
	h := nd.Choice("head", 7)
	for i := 0; i < h; i++ {
		d.PushBack(-77)
		d.PopFront()
	}
	var s []gost.I32
	at := nd.Choice("alternate", 4)
	n := 16
	if nd.Choice("long", 2) == 1 {
		n = 30
	}
	for i := 0; i < n; i++ {
		x := el("x")
		if at == 0 || at > 1 && i%at == 0 {
			d.PushFront(x)
			s = append([]gost.I32{x}, s...)
		} else {
			d.PushBack(x)
			s = append(clone32(s), x)
		}
	}
	dequeIs(&d, s, "filled")
	for len(s) > 0 {
		if len(s)%3 == 0 {
			optIs(d.PopFront(), true, s[0], "PopFront")
			s = s[1:]
		} else {
			optIs(d.PopBack(), true, s[len(s)-1], "PopBack")
			s = s[:len(s)-1]
		}
	}
	dequeIs(&d, nil, "drained")
}

func H_C14_New() {
	n := nd.Choice("n", 5)
	d := gost.VecDequeWithLen[gost.I32](gost.USize(n))
	dequeIs(&d, make([]gost.I32, n), "VecDequeWithLen")
	w := gost.VecDequeWithCapacity[gost.I32](gost.USize(n))
	dequeIs(&w, nil, "VecDequeWithCapacity")
	nd.Assert(int(w.Capacity()) >= n, "VecDequeWithCapacity: capacity")
	x := el("x")
	w.PushFront(x)
	dequeIs(&w, []gost.I32{x}, "first push")
	z := gost.VecDequeNew[gost.I32]()
	dequeIs(&z, nil, "VecDequeNew")
}

// ---- C15

func freshDeque(s []gost.I32) gost.VecDeque[gost.I32] {
	d := gost.VecDequeWithCapacity[gost.I32](gost.USize(len(s) + 1))
	for _, x := range s {
		d.PushBack(x)
	}
	return d
}

func H_C15_Sort() {
	nd.Bound("every head position and fill level of rings of capacity 1..4 (quick) or 1..5 (thorough), arbitrary elements")
	d, s := ring("r", nd.Tier(4, 5), arb)
	le := func(a, b gost.I32) gost.Ordering { return a.Cmp(b) }
	desc := false
	switch nd.Choice("form", 5) {
	case 0:
		d.Sort()
	case 1:
		d.SortUnstable()
	case 2:
		d.SortBy(le)
	case 3:
		d.SortUnstableBy(le)
	case 4:
		desc = true
		d.SortBy(func(a, b gost.I32) gost.Ordering { return b.Cmp(a) })
	}
	nd.Assert(int(d.Len()) == len(s), "Sort: keeps the number of elements")
	got := make([]gost.I32, len(s))
	for i := range got {
		got[i] = d.GetUnchecked(gost.USize(i))
	}
	nd.Assert(same32(d.AsSlice(), got), "AsSlice after Sort")
	if desc {
		for i := 0; i < len(got)/2; i++ {
			got[i], got[len(got)-1-i] = got[len(got)-1-i], got[i]
		}
	}
	sortedPerm(got, s, "Sort")
	x := el("after")
	d.PushFront(x)
	optIs(d.Front(), true, x, "push after Sort")
	nd.Assert(int(d.Len()) == len(s)+1, "push after Sort: length")
}

func H_C15_SortStable() {
	c := 1 + nd.Choice("cap", nd.Tier(4, 5))
	h := nd.Choice("head", c)
	n := nd.Choice("len", c+1)
	nd.Bound("every head position and fill level of rings of capacity 1..4 (quick) or 1..5 (thorough); records with arbitrary keys")
	d := gost.VecDequeWithCapacity[kv](gost.USize(c))
	for i := 0; i < h; i++ {
		d.PushBack(kv{-1, -1})
		d.PopFront()
	}
	in := els("k", n)
	for i, x := range in {
		d.PushBack(kv{x, gost.I32(i)})
	}
	unst := nd.Choice("unstable", 2) == 1
	if unst {
		d.SortUnstableBy(cmpK)
	} else {
		d.SortBy(cmpK)
	}
	got := make([]kv, n)
	nd.Assert(int(d.Len()) == n, "SortBy: keeps the number of elements")
	for i := range got {
		got[i] = d.GetUnchecked(gost.USize(i))
	}
	stablePerm(got, n, in, !unst, "SortBy")
}

func H_C15_SortLong() {
	n := nd.Tier(24, 30)
	nd.Bound("a wrapped ring of 24 (quick) or 30 (thorough) records with fixed keys, except for one arbitrary key at any of three positions")
	d := gost.VecDequeWithCapacity[kv](gost.USize(n + 2))
	for i := 0; i < n/2; i++ {
		d.PushBack(kv{-1, -1})
		d.PopFront()
	}
	in := make([]gost.I32, n)
	for i := range in {
		in[i] = gost.I32(i * 7 % 5)
	}
	in[[]int{0, 11, n - 1}[nd.Choice("at", 3)]] = el("x")
	for i, x := range in {
		d.PushBack(kv{x, gost.I32(i)})
	}
	d.SortBy(cmpK)
	got := make([]kv, n)
	for i := range got {
		got[i] = d.GetUnchecked(gost.USize(i))
	}
	stablePerm(got, n, in, true, "SortBy")
}

func H_C15_Search() {
	nd.NoMerge()
	nd.Bound("every head position and fill level of rings of capacity 1..4 (quick) or 1..6 (thorough), arbitrary sorted elements, arbitrary sought value")
	d, s := ring("r", nd.Tier(4, 6), arb)
	for i := 1; i < len(s); i++ {
		nd.Assume(s[i-1] <= s[i])
	}
	q := el("q")
	var r gost.Option[gost.USize]
	if nd.Choice("by", 2) == 0 {
		r = d.BinarySearch(q)
	} else {
		r = d.BinarySearchBy(func(e gost.I32) gost.Ordering { return e.Cmp(q) })
	}
	present := has32(s, q)
	nd.Assert(bool(r.IsSome()) == present, "BinarySearch: finds exactly the values that occur")
	if present {
		i := r.Unwrap()
		nd.Assert(i < gost.USize(len(s)), "BinarySearch: index in range")
		nd.Assert(d.GetUnchecked(i) == q, "BinarySearch: index holds the value")
	}
}

func H_C15_Contents() {
	nd.Bound("every head position and fill level of rings of capacity 1..5, arbitrary elements")
	d, s := ring("r", 5, arb)
	q := el("q")
	nd.Assert(bool(d.Contains(q)) == (has32(s, q)), "Contains: membership")
	nd.Assert(same32(d.AsSlice(), s), "AsSlice: the elements in order")
	dequeIs(&d, s, "AsSlice leaves the deque alone")
	c := d.Clone()
	dequeIs(c, s, "Clone: equal contents")
	f := freshDeque(s)
	nd.Assert(bool(d.Eq(f)) && bool(f.Eq(d)), "Eq: equal to the same elements freshly pushed")
	nd.Assert(bool(d.Eq(*c)), "Eq: equal to its clone")
}

func H_C15_Eq() {
	nd.Bound("every pair of layouts of rings of capacity 1..3, arbitrary elements")
	d, s := ring("a", 3, arb)
	e, t := ring("b", 3, func(n int) []gost.I32 { return els("y", n) })
	nd.Assert(bool(d.Eq(e)) == same32(s, t), "Eq: equal exactly when the sequences are")
}

func H_C15_Dedup() {
	nd.Bound("every head position and fill level of rings of capacity 1..4 (quick) or 1..5 (thorough), arbitrary elements")
	d, s := ring("r", nd.Tier(4, 5), arb)
	d.Dedup(func(x gost.I32) any { return x })
	var want []gost.I32
	for i, x := range s {
		if i == 0 || s[i-1] != x {
			want = append(want, x)
		}
	}
	dequeIs(&d, want, "Dedup")
	f := freshDeque(s)
	f.Dedup(func(x gost.I32) any { return x })
	nd.Assert(bool(f.Eq(d)), "Dedup: as for the same elements freshly pushed")
}

func H_C15_Display() {
	nd.Bound("every head position and fill level of rings of capacity 1..5; elements 0..4 in order, and of small rings any one-digit elements")
	d, s := ring("r", nd.Tier(5, 7), func(n int) []gost.I32 {
		r := make([]gost.I32, n)
		for i := range r {
			r[i] = gost.I32(i*37 - 50)
		}
		return r
	})
	f := freshDeque(s)
	nd.Assert(d.Display() == f.Display(), "Display: as for the same elements freshly pushed")
	nd.Assert(d.Debug() == f.Debug(), "Debug: as for the same elements freshly pushed")
}

// AsSlice, Contains and Clone after a history that moved the ring about.
func H_C15_AfterHistory() {
	nd.Bound("every head position and fill level of rings of capacity 1..3; two operations, then the whole-sequence queries")
	d, s := ring("r", 3, arb)
	for i := 0; i < 2; i++ {
		s = dequeOp(&d, s, 5)
	}
	nd.Assert(same32(d.AsSlice(), s), "AsSlice: the elements in order")
	q := el("q")
	nd.Assert(bool(d.Contains(q)) == (has32(s, q)), "Contains: membership")
	d.SortUnstable()
	sortedPerm(d.AsSlice(), s, "Sort")
}

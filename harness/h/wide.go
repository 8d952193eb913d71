package h

import (
	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// Collections of many elements: where small ones cannot reach.

// span chooses one of the first n numbers: all of them up to 21, and otherwise
// those next to both ends, to powers of two and to the middle (thorough: all).
func span(name string, n int) int {
	if n <= 21 || nd.Tier(0, 1) == 1 {
		return nd.Choice(name, n)
	}
	var at []int
	for i := 0; i < n; i++ {
		near := i < 3 || i > n-4 || i == n/2
		for p := 4; p <= n+1; p *= 2 {
			near = near || i >= p-2 && i <= p+1
		}
		if near || i%11 == 5 {
			at = append(at, i)
		}
	}
	return at[nd.Choice(name, len(at))]
}

func manyVec(s []gost.I32) gost.Vec[gost.I32] {
	v := gost.VecNew[gost.I32]()
	for _, x := range s {
		v.Push(x)
	}
	return v
}

func H_C12_Wide() {
	nd.NoMerge()
	nd.Bound("vectors of 17, 33, 64, 150 and 300 (thorough: 1100) arbitrary elements, one operation at places near the ends, the middle and powers of two (thorough: everywhere), then a push and a pop")
	n := []int{17, 33, 64, 150, nd.Tier(300, 1100)}[nd.Choice("n", 5)]
	s := els("e", n)
	v := manyVec(s)
	x := el("x")
	switch nd.Choice("op", 11) {
	case 0:
		i := span("i", n+1)
		v.Insert(gost.USize(i), x)
		s = append(s[:i:i], append([]gost.I32{x}, s[i:]...)...)
	case 1:
		i := span("i", n+2)
		o := v.Set(gost.USize(i), x)
		nd.Assert(bool(o.IsSome()) == (i >= n), "Vec.Set: the value comes back exactly when there is no such element")
		if i < n {
			s[i] = x
		}
	case 2:
		i, j := span("i", n), span("j", 16)*(n-1)/15
		v.Swap(gost.USize(i), gost.USize(j))
		s[i], s[j] = s[j], s[i]
	case 3:
		v.Reverse()
		for i := 0; i < n/2; i++ {
			s[i], s[n-1-i] = s[n-1-i], s[i]
		}
	case 4:
		m := []int{0, 1, 15, 16, 33, 200}[nd.Choice("m", 6)]
		t := els("o", m)
		w := manyVec(t)
		v.Append(&w)
		s = append(s, t...)
		nd.Assert(w.Len() == 0, "Vec.Append empties the other")
		w.Push(x)
		nd.Assert(w.Len() == 1 && w.GetUnchecked(0) == x, "Vec.Append: the other works on")
	case 5:
		v.Fill(x)
		for i := range s {
			s[i] = x
		}
	case 6:
		k := gost.I32(0)
		v.FillWith(func() gost.I32 { k++; return k })
		for i := range s {
			s[i] = gost.I32(i + 1)
		}
	case 7:
		c := v.Capacity()
		k := gost.USize([]int{1, 16, 100, 1000}[nd.Choice("k", 4)])
		v.Reserve(k)
		nd.Assert(v.Capacity() >= gost.USize(n)+k && v.Capacity() >= c, "Vec.Reserve: the capacity")
	case 8:
		k := span("k", n)
		for i := 0; i < k; i++ {
			optIs(v.Pop(), true, s[len(s)-1], "Vec.Pop")
			s = s[:len(s)-1]
		}
	case 9:
		v.Clear()
		s = nil
	case 10:
		i := span("i", n+2)
		o := v.Get(gost.USize(i))
		nd.Assert(bool(o.IsSome()) == (i < n), "Vec.Get: Some exactly in range")
		if i < n {
			nd.Assert(o.Unwrap() == s[i], "Vec.Get: the element")
		}
	}
	vecIs(&v, s, "a long Vec")
	v.Push(x)
	s = append(clone32(s), x)
	vecIs(&v, s, "a long Vec after a push")
	optIs(v.Pop(), true, x, "Vec.Pop")
}

// keyed is ordered by its key only.
type keyed struct {
	k gost.I16
	n int
}

func (a keyed) Cmp(b keyed) gost.Ordering { return a.k.Cmp(b.k) }
func (a keyed) Eq(b keyed) gost.Bool      { return a.k == b.k }

// sortedIs: v is the elements given in order, equal ones in their order when stable.
func sortedIs(n int, at func(int) keyed, given []keyed, stable bool, what string) {
	seen := make([]bool, n)
	for i := 0; i < n; i++ {
		e := at(i)
		if e.n < 0 || e.n >= n || seen[e.n] {
			nd.Assert(false, what+": a permutation")
			return
		}
		seen[e.n] = true
		nd.Assert(e.k == given[e.n].k, what+": the elements are unchanged")
		if i > 0 {
			p := at(i - 1)
			nd.Assert(p.k <= e.k, what+": in order")
			nd.Assert(!stable || p.k != e.k || p.n < e.n, what+": equal elements keep their order")
		}
	}
}

func sorting(n int) []keyed {
	how := nd.Choice("arrangement", 8)
	if how == 3 {
		n--
	}
	s := make([]keyed, n)
	for i := range s {
		s[i] = keyed{arranged(how, n, i), i}
	}
	x := gost.I16(nd.I16("x"))
	step := gost.I16(16)
	if n > 100 {
		step = 64
	}
	nd.Assume(x%step == 0 || x < 0 || int(x) > n)
	s[n/3].k = x
	return s
}

func H_C13_WideSort() {
	nd.NoMerge()
	nd.Bound("vectors of 70 and 260 (thorough: 600) records in eight arrangements with one arbitrary key (a multiple of 16, or of 64 among more than 100, or beyond the others)")
	s := sorting([]int{70, nd.Tier(260, 600)}[nd.Choice("n", 2)])
	n := len(s)
	v := gost.VecNew[keyed]()
	for _, e := range s {
		v.Push(e)
	}
	order := func(a, b keyed) gost.Ordering { return a.Cmp(b) }
	stable := true
	switch nd.Choice("form", 4) {
	case 0:
		v.Sort()
	case 1:
		v.SortBy(order)
	case 2:
		v.SortUnstable()
		stable = false
	case 3:
		v.SortUnstableBy(order)
		stable = false
	}
	nd.Assert(v.Len() == gost.USize(n), "sorting a long Vec: length")
	sortedIs(n, func(i int) keyed { return v.GetUnchecked(gost.USize(i)) }, s, stable, "sorting a long Vec")
}

func H_C13_WideSearch() {
	nd.NoMerge()
	nd.Bound("sorted vectors of 33, 64, 100 and 500 (thorough: 1100) even numbers, an arbitrary number sought by each form of search")
	n := []int{33, 64, 100, nd.Tier(500, 1100)}[nd.Choice("n", 4)]
	v := gost.VecNew[gost.I32]()
	for i := 0; i < n; i++ {
		v.Push(gost.I32(2 * i))
	}
	q := gost.I32(nd.I16("q"))
	there := q >= 0 && int(q) < 2*n && q%2 == 0
	var o gost.Option[gost.USize]
	switch nd.Choice("form", 3) {
	case 0:
		o = v.BinarySearch(q)
	case 1:
		o = v.BinarySearchBy(func(x gost.I32) gost.Ordering { return x.Cmp(q) })
	case 2:
		nd.Assert(bool(v.Contains(q)) == there, "Contains in a long Vec is membership")
		return
	}
	nd.Assert(bool(o.IsSome()) == there, "searching a long Vec finds exactly what is there")
	if o.IsSome() {
		nd.Assert(gost.I32(o.Unwrap())*2 == q, "searching a long Vec: the index")
	}
}

// places is a set of places: a pattern, or a single one.
func places(name string, n int) []bool {
	r := make([]bool, n)
	switch k := nd.Choice(name, 5); k {
	case 0: // none
	case 1: // one
		r[span(name+".at", n)] = true
	case 2: // all but one
		at := span(name+".at", n)
		for i := range r {
			r[i] = i != at
		}
	case 3: // a half
		h := nd.Choice(name+".half", 2)
		for i := range r {
			r[i] = (i < n/2) == (h == 0)
		}
	case 4: // every third
		for i := range r {
			r[i] = i%3 == 1
		}
	}
	return r
}

func chosen(s []gost.I32, in []bool) []gost.I32 {
	r := []gost.I32{}
	for i, x := range s {
		if in[i] {
			r = append(r, x)
		}
	}
	return r
}

func H_C13_WideRetain() {
	nd.NoMerge()
	nd.Bound("vectors of 50 and 300 (thorough: 1100) successive numbers from an arbitrary one on, of which none, one, all but one, a half or every third are kept")
	n := []int{50, nd.Tier(300, 1100)}[nd.Choice("n", 2)]
	b := el("b")
	s := make([]gost.I32, n)
	for i := range s {
		s[i] = b + gost.I32(i)
	}
	v := manyVec(s)
	in := places("keep", n)
	v.Retain(func(x gost.I32) gost.Bool { return gost.Bool(in[x-b]) })
	vecIs(&v, chosen(s, in), "Retain on a long Vec")
}

func H_C13_WideDedup() {
	nd.NoMerge()
	nd.Bound("vectors of 50 and 300 (thorough: 1100) numbers of which none, one, all but one, a half or every third are equal (by key) to their predecessor")
	n := []int{50, nd.Tier(300, 1100)}[nd.Choice("n", 2)]
	again := places("again", n)
	again[0] = false
	s, first := make([]gost.I32, n), make([]bool, n)
	k := gost.I32(nd.I8("k"))
	byKey := nd.Choice("byKey", 2) == 1
	for i := range s {
		if !again[i] {
			k++
		}
		s[i] = k
		if byKey {
			s[i] = 256*gost.I32(i) + k&255
		}
		first[i] = !again[i]
	}
	v := manyVec(s)
	if byKey {
		v.DedupByKey(func(x gost.I32) any { return x & 255 })
	} else {
		v.Dedup()
	}
	vecIs(&v, chosen(s, first), "Dedup of a long Vec")
}

// wideRing is a deque of capacity c holding n elements from place head on.
func wideRing(c, head, n int) (gost.VecDeque[gost.I32], []gost.I32) {
	d := gost.VecDequeWithCapacity[gost.I32](gost.USize(c))
	for i := 0; i < head; i++ {
		d.PushBack(0)
		d.PopFront()
	}
	s := els("e", n)
	for _, x := range s {
		d.PushBack(x)
	}
	return d, s
}

func H_C14_Wide() {
	nd.NoMerge()
	nd.Bound("rings of capacity 16, 33, 64 and 130 (thorough: and 300) starting at the ends, the middle and next to them (thorough: near powers of two), full, one short of it or half full, of arbitrary elements; one operation, then a push at either end")
	c := []int{16, 33, 64, 130, 300}[nd.Choice("c", nd.Tier(4, 5))]
	n := []int{c, c - 1, c / 2}[nd.Choice("fill", 3)]
	heads := []int{0, 1, c / 2, c - 1}
	if nd.Tier(0, 1) == 1 {
		heads = append(heads, 2, c/2-1, c/2+1, c-2, c/3)
	}
	d, s := wideRing(c, heads[nd.Choice("head", len(heads))], n)
	x := el("x")
	switch nd.Choice("op", 10) {
	case 0:
		d.PushBack(x)
		s = append(s, x)
	case 1:
		d.PushFront(x)
		s = append([]gost.I32{x}, s...)
	case 2:
		m := []int{1, 9, 40}[nd.Choice("m", 3)]
		o, t := wideRing(m+3, m/2+3, m)
		d.Append(&o)
		s = append(s, t...)
		dequeIs(&o, nil, "the appended VecDeque")
	case 3:
		k := gost.USize([]int{1, 7, 31, 200}[nd.Choice("k", 4)])
		d.Reserve(k)
		nd.Assert(d.Capacity() >= gost.USize(n)+k, "VecDeque.Reserve: the capacity")
	case 4:
		i, j := nd.Choice("i", 3)*(n-1)/2, nd.Choice("j", 4)*(n-1)/3
		d.Swap(gost.USize(i), gost.USize(j))
		s[i], s[j] = s[j], s[i]
	case 5:
		i := nd.Choice("i", 4) * n / 3
		o := d.Set(gost.USize(i), x)
		nd.Assert(bool(o.IsSome()) == (i >= n), "VecDeque.Set: the value comes back exactly when there is no such element")
		if i < n {
			s[i] = x
		}
	case 6:
		d.Fill(x)
		for i := range s {
			s[i] = x
		}
	case 7:
		in := make([]bool, n)
		how := nd.Choice("keep", 4)
		for i := range in {
			in[i] = []bool{false, i != n/2, i%2 == 1, i > n/3}[how]
			s[i] = x + gost.I32(i)
			d.Set(gost.USize(i), s[i])
		}
		d.Retain(func(y gost.I32) gost.Bool { return gost.Bool(in[y-x]) })
		s = chosen(s, in)
	case 8:
		for i := 0; i < n*2/3; i++ {
			optIs(d.PopFront(), true, s[0], "VecDeque.PopFront")
			s = s[1:]
		}
	case 9:
		for i := 0; i < n*2/3; i++ {
			optIs(d.PopBack(), true, s[len(s)-1], "VecDeque.PopBack")
			s = s[:len(s)-1]
		}
	}
	dequeIs(&d, s, "a long VecDeque")
	s = clone32(s)
	if nd.Choice("end", 2) == 0 {
		d.PushBack(x)
		s = append(s, x)
	} else {
		d.PushFront(x)
		s = append([]gost.I32{x}, s...)
	}
	dequeIs(&d, s, "a long VecDeque after a push")
}

func H_C14_WideHistory() {
	nd.NoMerge()
	nd.Bound("a queue or stack of arbitrary elements growing to 600 (thorough: 1500) while one element leaves for every two or three that come, at either end, from the default capacity")
	n := nd.Tier(600, 1500)
	every := 2 + nd.Choice("every", 2)
	in, out := nd.Choice("in", 3), nd.Choice("out", 2)
	d := gost.VecDequeNew[gost.I32]()
	x := el("x")
	var s []gost.I32
	for i := 0; i < n; i++ {
		y := x + gost.I32(i)
		if in == 0 || in == 2 && i%2 == 0 {
			d.PushBack(y)
			s = append(s, y)
		} else {
			d.PushFront(y)
			s = append([]gost.I32{y}, s...)
		}
		if i%every == 1 {
			if out == 0 {
				optIs(d.PopFront(), true, s[0], "VecDeque.PopFront")
				s = s[1:]
			} else {
				optIs(d.PopBack(), true, s[len(s)-1], "VecDeque.PopBack")
				s = s[:len(s)-1]
			}
		}
		if i%64 == 0 || i == n-1 {
			dequeIs(&d, s, "a growing VecDeque")
		}
	}
}

func H_C15_Wide() {
	nd.NoMerge()
	nd.Bound("rings of capacity 20, 41 and 130 starting near the ends, the middle and powers of two (thorough: everywhere), full or three short of it, of arbitrary elements; compared with ones that differ at any place, starting at four places")
	c := []int{20, 41, 130}[nd.Choice("c", 3)]
	n := []int{c, c - 3}[nd.Choice("fill", 2)]
	op := nd.Choice("op", 3)
	head := 0
	if op == 2 {
		head = []int{0, 1, c / 2, c - 1}[nd.Choice("head", 4)]
	} else {
		head = span("head", c)
	}
	d, s := wideRing(c, head, n)
	switch op {
	case 0:
		a := d.AsSlice()
		nd.Assert(same32(a, s), "AsSlice of a long VecDeque")
	case 1:
		e := d.Clone()
		dequeIs(e, s, "Clone of a long VecDeque")
	case 2:
		e := freshDeque(s)
		nd.Assert(bool(d.Eq(e)) && bool(e.Eq(d)), "a long VecDeque equals the same elements pushed afresh")
		i := span("i", n)
		e.Set(gost.USize(i), ^s[i])
		nd.Assert(!bool(d.Eq(e)) && !bool(e.Eq(d)), "a long VecDeque does not equal one with another element")
	}
	dequeIs(&d, s, "a long VecDeque afterwards")
}

func H_C15_WideSort() {
	nd.NoMerge()
	nd.Bound("rings of 40 and 110 (thorough: 300) records in eight arrangements with one arbitrary key (a multiple of 16, or of 64 among more than 100, or beyond the others), starting at three places, full or not")
	s := sorting([]int{40, nd.Tier(110, 300)}[nd.Choice("n", 2)])
	n := len(s)
	c := n + 5*nd.Choice("room", 2)
	d := gost.VecDequeWithCapacity[keyed](gost.USize(c))
	for i := []int{1, n / 2, n - 2}[nd.Choice("head", 3)]; i > 0; i-- {
		d.PushBack(keyed{})
		d.PopFront()
	}
	for _, e := range s {
		d.PushBack(e)
	}
	order := func(a, b keyed) gost.Ordering { return a.Cmp(b) }
	stable := true
	switch nd.Choice("form", 4) {
	case 0:
		d.Sort()
	case 1:
		d.SortBy(order)
	case 2:
		d.SortUnstable()
		stable = false
	case 3:
		d.SortUnstableBy(order)
		stable = false
	}
	nd.Assert(d.Len() == gost.USize(n), "sorting a long VecDeque: length")
	sortedIs(n, func(i int) keyed { return d.GetUnchecked(gost.USize(i)) }, s, stable, "sorting a long VecDeque")
}

func H_C15_WideSearch() {
	nd.NoMerge()
	nd.Bound("rings of capacity 41 (all but two filled) and 150 (thorough: 300), full, starting at three places, of even numbers in order, an arbitrary number sought by each form of search; and deduplicated, when every number comes one to three times")
	c := []int{41, nd.Tier(150, 300)}[nd.Choice("c", 2)]
	n := c - 2*(c%2)
	head := []int{1, 11, c - 1}[nd.Choice("head", 3)]
	d := gost.VecDequeWithCapacity[gost.I32](gost.USize(c))
	for i := 0; i < head; i++ {
		d.PushBack(0)
		d.PopFront()
	}
	op := nd.Choice("op", 4)
	if op == 3 {
		var s []gost.I32
		x := gost.I32(nd.I8("x"))
		for i := 0; i < n; i++ {
			y := x + gost.I32(i-i%3/2)
			d.PushBack(y)
			if i == 0 || i%3 != 2 {
				s = append(s, y)
			}
		}
		d.Dedup(func(x gost.I32) any { return x })
		dequeIs(&d, s, "Dedup of a long VecDeque")
		return
	}
	for i := 0; i < n; i++ {
		d.PushBack(gost.I32(2 * i))
	}
	q := gost.I32(nd.I16("q"))
	there := q >= 0 && int(q) < 2*n && q%2 == 0
	var o gost.Option[gost.USize]
	switch op {
	case 0:
		o = d.BinarySearch(q)
	case 1:
		o = d.BinarySearchBy(func(x gost.I32) gost.Ordering { return x.Cmp(q) })
	case 2:
		nd.Assert(bool(d.Contains(q)) == there, "Contains in a long VecDeque is membership")
		return
	}
	nd.Assert(bool(o.IsSome()) == there, "searching a long VecDeque finds exactly what is there")
	if o.IsSome() {
		nd.Assert(gost.I32(o.Unwrap())*2 == q, "searching a long VecDeque: the index")
	}
}

func manyList(s []gost.I32) gost.LinkedList[gost.I32] {
	l := gost.LinkedListNew[gost.I32]()
	for _, x := range s {
		l.PushBack(x)
	}
	return l
}

func H_C16_Wide() {
	nd.NoMerge()
	nd.Bound("lists of 17, 64 and 300 arbitrary elements; one appended of 0, 1, 2 or 60, or elements popped at either end or both; then a push at either end")
	n := []int{17, 64, 300}[nd.Choice("n", 3)]
	s := els("e", n)
	l := manyList(s)
	x := el("x")
	switch nd.Choice("op", 4) {
	case 0:
		t := els("o", []int{0, 1, 2, 60}[nd.Choice("m", 4)])
		o := manyList(t)
		l.Append(&o)
		s = append(s, t...)
		listIs(&o, nil, "the appended LinkedList")
		o.PushBack(x)
		listIs(&o, []gost.I32{x}, "the appended LinkedList works on")
	case 1:
		for k := span("k", n+1); k > 0; k-- {
			optIs(l.PopFront(), true, s[0], "LinkedList.PopFront")
			s = s[1:]
		}
	case 2:
		for k := span("k", n+1); k > 0; k-- {
			optIs(l.PopBack(), true, s[len(s)-1], "LinkedList.PopBack")
			s = s[:len(s)-1]
		}
	case 3:
		for k := 0; k < n/2; k++ {
			optIs(l.PopBack(), true, s[len(s)-1], "LinkedList.PopBack")
			optIs(l.PopFront(), true, s[0], "LinkedList.PopFront")
			s = s[1 : len(s)-1]
		}
	}
	listIs(&l, s, "a long LinkedList")
	s = clone32(s)
	if nd.Choice("end", 2) == 0 {
		l.PushBack(x)
		s = append(s, x)
	} else {
		l.PushFront(x)
		s = append([]gost.I32{x}, s...)
	}
	listIs(&l, s, "a long LinkedList after a push")
	optIs(l.PopBack(), true, s[len(s)-1], "LinkedList.PopBack")
	s = s[:len(s)-1]
	o := l.PopFront()
	nd.Assert(bool(o.IsSome()) == (len(s) > 0), "LinkedList.PopFront: Some exactly when there is an element")
	if len(s) > 0 {
		nd.Assert(o.Unwrap() == s[0], "LinkedList.PopFront: the first")
	}
}

func H_C17_Wide() {
	nd.NoMerge()
	nd.Bound("heaps of 65 and 300 (thorough: and 600) numbers in eleven (the larger ones: five) arrangements with one arbitrary number (a multiple of 8, in the larger of 64, or beyond the others); one more pushed, another heap of 40 appended, or up to 3 popped and four pushed; then all popped, or taken sorted")
	n := []int{65, 300, 600}[nd.Choice("n", nd.Tier(2, 3))]
	how := nd.Choice("arrangement", 11)
	nd.Assume(n == 65 || how < 5)
	if how == 3 && n == 65 {
		n--
	}
	x := gost.I32(nd.I16("x"))
	step := gost.I32(8)
	if n > 100 {
		step = 64
		how = []int{0, 1, 2, 4, 8}[how]
	}
	nd.Assume(x%step == 0 || x < 0 || int(x) > n)
	b := gost.BinaryHeapNew[gost.I32]()
	var all []gost.I32 // without x
	for i := 0; i < n; i++ {
		if i == n/2 {
			b.Push(x)
		}
		y := gost.I32(0)
		if how < 8 {
			y = gost.I32(arranged(how, n, i))
		} else { // no pattern
			y = gost.I32((i*i*(31+how) + i*(how*how-7)) % 251 % n)
		}
		b.Push(y)
		all = append(all, y)
	}
	k := 0
	switch nd.Choice("op", 4) {
	case 0:
		b.Push(31)
		all = append(all, 31)
	case 3:
		k = []int{1, 2, 3, 34}[nd.Choice("k", nd.Tier(3, 4))]
	case 1:
		o := gost.BinaryHeapNew[gost.I32]()
		for i := 0; i < 40; i++ {
			o.Push(gost.I32(3 * i))
			all = append(all, gost.I32(3*i))
		}
		b.Append(&o)
		nd.Assert(bool(o.IsEmpty()), "BinaryHeap.Append empties the other")
	case 2:
		b.Reserve(100)
	}
	sortAscending(all)
	// y where it belongs
	put := func(s []gost.I32, y gost.I32) []gost.I32 {
		at := 0
		for at < len(s) && s[at] < y {
			at++
		}
		return append(append(append([]gost.I32{}, s[:at]...), y), s[at:]...)
	}
	want := put(all, x)
	n = len(want) - 1
	if k > 0 {
		for ; k > 0; k-- {
			optIs(b.Pop(), true, want[n], "Pop from a large BinaryHeap")
			n--
		}
		want = want[:n+1]
		for _, y := range []gost.I32{-1, -2, 20, -3} {
			b.Push(y)
			want = put(want, y)
			n++
		}
	}
	nd.Assert(b.Len() == gost.USize(n+1), "a large BinaryHeap: length")
	if nd.Choice("take", 2) == 0 {
		v := b.IntoSortedVec()
		vecIs(&v, want, "IntoSortedVec of a large BinaryHeap")
		return
	}
	for i := n; i >= 0; i-- {
		optIs(b.Pop(), true, want[i], "Pop from a large BinaryHeap")
	}
	nd.Assert(bool(b.Pop().IsNone()), "Pop from an empty BinaryHeap")
}

func H_C17_Paths() {
	nd.NoMerge()
	nd.Bound("heaps of 2 to 40 (thorough: 130) numbers with the largest on the way to one place, each in turn, the last arbitrary; one popped, six smaller ones pushed, then all popped")
	n := 2 + nd.Choice("n", nd.Tier(39, 129))
	place := n/2 + nd.Choice("place", n-n/2)
	s := make([]gost.I32, n)
	for i := range s {
		s[i] = gost.I32(200 - i)
	}
	depth := 0
	for i := place; i > 0; i = (i - 1) / 2 {
		depth++
	}
	for i := place; ; i = (i - 1) / 2 {
		s[i] = gost.I32(1000 - depth)
		if i == 0 {
			break
		}
		depth--
	}
	if place != n-1 {
		x := gost.I32(nd.I16("x"))
		nd.Assume(x < s[0] && (x < 0 || x%64 == 0 || x > 200))
		s[n-1] = x
	}
	b := gost.BinaryHeapNew[gost.I32]()
	for _, x := range s {
		b.Push(x)
	}
	for i := 0; i < 6; i++ {
		s = append(s, gost.I32(10-i))
	}
	want := []gost.I32{}
	if place == n-1 {
		want = clone32(s)
		sortAscending(want)
	} else {
		rest := append(clone32(s[:n-1]), s[n:]...)
		sortAscending(rest)
		at := 0
		for at < len(rest) && rest[at] < s[n-1] {
			at++
		}
		want = append(append(append(want, rest[:at]...), s[n-1]), rest[at:]...)
	}
	for i := len(want) - 1; i >= 0; i-- {
		if i == len(want)-2 {
			for j := 0; j < 6; j++ {
				b.Push(gost.I32(10 - j))
			}
		}
		optIs(b.Pop(), true, want[i], "Pop from a BinaryHeap")
	}
	nd.Assert(bool(b.Pop().IsNone()) && bool(b.IsEmpty()), "Pop until the BinaryHeap is empty")
}

// sortAscending sorts by merging (all of it outside gost).
func sortAscending(s []gost.I32) {
	if len(s) < 2 {
		return
	}
	a, b := clone32(s[:len(s)/2]), clone32(s[len(s)/2:])
	sortAscending(a)
	sortAscending(b)
	for i := range s {
		if len(b) == 0 || len(a) > 0 && a[0] <= b[0] {
			s[i], a = a[0], a[1:]
		} else {
			s[i], b = b[0], b[1:]
		}
	}
}

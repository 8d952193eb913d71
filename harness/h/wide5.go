package h

import (
	"github.com/myyrakle/gost"
	"gostverif/nd"
)

func ring5k(n int, x gost.I32, into int, f func(i int) gost.I32) gost.VecDeque[gost.I32] {
	d := gost.VecDequeNew[gost.I32]()
	for i := 0; i < into; i++ {
		d.PushBack(0)
		if i%2 == 0 {
			d.PopFront()
		}
	}
	for d.Len() > 0 {
		d.PopFront()
	}
	for i := 0; i < n; i++ {
		if i == n/2 {
			d.PushBack(x)
		} else {
			d.PushBack(f(i))
		}
	}
	return d
}

func H_C15_Thousands() {
	nd.NoMerge()
	nd.Steps(60000000)
	nd.Bound("a VecDeque of " + thousandsBound + "begun at the front of its ring or far into it, sorted, searched, deduplicated or thinned out")
	n, x, into := thousands(), gost.I32(nd.I16("x")), 700*nd.Choice("into", 2)
	nd.Assume(x%512 == 0)
	switch op := nd.Choice("op", 6); op {
	case 0, 1, 2, 3:
		f := func(i int) gost.I32 { return gost.I32((i * 619) % n) }
		d := ring5k(n, x, into, f)
		down := func(a, b gost.I32) gost.Ordering { return b.Cmp(a) }
		switch op {
		case 0:
			d.Sort()
		case 1:
			d.SortBy(down)
		case 2:
			d.SortUnstable()
		case 3:
			d.SortUnstableBy(down)
		}
		nd.Assert(int(d.Len()) == n, "a sorted VecDeque keeps its length")
		want, sum := x, gost.I32(0)
		for i := 0; i < n; i++ {
			if i != n/2 {
				want += f(i)
			}
			e := d.GetUnchecked(gost.USize(i))
			sum += e
			if i > 0 {
				p := d.GetUnchecked(gost.USize(i - 1))
				if op%2 == 1 {
					p, e = e, p
				}
				nd.Assert(p <= e, "a sorted VecDeque is in order")
			}
		}
		nd.Assert(sum == want, "a sorted VecDeque holds what it held")
	case 4:
		d := ring5k(n, gost.I32(3*(n/2)), into, func(i int) gost.I32 { return gost.I32(3 * i) })
		there := x >= 0 && int(x) < 3*n && x%3 == 0
		var o gost.Option[gost.USize]
		switch nd.Choice("by", 3) {
		case 0:
			o = d.BinarySearch(x)
		case 1:
			o = d.BinarySearchBy(func(e gost.I32) gost.Ordering { return e.Cmp(x) })
		case 2:
			nd.Assert(bool(d.Contains(x)) == there, "Contains in a VecDeque of thousands is membership")
			return
		}
		nd.Assert(bool(o.IsSome()) == there, "searching a VecDeque of thousands finds exactly what is there")
		if o.IsSome() {
			nd.Assert(gost.I32(o.Unwrap())*3 == x, "searching a VecDeque of thousands: the index")
		}
	case 5:
		f := func(i int) gost.I32 { return gost.I32(i / 2) }
		d := ring5k(n, x, into, f)
		cut := gost.I32(0)
		if nd.Choice("form", 2) == 0 {
			d.Dedup(func(e gost.I32) any { return e })
		} else {
			cut = gost.I32(n / 3)
			d.Retain(func(e gost.I32) gost.Bool { return e >= cut })
		}
		var w []gost.I32
		for i := 0; i < n; i++ {
			y := f(i)
			if i == n/2 {
				y = x
			}
			if cut == 0 && (len(w) == 0 || w[len(w)-1] != y) || cut > 0 && y >= cut {
				w = append(w, y)
			}
		}
		nd.Assert(int(d.Len()) == len(w), "a thinned out VecDeque of thousands: the length")
		diff := gost.I32(0)
		for i, e := range w {
			diff |= d.GetUnchecked(gost.USize(i)) ^ e
		}
		nd.Assert(diff == 0, "a thinned out VecDeque of thousands")
	}
}

func H_C21_Thousands() {
	nd.NoMerge()
	nd.Steps(60000000)
	nd.Bound("a HashMap of 1030 and 2100 (thorough: and 5000) entries; a multiple of 256 as key, with an arbitrary value, inserted or removed; every key looked up, all entries iterated, or the map cleared and used again")
	n := thousands()
	m := gost.HashMapNew[gost.I32, gost.I32]()
	for i := 0; i < n; i++ {
		m.Insert(gost.I32(i), gost.I32(7*i))
	}
	k, v := gost.I32(nd.I16("k")), gost.I32(nd.I32("v"))
	nd.Assume(k%256 == 0)
	in := k >= 0 && int(k) < n
	var r gost.Option[gost.I32]
	insert := nd.Choice("insert", 2) == 0
	if insert {
		r = m.Insert(k, v)
	} else {
		r = m.Remove(k)
	}
	nd.Assert(bool(r.IsSome()) == in && (!in || r.Unwrap() == 7*k), "what was there is returned")
	want := n
	if insert && !in {
		want++
	}
	if !insert && in {
		want--
	}
	nd.Assert(int(m.Len()) == want, "the length of a map of thousands")
	switch nd.Choice("then", 3) {
	case 0:
		for i := 0; i < n; i++ {
			key := gost.I32(i)
			g := m.Get(key)
			switch {
			case key != k:
				nd.Assert(bool(g.IsSome()) && g.Unwrap() == 7*key, "the other entries of a map of thousands stay")
			case insert:
				nd.Assert(bool(g.IsSome()) && g.Unwrap() == v, "the entry inserted")
			default:
				nd.Assert(bool(g.IsNone()), "the entry removed")
			}
		}
	case 1:
		it := m.IntoIter()
		sum, cnt := gost.I32(0), 0
		for {
			e := it.Next()
			if e.IsNone() {
				break
			}
			p := e.Unwrap()
			nd.Assert(p.Key >= 0 && int(p.Key) < n && (p.Key != k || insert) || p.Key == k && insert, "an entry iterated is one of the map's")
			sum += p.Key
			cnt++
		}
		w := gost.I32(n * (n - 1) / 2)
		if insert && !in {
			w += k
		}
		if !insert && in {
			w -= k
		}
		nd.Assert(cnt == want && sum == w, "every entry is iterated once")
	case 2:
		m.Clear()
		nd.Assert(m.Len() == 0 && bool(m.Get(3).IsNone()) && bool(m.Get(k).IsNone()), "Clear empties")
		m.Insert(k, v)
		nd.Assert(m.Len() == 1 && m.Get(k).Unwrap() == v, "a cleared map works")
	}
}

func thousandsAlgebra[S any, P interface {
	*S
	set16[S]
}](a, b P) {
	n := thousands()
	x := gost.I16(nd.I16("x")) // beyond both, or one of these
	at := []int{-1, 2, 5, n, 2*n + 1, 3*n - 2}[nd.Choice("at", 6)]
	if at >= 0 {
		x = gost.I16(at)
	}
	nd.Assume(at >= 0 || int(x) > 3*n)
	for i := 0; i < n; i++ {
		a.Insert(k16(2 * i))
		b.Insert(k16(3 * i))
	}
	b.Insert(k16(x))
	inA := func(i int) bool { return i%2 == 0 && i < 2*n }
	inB := func(i int) bool { return i%3 == 0 && i < 3*n || i == at }
	var r S
	op := nd.Choice("op", 3)
	switch op {
	case 0:
		r = a.Union(*b)
	case 1:
		r = a.Intersection(*b)
	case 2:
		r = a.SymmetricDifference(*b)
	}
	p := P(&r)
	cnt := 0
	for i := 0; i < 3*n; i++ {
		l, m := inA(i), inB(i)
		w := []bool{l || m, l && m, l != m}[op]
		nd.Assert(bool(p.Contains(k16(i))) == w, "set algebra on thousands: membership")
		if w {
			cnt++
		}
	}
	if at < 0 && (op != 1) {
		nd.Assert(bool(p.Contains(k16(x))), "set algebra on thousands: membership")
		cnt++
	}
	nd.Assert(int(p.Len()) == cnt, "set algebra on thousands: the number of elements")
}

const thousandsSets = "sets of 1030 and 2100 (thorough: and 5000) elements, the multiples of 2 and of 3, one arbitrary number beyond, or one of five others, added to the second; each operation of set algebra"

func H_C20_Thousands() {
	nd.NoMerge()
	nd.Steps(60000000)
	nd.Bound(thousandsSets)
	a, b := gost.BTreeSetNew[k16](), gost.BTreeSetNew[k16]()
	thousandsAlgebra[gost.BTreeSet[k16]](&a, &b)
}

func H_C22_Thousands() {
	nd.NoMerge()
	nd.Steps(60000000)
	nd.Bound(thousandsSets)
	a, b := gost.HashSetNew[k16](), gost.HashSetNew[k16]()
	thousandsAlgebra[gost.HashSet[k16]](&a, &b)
}

package h

import (
	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// a record with a sort key and a tag telling equal records apart
type kv struct{ k, tag gost.I32 }

func cmpK(a, b kv) gost.Ordering { return a.k.Cmp(b.k) }

// count32 is the number of elements of a equal to x.
func count32(a []gost.I32, x gost.I32) int {
	n := 0
	for _, y := range a {
		if y == x {
			n++
		}
	}
	return n
}

// has32 tells whether x occurs in a.
func has32(a []gost.I32, x gost.I32) bool {
	r := false
	for _, y := range a {
		r = r || y == x
	}
	return r
}

// sortedPerm asserts got is an ascending permutation of in.
func sortedPerm(got, in []gost.I32, what string) {
	nd.Assert(len(got) == len(in), what+": keeps the number of elements")
	asc := true
	for i := 1; i < len(got); i++ {
		asc = asc && got[i-1] <= got[i]
	}
	nd.Assert(asc, what+": ascending")
	perm := true
	for _, x := range in {
		perm = perm && count32(got, x) == count32(in, x)
	}
	nd.Assert(perm, what+": a permutation of the input")
}

// stable asserts got is the stable ascending arrangement by key of in, whose
// tags are their positions.
func stablePerm(got []kv, n int, in []gost.I32, stable bool, what string) {
	nd.Assert(len(got) == n, what+": keeps the number of elements")
	asc, own, st, seen := true, true, true, 0
	for i, e := range got {
		if i > 0 {
			asc = asc && got[i-1].k <= e.k
			st = st && (got[i-1].k != e.k || got[i-1].tag < e.tag)
		}
		for j := range in {
			if int(e.tag) == j {
				own = own && e.k == in[j]
				seen |= 1 << j
			}
		}
	}
	nd.Assert(asc, what+": ordered by the comparator")
	nd.Assert(own && seen == 1<<n-1, what+": a permutation of the input")
	if stable {
		nd.Assert(st, what+": equal elements keep their order")
	}
}

func kvs(in []gost.I32) gost.Vec[kv] {
	v := gost.VecNew[kv]()
	for i, x := range in {
		v.Push(kv{x, gost.I32(i)})
	}
	return v
}

func H_C13_Sort() {
	n := nd.Choice("n", nd.Tier(5, 6))
	nd.Bound("vectors of up to 4 (quick) or 5 (thorough) arbitrary elements")
	in := els("x", n)
	unst := nd.Choice("unstable", 2) == 1
	v := gost.VecNew[gost.I32]()
	for _, x := range in {
		v.Push(x)
	}
	if unst {
		v.SortUnstable()
	} else {
		v.Sort()
	}
	sortedPerm(v.AsSlice(), in, "Sort")
}
func H_C13_SortBy() {
	n := nd.Choice("n", nd.Tier(5, 6))
	nd.Bound("vectors of up to 4 (quick) or 5 (thorough) arbitrary elements")
	in := els("x", n)
	unst := nd.Choice("unstable", 2) == 1
	v := kvs(in)
	if unst {
		v.SortUnstableBy(cmpK)
	} else {
		v.SortBy(cmpK)
	}
	stablePerm(v.AsSlice(), n, in, !unst, "SortBy")
}

// Longer vectors over a few keys: past the block size of the stable sort.
func H_C13_SortByLong() {
	n := nd.Tier(24, 30)
	nd.Bound("a vector of 24 (quick) or 30 (thorough) elements with fixed keys, except for one arbitrary key at any of three positions")
	in := make([]gost.I32, n)
	for i := range in {
		in[i] = gost.I32(i * 7 % 5)
	}
	in[[]int{0, 11, n - 1}[nd.Choice("at", 3)]] = el("x")
	v := kvs(in)
	v.SortBy(cmpK)
	stablePerm(v.AsSlice(), n, in, true, "SortBy")
}

func H_C13_BinarySearch() {
	nd.NoMerge()
	n := nd.Choice("n", nd.Tier(7, 10))
	nd.Bound("sorted vectors of up to 6 (quick) or 9 (thorough) arbitrary elements")
	in := els("x", n)
	v := gost.VecNew[gost.I32]()
	for i, x := range in {
		if i > 0 {
			nd.Assume(in[i-1] <= x)
		}
		v.Push(x)
	}
	q := el("q")
	var r gost.Option[gost.USize]
	if nd.Choice("by", 2) == 0 {
		r = v.BinarySearch(q)
	} else {
		r = v.BinarySearchBy(func(e gost.I32) gost.Ordering { return e.Cmp(q) })
	}
	nd.Merge(1)
	present := has32(in, q)
	nd.Assert(bool(r.IsSome()) == present, "BinarySearch: finds exactly the values that occur")
	nd.Merge(0)
	if present {
		i := r.Unwrap()
		nd.Assert(i < gost.USize(n), "BinarySearch: index in range")
		nd.Assert(v.GetUnchecked(i) == q, "BinarySearch: index holds the value")
	}
}

func H_C13_ContainsRetain() {
	n := nd.Choice("n", nd.Tier(5, 7))
	nd.Bound("vectors of up to 4 (quick) or 6 (thorough) arbitrary elements")
	in := els("x", n)
	v := gost.VecNew[gost.I32]()
	for _, x := range in {
		v.Push(x)
	}
	q := el("q")
	nd.Assert(bool(v.Contains(q)) == (has32(in, q)), "Contains: membership")
	keep := make([]bool, n)
	var want []gost.I32
	for i := range keep {
		keep[i] = nd.Bool("keep")
	}
	k := 0
	v.Retain(func(x gost.I32) gost.Bool {
		k++
		return gost.Bool(keep[k-1])
	})
	nd.Assert(k == n, "Retain: asks about every element once")
	for i := range in {
		if keep[i] {
			want = append(want, in[i])
		}
	}
	vecIs(&v, want, "Retain")
}

func H_C13_Dedup() {
	n := nd.Choice("n", nd.Tier(5, 7))
	nd.Bound("vectors of up to 4 (quick) or 6 (thorough) arbitrary elements")
	in := els("x", n)
	v := gost.VecNew[gost.I32]()
	for _, x := range in {
		v.Push(x)
	}
	var want []gost.I32
	if nd.Choice("by", 2) == 0 {
		v.Dedup()
		for i, x := range in {
			if i == 0 || in[i-1] != x {
				want = append(want, x)
			}
		}
	} else {
		v.DedupByKey(func(x gost.I32) any { return x >> 1 })
		for i, x := range in {
			if i == 0 || in[i-1]>>1 != x>>1 {
				want = append(want, x)
			}
		}
	}
	vecIs(&v, want, "Dedup")
}

// elements of other types: strings
func H_C13_Strings() {
	nd.Bound("three strings of one arbitrary byte each")
	in := []gost.String{}
	v := gost.VecNew[gost.String]()
	for i := 0; i < 3; i++ {
		s := gost.String(nd.Str("s", 1))
		in = append(in, s)
		v.Push(s)
	}
	q := gost.String(nd.Str("q", 1))
	nd.Assert(bool(v.Contains(q)) == (q == in[0] || q == in[1] || q == in[2]), "Contains: membership")
	v.Sort()
	a, b, c := v.GetUnchecked(0), v.GetUnchecked(1), v.GetUnchecked(2)
	nd.Assert(a <= b && b <= c, "Sort: ascending")
	r := v.BinarySearch(q)
	nd.Assert(bool(r.IsSome()) == (q == in[0] || q == in[1] || q == in[2]), "BinarySearch: finds exactly the values that occur")
	v.Dedup()
	w := 1
	if a != b {
		w++
	}
	if b != c {
		w++
	}
	nd.Assert(int(v.Len()) == w, "Dedup: one of each run")
}

package h

import (
	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// trees of four levels, emptied; an arbitrary entry goes in first
func fourLevels(t *tree, each func()) {
	n := nd.Tier(460, 900)
	t.fill(n, nd.Choice("fill", nd.Tier(2, 5)))
	k := key16("k")
	near := []int{10, n * 5, n*10 - 15}[nd.Choice("near", 3)]
	nd.Assume(int(k) > near && int(k) <= near+nd.Tier(11, 30))
	t.put(k, el("v"))
	t.get(k)
	order := nd.Choice("drain", nd.Tier(3, 5))
	keys := append([]k16{}, t.o.keys...)
	if order == 3 && len(keys)%2 == 1 || order == 2 && nd.Tier(0, 1) == 0 {
		order = 4
	}
	for i := range keys {
		t.del(keys[permute(order, len(keys), i)])
		if i%60 == 0 {
			each()
		}
	}
	each()
}

const fourBound = "maps of 460 (thorough: 900) entries in 2 (thorough: 5) insertion orders plus one arbitrary entry near either end or the middle, emptied in 3 (thorough: 5) orders"

func H_C18_FourLevels() {
	nd.NoMerge()
	nd.Steps(400_000_000)
	nd.Bound(fourBound)
	t := &tree{}
	fourLevels(t, t.all)
}

func H_C19_FourLevels() {
	nd.NoMerge()
	nd.Steps(400_000_000)
	nd.Bound(fourBound)
	t := &tree{}
	fourLevels(t, func() { t.length(); t.ordered() })
}

// removal of an arbitrary entry of a tree of four levels
func H_C18_FourLevelsRemove() {
	nd.NoMerge()
	nd.Steps(400_000_000)
	nd.Bound("maps of 540 entries in ascending or descending order, a third thinned out or not; removal or insertion of an arbitrary key near either end, a third, or where such a tree has its root (thorough: also a multiple of 200)")
	const n = 540
	t := &tree{}
	t.fill(n, nd.Choice("fill", 2))
	if nd.Choice("thin", 2) == 1 {
		for i := 1; i < n; i += 3 {
			t.del(k16(10 * i))
		}
	}
	k := key16("k")
	in := false
	for _, i := range []int{0, 180, 6*6*6 - 1, n - 6*6*6, n - 1} {
		in = in || k >= k16(10*i-1) && k <= k16(10*i+1)
	}
	nd.Assume(in || nd.Tier(0, 1) == 1 && k >= -1 && k < 10*n && (k+1)%200 < 3)
	if nd.Choice("op", 2) == 0 {
		t.put(k, el("v"))
	} else {
		t.del(k)
	}
	t.all()
}

// trees of five levels
func H_C18_FiveLevels() {
	nd.NoMerge()
	nd.Steps(2_000_000_000)
	nd.Bound("maps of 3400 entries in ascending or descending order; removal of the entry where such a tree has its root, of one of its neighbours or of an arbitrary key beyond either end")
	const n = 3400
	t := &tree{}
	fill := nd.Choice("fill", 2)
	for i := 0; i < n; i++ {
		j := permute(fill, n, i)
		t.m.Insert(k16(4*j), gost.I32(j))
	}
	root := []int{6*6*6*6 - 1, n - 6*6*6*6}[fill]
	k := key16("k")
	nd.Assume(k < 0 || k >= 4*n-4 || k > k16(4*root-5) && k < k16(4*root+5) && k%4 == 0)
	there := k >= 0 && int(k) < 4*n && k%4 == 0
	r := t.m.Remove(k)
	optIs(r, there, gost.I32(k/4), "Remove from a deep tree")
	nd.Assert(bool(t.m.Get(k).IsNone()), "Remove from a deep tree: the key is gone")
	gone := 0
	if there {
		gone = 1
	}
	nd.Assert(int(t.m.Len()) == n-gone, "Remove from a deep tree: Len")
	ok := true
	for i := 0; i < n; i += 1 {
		o := t.m.Get(k16(4 * i))
		if k == k16(4*i) {
			continue
		}
		if !bool(o.IsSome()) {
			nd.Assert(false, "Remove from a deep tree: every other key stays")
			return
		}
		ok = ok && o.Unwrap() == gost.I32(i)
	}
	nd.Assert(ok, "Remove from a deep tree: every other key keeps its value")
}

// steps40 is n numbers 10 apart starting at 10*off.
func steps40(n, off int) []k16 {
	r := make([]k16, n)
	for i := range r {
		r[i] = k16(10 * (i + off))
	}
	return r
}

type set16[S any] interface {
	Insert(gost.I16) gost.Bool
	Remove(gost.I16) gost.Bool
	Contains(gost.I16) gost.Bool
	Len() gost.USize
	Union(S) S
	Intersection(S) S
	SymmetricDifference(S) S
	IsSubset(S) gost.Bool
	IsSuperset(S) gost.Bool
	IsDisjoint(S) gost.Bool
	Eq(S) gost.Bool
}

// algebra works on sets of many elements, one of them arbitrary.
func algebra[S any, P interface {
	*S
	set16[S]
}](a, b P, is func(s P, want []k16, what string)) {
	size := nd.Choice("size", 11)
	na := []int{0, 7, 40, 0, 7, 40, 0, 7, 40, 7, 150}[size]
	nb := []int{0, 0, 0, 7, 7, 7, 40, 40, 40, 150, 7}[size]
	off := []int{0, 3, 33, 100}[nd.Choice("off", 4)]
	xs, ys := steps40(na, 0), steps40(nb, off)
	for _, x := range xs {
		a.Insert(x)
	}
	for _, y := range ys {
		b.Insert(y)
	}
	x := key16("x")
	nd.Assume(x == -5 || x == 5 || x == 10 || x == 200 || x == 390 || x == 10*k16(off) || x == 10*k16(off+39) || x == 2000)
	nd.Assume(size < 9 || (x == -5 || x == 5 || x == 10 || x == 10*k16(off)) && off < 100)
	switch nd.Choice("how", 3) {
	case 0:
		a.Insert(x)
		xs = append(xs, x)
	case 1:
		b.Insert(x)
		ys = append(ys, x)
	case 2:
		a.Remove(x)
		xs = filter16(xs, []k16{x}, false)
	}
	both := append(append([]k16{}, xs...), ys...)
	common := filter16(xs, ys, true)
	switch nd.Choice("op", 4) {
	case 0:
		u := a.Union(*b)
		is(&u, both, "Union of large sets")
	case 1:
		i := a.Intersection(*b)
		is(&i, common, "Intersection of large sets")
	case 2:
		d := a.SymmetricDifference(*b)
		is(&d, append(filter16(xs, ys, false), filter16(ys, xs, false)...), "SymmetricDifference of large sets")
	case 3:
		ab, ba := sub16(xs, ys), sub16(ys, xs)
		nd.Assert(bool(a.IsSubset(*b)) == ab, "IsSubset of large sets")
		nd.Assert(bool(a.IsSuperset(*b)) == ba, "IsSuperset of large sets")
		nd.Assert(bool(a.IsDisjoint(*b)) == (len(common) == 0), "IsDisjoint of large sets")
		nd.Assert(bool(a.Eq(*b)) == (ab && ba), "Eq of large sets")
	}
	is(a, xs, "the left operand is unchanged")
	is(b, ys, "the right operand is unchanged")
}

const algebraBound = "sets of 0, 7 or 40 elements each, or 7 and 150, equal, overlapping, nested or disjoint, with one more or less on one side out of eight places"

func H_C20_WideAlgebra() {
	nd.NoMerge()
	nd.Bound(algebraBound)
	a, b := gost.BTreeSetNew[gost.I16](), gost.BTreeSetNew[gost.I16]()
	algebra(&a, &b, func(s *gost.BTreeSet[gost.I16], want []k16, what string) { setIs(s, want, 1, what) })
}

func H_C22_WideAlgebra() {
	nd.NoMerge()
	nd.Bound(algebraBound + ", forward and reverse enumeration")
	a, b := gost.HashSetNew[gost.I16](), gost.HashSetNew[gost.I16]()
	algebra(&a, &b, func(s *gost.HashSet[gost.I16], want []k16, what string) { setIs(s, want, 1, what) })
}

func H_C21_Wide() {
	nd.NoMerge()
	nd.Bound("maps of 20, 60 and 300 entries with arbitrary values, forward and reverse enumeration; one operation with an arbitrary key at most 1 off a multiple of 40; then every entry, all iterated, all removed, or the map cleared and filled again")
	n := []int{20, 60, 300}[nd.Choice("n", 3)]
	m := gost.HashMapNew[gost.I16, gost.I32]()
	o := omap{}
	for i := 0; i < n; i++ {
		v := el("v")
		m.Insert(k16(10*i), v)
		o.put(k16(10*i), v)
	}
	k := key16("k")
	nd.Assume(k >= -1 && k < 690 && (k+1)%40 < 3)
	if nd.Choice("op", 2) == 0 {
		v := el("new")
		r := m.Insert(k, v)
		old, had := o.put(k, v)
		optIs(r, had, old, "Insert into a large map")
	} else {
		r := m.Remove(k)
		old, had := o.del(k)
		optIs(r, had, old, "Remove from a large map")
	}
	n = len(o.keys)
	hmapIs(&m, &o, "a large map")
	switch nd.Choice("then", 4) {
	case 0:
		i, had := o.find(k)
		r := m.Get(k)
		nd.Assert(bool(r.IsSome()) == had && bool(m.ContainsKey(k)) == had, "Get from a large map: Some exactly when the key is present")
		if had {
			nd.Assert(r.Unwrap() == o.vals[i], "Get from a large map")
		}
	case 1:
		it, ks, vs := m.IntoIter(), m.Keys(), m.Values()
		seen, sum, want := make([]bool, n), gost.I32(0), gost.I32(0)
		seenK := make([]bool, n)
		for i := 0; i < n; i++ {
			want ^= o.vals[i]
			e, q, v := it.Next(), ks.Next(), vs.Next()
			nd.Assert(bool(e.IsSome()) && bool(q.IsSome()) && bool(v.IsSome()), "iteration yields every entry")
			p := e.Unwrap()
			j, had := o.find(p.Key)
			nd.Assert(had && !seen[j] && p.Value == o.vals[j], "iteration yields every entry once, with its value")
			seen[j] = true
			j, had = o.find(q.Unwrap())
			nd.Assert(had && !seenK[j], "Keys yields every key once")
			seenK[j] = true
			sum ^= v.Unwrap()
		}
		nd.Assert(sum == want, "Values yields the values")
		nd.Assert(bool(it.Next().IsNone()) && bool(ks.Next().IsNone()) && bool(vs.Next().IsNone()), "iteration yields nothing more")
	case 2:
		for i := 0; i < n; i++ {
			j := permute(4, n, i)
			optIs(m.Remove(o.keys[j]), true, o.vals[j], "Remove from a large map")
			nd.Assert(int(m.Len()) == n-1-i, "a large map being emptied: Len")
		}
		nd.Assert(bool(m.IsEmpty()), "a large map emptied")
	case 3:
		m.Clear()
		hmapIs(&m, &omap{}, "a large map cleared")
		o = omap{}
		for i := 0; i < 5; i++ {
			nd.Assert(bool(m.Get(k16(10*i)).IsNone()), "a large map cleared: no entry is found")
			v := el("after")
			nd.Assert(bool(m.Insert(k16(10*i), v).IsNone()), "a large map cleared: nothing is replaced")
			o.put(k16(10*i), v)
		}
		hmapIs(&m, &o, "a large map cleared and filled again")
	}
}

// differing compares what two lists of values made, equal except in one place.
func differing(n int, make1 func([]gost.I32) func([]gost.I32) bool, what string) {
	s := make([]gost.I32, n)
	for i := range s {
		s[i] = gost.I32(i)
	}
	s[n/3] = el("e")
	eq := make1(s)
	i := span("i", n)
	d := el("d")
	t := clone32(s)
	t[i] ^= d
	nd.Assert(eq(t) == (d == 0), what+": equal exactly when every element is")
	switch nd.Choice("length", 3) {
	case 0:
		nd.Assert(!eq(s[:n-1]), what+": a shorter one differs")
		nd.Assert(!eq(nil), what+": an empty one differs")
	case 1:
		nd.Assert(!eq(append(clone32(s), 0)), what+": a longer one differs")
	case 2:
		nd.Assert(eq(clone32(s)), what+": the same elements are equal")
	}
}

func H_C23_WideEq() {
	nd.NoMerge()
	nd.Bound("vectors and lists of 300 elements, rings of 150, maps of 40 to 90, one element arbitrary, against ones that differ at one place by an arbitrary amount, or in length")
	switch nd.Choice("kind", 5) {
	case 0:
		differing(300, func(s []gost.I32) func([]gost.I32) bool {
			v := manyVec(s)
			return func(t []gost.I32) bool {
				w := manyVec(t)
				e := bool(v.Eq(w))
				nd.Assert(bool(w.Eq(v)) == e, "Vec.Eq is symmetric")
				return e
			}
		}, "Vec.Eq")
	case 1:
		differing(300, func(s []gost.I32) func([]gost.I32) bool {
			l := manyList(s)
			return func(t []gost.I32) bool { k := manyList(t); return bool(l.Eq(k)) }
		}, "LinkedList.Eq")
	case 2:
		differing(150, func(s []gost.I32) func([]gost.I32) bool {
			d, _ := wideRing(151, 83, 0)
			for _, x := range s {
				d.PushBack(x)
			}
			return func(t []gost.I32) bool { e := freshDeque(t); return bool(d.Eq(e)) }
		}, "VecDeque.Eq")
	case 3:
		differing(40, func(s []gost.I32) func([]gost.I32) bool {
			m := gost.HashMapNew[gost.I16, gost.I32]()
			for i, x := range s {
				m.Insert(gost.I16(i), x)
			}
			return func(t []gost.I32) bool {
				k := gost.HashMapNew[gost.I16, gost.I32]()
				for i, x := range t {
					k.Insert(gost.I16(i), x)
				}
				return bool(m.Eq(k))
			}
		}, "HashMap.Eq")
	case 4:
		differing(90, func(s []gost.I32) func([]gost.I32) bool {
			m := gost.BTreeMapNew[gost.I16, gost.I32]()
			for i, x := range s {
				m.Insert(gost.I16(i), x)
			}
			return func(t []gost.I32) bool {
				k := gost.BTreeMapNew[gost.I16, gost.I32]()
				for i := len(t) - 1; i >= 0; i-- {
					k.Insert(gost.I16(i), t[i])
				}
				return bool(m.Eq(&k))
			}
		}, "BTreeMap.Eq")
	}
}

func H_C23_WideClone() {
	nd.NoMerge()
	nd.Bound("clones of sequences, sets and maps of 17, 64, 100 and 300 arbitrary elements, changed at one place or emptied on one side")
	n := []int{17, 64, 100, 300}[nd.Choice("n", 4)]
	s := els("e", n)
	i := span("i", n)
	x := el("x")
	t := clone32(s)
	t[i] = x
	side := nd.Choice("side", 2)
	switch nd.Choice("kind", 6) {
	case 0:
		v := manyVec(s)
		c := v.Clone()
		a, b := &v, &c
		if side == 1 {
			a, b = b, a
		}
		a.SetUnchecked(gost.USize(i), x)
		vecIs(a, t, "the changed side of a long Vec")
		vecIs(b, s, "the other side of a long Vec")
		a.Push(x)
		b.Push(^x)
		vecIs(a, append(clone32(t), x), "the changed side of a long Vec")
		vecIs(b, append(clone32(s), ^x), "the other side of a long Vec")
	case 1:
		l := manyList(s)
		c := l.Clone()
		a, b := &l, &c
		if side == 1 {
			a, b = b, a
		}
		*a.Back().Unwrap() = x
		t = clone32(s)
		t[n-1] = x
		for k := 0; k < i; k++ {
			a.PopFront()
		}
		listIs(b, s, "the other side of a long LinkedList")
		listIs(a, t[i:], "the changed side of a long LinkedList")
	case 2:
		d, s := wideRing(n+3, n/2, n)
		c := d.Clone()
		a, b := &d, c
		if side == 1 {
			a, b = b, a
		}
		a.Set(gost.USize(i), x)
		t := clone32(s)
		t[i] = x
		dequeIs(a, t, "the changed side of a long VecDeque")
		dequeIs(b, s, "the other side of a long VecDeque")
	case 3:
		m := gost.HashMapNew[gost.I16, gost.I32]()
		o, p := omap{}, omap{}
		for j, y := range s {
			m.Insert(gost.I16(j), y)
			o.put(gost.I16(j), y)
			p.put(gost.I16(j), y)
		}
		c := m.Clone()
		a, b := &m, &c
		if side == 1 {
			a, b = b, a
		}
		a.Insert(gost.I16(i), x)
		p.put(gost.I16(i), x)
		hmapIs(a, &p, "the changed side of a large HashMap")
		hmapIs(b, &o, "the other side of a large HashMap")
	case 4:
		m := gost.BTreeSetNew[gost.I16]()
		xs := steps40(n, 0)
		for _, y := range xs {
			m.Insert(y)
		}
		c := m.Clone()
		a, b := &m, &c
		if side == 1 {
			a, b = b, a
		}
		a.Remove(xs[i])
		setIs(b, xs, 1, "the other side of a large BTreeSet")
		setIs(a, filter16(xs, []k16{xs[i]}, false), xs[i], "the changed side of a large BTreeSet")
	case 5:
		m := gost.HashSetNew[gost.I16]()
		xs := steps40(n, 0)
		for _, y := range xs {
			m.Insert(y)
		}
		c := m.Clone()
		a, b := &m, &c
		if side == 1 {
			a, b = b, a
		}
		a.Remove(xs[i])
		setIs(b, xs, 1, "the other side of a large HashSet")
		setIs(a, filter16(xs, []k16{xs[i]}, false), xs[i], "the changed side of a large HashSet")
	}
}

func H_C24_Wide() {
	nd.NoMerge()
	nd.Bound("iterators over 40 and 150 (thorough: 300) elements of each kind of container, some taken first, then each adaptor or collector, keeping none, all or every fourth; one element and the mapping arbitrary")
	n := []int{40, nd.Tier(150, 300)}[nd.Choice("n", 2)]
	s := make([]gost.I32, n)
	for i := range s {
		s[i] = gost.I32(4 * i)
	}
	kind := nd.Choice("kind", 6)
	if kind < 4 {
		s[n/3] = el("e")
	}
	var it gost.Iterator[gost.I32]
	switch kind {
	case 0:
		v := manyVec(s)
		it = v.IntoIter()
	case 1:
		l := manyList(s)
		it = l.IntoIter()
	case 2:
		d, _ := wideRing(n, n/3, 0)
		for _, x := range s {
			d.PushBack(x)
		}
		it = d.IntoIter()
	case 3: // the map's values
		m := gost.BTreeMapNew[gost.I16, gost.I32]()
		for i := n - 1; i >= 0; i-- {
			m.Insert(gost.I16(i), s[i])
		}
		it = m.Values()
	case 4: // a set's elements
		m := gost.BTreeSetNew[gost.I32]()
		for _, x := range s {
			m.Insert(x)
		}
		it = m.IntoIter()
	case 5: // the map's keys
		m := gost.BTreeMapNew[gost.I32, gost.I16]()
		for _, x := range s {
			m.Insert(x, 0)
		}
		it = m.Keys()
	}
	c := el("c")
	keep := nd.Choice("keep", 3)
	o := iterOps[gost.I32]{
		eq:   func(a, b gost.I32) bool { return a == b },
		f:    func(x gost.I32) gost.I32 { return x ^ c },
		pred: func(x gost.I32) bool { return keep == 1 || keep == 2 && x&12 == 4 },
		fold: func(a, x gost.I32) gost.I32 { return a + a + x },
		init: c,
	}
	taken := []int{0, 1, n / 2, n - 1, n + 1}[nd.Choice("taken", 5)]
	rest := consume(o, it, s, taken, "a long iterator")
	switch w := nd.Choice("adaptor", 6); w {
	case 0, 1, 2:
		it2, want := adapt(o, it, rest, w)
		if nd.Choice("then", 2) == 0 {
			consume(o, it2, want, len(want)+2, []string{"Map", "Filter", "Rev"}[w]+" of a long iterator")
		} else {
			v := it2.Rev().CollectToVec()
			nd.Assert(seqSame(o, sliceOfVec(v), reversed(want)), "Rev after an adaptor of a long iterator")
		}
	case 3:
		nd.Assert(it.Fold(o.init, o.fold) == folded(o, rest), "Fold over a long iterator")
	case 4:
		nd.Assert(seqSame(o, sliceOfVec(it.CollectToVec()), rest), "CollectToVec of a long iterator")
	case 5:
		nd.Assert(seqSame(o, sliceOfList(it.CollectToLinkedList()), rest), "CollectToLinkedList of a long iterator")
	}
}

func H_C28_Wide() {
	nd.NoMerge()
	nd.Bound("templates of 3 to 300 placeholders, doubled braces and literal characters (an arbitrary one among them) around each, one argument short, as many or one too many; arguments of one arbitrary byte")
	n := []int{3, 9, 20, 40, 300}[nd.Choice("n", 5)]
	around := nd.Choice("around", 5)
	lit := nd.Bytes("lit", 3)
	nd.Assume(lit[0] >= 0xE1 && lit[0] <= 0xEF && lit[0] != 0xED && lit[1]&0xC0 == 0x80 && lit[2]&0xC0 == 0x80)
	tpl, want := "", ""
	var args []any
	for i := 0; i < n; i++ {
		switch around {
		case 1:
			tpl, want = tpl+"{{", want+"{"
		case 2:
			tpl, want = tpl+"text, ", want+"text, "
		case 3:
			tpl, want = tpl+string(lit), want+string(lit)
		}
		a := nd.Str("a", 1)
		args = append(args, gost.String(a))
		tpl, want = tpl+"{}", want+a
		if around == 1 || around == 4 && i%2 == 0 {
			tpl, want = tpl+"}}", want+"}"
		}
	}
	short := nd.Choice("short", 2) == 1
	if short {
		args = args[:n-1]
	}
	var got gost.String
	p := nd.Catch(func() { got = gost.Format(gost.String(tpl), args...) })
	nd.Assert(p == short, "Format of a long template: panics exactly when an argument is missing")
	nd.Assert(p || string(got) == want, "Format of a long template: literal text, braces and arguments in order")
}

func H_C30_Wide() {
	nd.NoMerge()
	nd.Bound("subjects of 3 to 40 (one separator: 300) pieces of up to 3 small letters, one of them arbitrary, with separators of 1 or 2 characters between: split, replaced, found, repeated and trimmed")
	n := []int{3, 9, 20, 40, 300}[nd.Choice("n", 5)]
	sep := []string{",", "--", "é"}[nd.Choice("sep", 3)]
	with := []string{"", ";", "--é--"}[nd.Choice("with", 3)]
	nd.Assume(n < 300 || sep == "--" && with == ";")
	var parts []string
	s, w := "", ""
	for i := 0; i < n; i++ {
		b := []byte("xyz")[:i%4]
		if i == n/2|1 {
			b = nd.Bytes("p", 1)
			nd.Assume(b[0] >= 'a' && b[0] <= 'z')
		}
		parts = append(parts, string(b))
		if i > 0 {
			s, w = s+sep, w+with
		}
		s, w = s+string(b), w+string(b)
	}
	g := gost.String(s)
	switch nd.Choice("op", 6) {
	case 0:
		v := g.Split(gost.String(sep))
		nd.Assert(int(v.Len()) == n, "Split into many pieces")
		ok := true
		for i, p := range parts {
			ok = ok && string(v.GetUnchecked(gost.USize(i))) == p
		}
		nd.Assert(ok, "Split into many pieces: the pieces in order")
	case 1:
		nd.Assert(string(g.Replace(gost.String(sep), gost.String(with))) == w, "Replace of many matches")
	case 2:
		t := gost.String(s + "!?")
		o := t.Find("!?")
		nd.Assert(bool(o.IsSome()) && int(o.Unwrap()) == len(s), "Find far from the start")
		nd.Assert(bool(t.Contains("!?")) && !bool(t.Contains("?!")) && bool(t.Find("?!").IsNone()), "Contains far from the start")
	case 3:
		m := n + nd.Choice("times", 2)
		if n == 300 {
			g, s = "xy", "xy"
			m = []int{0, 65, 129, 300, 1000, 4097}[nd.Choice("many", 6)]
		}
		r, want := g.Repeat(gost.USize(m)), ""
		for i := 0; i < m; i++ {
			want += s
		}
		nd.Assert(string(r) == want, "Repeat many times")
	case 4:
		sp := ""
		for i := 0; i < n; i++ {
			sp += []string{" ", "\t", "\u3000", "\n", "\u0085"}[i%5]
		}
		t := gost.String(sp + "x" + s + "x" + sp)
		nd.Assert(string(t.Trim()) == "x"+s+"x", "Trim of many spaces")
	case 5:
		t := gost.String("")
		cs := []rune(s)
		for _, c := range cs {
			t.Push(gost.Char(c))
		}
		nd.Assert(string(t) == s, "Push of many characters")
		for i := len(cs) - 1; i >= 0; i-- {
			o := t.Pop()
			nd.Assert(bool(o.IsSome()) && rune(o.Unwrap()) == cs[i], "Pop of many characters")
		}
		nd.Assert(len(t) == 0 && bool(t.Pop().IsNone()), "Pop of many characters: until none is left")
	}
}

func H_C38_Wide() {
	nd.NoMerge()
	nd.Bound("containers of 13, 40, 100 and 300 strings of one arbitrary byte each")
	n := []int{13, 40, 100, 300}[nd.Choice("n", 4)]
	kind := nd.Choice("kind", 6)
	var s []gost.String
	for i := 0; i < n; i++ {
		s = append(s, gost.String(nd.Str("s", 1)))
	}
	num := func(i int) string {
		r := string([]byte{'0' + byte(i%10)})
		for i /= 10; i > 0; i /= 10 {
			r = string([]byte{'0' + byte(i%10)}) + r
		}
		return r
	}
	switch kind {
	case 0:
		v := gost.VecNew[gost.String]()
		for _, x := range s {
			v.Push(x)
		}
		shows(v, join("Vec[", strs(s), "]"), "a long Vec")
	case 1:
		d := gost.VecDequeWithCapacity[gost.String](gost.USize(n))
		for i := 0; i < n/2; i++ {
			d.PushBack("junk")
			d.PopFront()
		}
		for _, x := range s {
			d.PushBack(x)
		}
		shows(d, join("VecDeque[", strs(s), "]"), "a long VecDeque")
	case 2:
		l := gost.LinkedListNew[gost.String]()
		for _, x := range s {
			l.PushBack(x)
		}
		shows(l, join("LinkedList[", strs(s), "]"), "a long LinkedList")
	case 3:
		m := gost.BTreeMapNew[gost.I16, gost.String]()
		var parts []string
		for i := n - 1; i >= 0; i-- {
			m.Insert(gost.I16(i), s[i])
		}
		for i := range s {
			parts = append(parts, num(i)+": "+string(s[i]))
		}
		shows(m, join("BTreeMap{", parts, "}"), "a large BTreeMap")
	case 4:
		m := gost.BTreeSetNew[gost.I16]()
		var parts []string
		for i := 0; i < n; i++ {
			j := permute(4, n, i)
			m.Insert(gost.I16(j))
			parts = append(parts, num(i))
		}
		shows(m, join("BTreeSet{", parts, "}"), "a large BTreeSet")
	case 5:
		m := gost.HashSetNew[gost.I16]()
		k := gost.HashMapNew[gost.I16, gost.String]()
		for i := 0; i < n; i++ {
			m.Insert(gost.I16(i))
			k.Insert(gost.I16(i), "v")
		}
		t, u := string(m.Display()), string(k.Display())
		size, entries := len("HashSet{}")+2*(n-1), len("HashMap{}")+2*(n-1)
		for i := 0; i < n; i++ {
			size += len(num(i))
			entries += len(num(i)) + len(": v")
		}
		nd.Assert(len(t) == size && t[:8] == "HashSet{" && t[size-1:] == "}", "a large HashSet: Display")
		nd.Assert(len(u) == entries && u[:8] == "HashMap{" && u[entries-1:] == "}", "a large HashMap: Display")
		i := span("i", n)
		a, b := gost.String(t), gost.String(u)
		in := func(g gost.String, x string) bool {
			return bool(g.Contains(gost.String("{"+x+"}"))) || bool(g.Contains(gost.String("{"+x+", "))) ||
				bool(g.Contains(gost.String(", "+x+", "))) || bool(g.Contains(gost.String(", "+x+"}")))
		}
		nd.Assert(in(a, num(i)), "a large HashSet: Display has every element")
		nd.Assert(in(b, num(i)+": v"), "a large HashMap: Display has every entry")
	}
}

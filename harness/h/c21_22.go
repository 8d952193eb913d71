package h

import (
	"github.com/myyrakle/gost"
	"gostverif/nd"
)

type hm = gost.HashMap[gost.I16, gost.I32]

// hmapIs asserts the map holds exactly o.
func hmapIs(m *hm, o *omap, what string) {
	nd.Assert(int(m.Len()) == len(o.keys), what+": Len")
	nd.Assert(bool(m.IsEmpty()) == (len(o.keys) == 0), what+": IsEmpty")
	ok := true
	for i, k := range o.keys {
		g := m.Get(k)
		nd.Assert(bool(g.IsSome()), what+": every key is present")
		ok = ok && g.Unwrap() == o.vals[i]
	}
	nd.Assert(ok, what+": the last value inserted for each key")
}

func hmapOp(m *hm, o *omap, ops int) {
	switch nd.Choice("op", ops) {
	case 0:
		k, v := key16("k"), el("v")
		r := m.Insert(k, v)
		old, had := o.put(k, v)
		nd.Assert(bool(r.IsSome()) == had, "Insert: Some exactly when the key was present")
		if had {
			nd.Assert(r.Unwrap() == old, "Insert: the previous value")
		}
	case 1:
		k := key16("k")
		r := m.Remove(k)
		old, had := o.del(k)
		nd.Assert(bool(r.IsSome()) == had, "Remove: Some exactly when the key was present")
		if had {
			nd.Assert(r.Unwrap() == old, "Remove: the previous value")
		}
	case 2:
		k := key16("k")
		i, had := o.find(k)
		r := m.Get(k)
		nd.Assert(bool(r.IsSome()) == had, "Get: Some exactly when the key is present")
		nd.Assert(bool(m.ContainsKey(k)) == had, "ContainsKey")
		if had {
			nd.Assert(r.Unwrap() == o.vals[i], "Get: the last value inserted")
		}
	case 3:
		m.Clear()
		*o = omap{}
	}
}

func mkHMap(max int) (hm, *omap) {
	var m hm
	if nd.Choice("new", 2) == 0 {
		m = gost.HashMapNew[gost.I16, gost.I32]()
	} else {
		m = gost.HashMapWithCapacity[gost.I16, gost.I32](2)
	}
	o := &omap{}
	n := nd.Choice("n", max+1)
	for i := 0; i < n; i++ {
		v := el("v")
		m.Insert(k16(10*i), v)
		o.put(k16(10*i), v)
	}
	return m, o
}

func H_C21_History() {
	nd.NoMerge()
	nd.Bound("maps of up to 2 entries; 3 (quick) or 4 (thorough) operations with arbitrary keys and values")
	m, o := mkHMap(2)
	for i := 0; i < nd.Tier(3, 4); i++ {
		hmapOp(&m, o, 4)
		hmapIs(&m, o, "history")
	}
}

// iteration in whatever order the runtime enumerates
func H_C21_Iteration() {
	nd.NoMerge()
	nd.MapOrder(2)
	nd.Bound("maps of up to 3 entries, one operation with an arbitrary key, every enumeration order")
	m, o := mkHMap(3)
	hmapOp(&m, o, 3)
	n := len(o.keys)
	switch nd.Choice("what", 3) {
	case 0:
		it := m.IntoIter()
		seen := make([]bool, n)
		ok := true
		for i := 0; i < n; i++ {
			e := it.Next()
			nd.Assert(bool(e.IsSome()), "iteration yields every entry")
			p := e.Unwrap()
			j, had := o.find(p.Key)
			nd.Assert(had && !seen[j], "iteration yields every entry once")
			seen[j] = true
			ok = ok && p.Value == o.vals[j]
		}
		nd.Assert(ok, "iteration yields each key's value")
		nd.Assert(bool(it.Next().IsNone()), "iteration yields nothing more")
		nd.Assert(bool(it.Next().IsNone()), "iteration stays at the end")
	case 1:
		it := m.Keys()
		seen := make([]bool, n)
		for i := 0; i < n; i++ {
			e := it.Next()
			nd.Assert(bool(e.IsSome()), "Keys yields every key")
			j, had := o.find(e.Unwrap())
			nd.Assert(had && !seen[j], "Keys yields every key once")
			seen[j] = true
		}
		nd.Assert(bool(it.Next().IsNone()), "Keys yields nothing more")
	case 2:
		it := m.Values()
		var got []gost.I32
		for i := 0; i < n; i++ {
			e := it.Next()
			nd.Assert(bool(e.IsSome()), "Values yields every value")
			got = append(got, e.Unwrap())
		}
		nd.Assert(bool(it.Next().IsNone()), "Values yields nothing more")
		nd.Merge(1)
		perm := true
		for _, x := range o.vals {
			perm = perm && count32(got, x) == count32(o.vals, x)
		}
		nd.Assert(perm, "Values yields the values of all entries")
	}
}

// other key types, and the raw map
func H_C21_Strings() {
	nd.NoMerge()
	nd.Bound("string keys of up to one arbitrary byte; two inserts, one lookup, one removal")
	m := gost.HashMapNew[gost.String, gost.String]()
	a, b := gost.String(nd.Str("a", nd.Choice("la", 2))), gost.String(nd.Str("b", nd.Choice("lb", 2)))
	m.Insert(a, "1")
	r := m.Insert(b, "2")
	nd.Assert(bool(r.IsSome()) == (a == b), "Insert: Some exactly when the key was present")
	q := gost.String(nd.Str("q", 1))
	g := m.Get(q)
	nd.Assert(bool(g.IsSome()) == (q == a || q == b), "Get: Some exactly when the key is present")
	nd.Assert(bool(m.ContainsKey(q)) == (q == a || q == b), "ContainsKey")
	if q == b {
		nd.Assert(g.Unwrap() == "2", "Get: the last value inserted")
	} else if q == a {
		nd.Assert(g.Unwrap() == "1", "Get: the last value inserted")
	}
	d := m.Remove(q)
	nd.Assert(bool(d.IsSome()) == bool(g.IsSome()), "Remove: Some exactly when the key was present")
	nd.Assert(!bool(m.ContainsKey(q)), "Remove: the key is gone")
	nd.Assert(int(m.Len()) == len(m.AsMap()), "AsMap: the same entries")
}

// ---- C22

type hset16 = gost.HashSet[gost.I16]

func H_C22_History() {
	nd.NoMerge()
	nd.Bound("sets of up to 2 elements; 3 (quick) or 4 (thorough) operations with arbitrary elements")
	var s hset16
	switch nd.Choice("new", 3) {
	case 0:
		s = gost.HashSetNew[gost.I16]()
	case 1:
		s = gost.HashSetWithCapacity[gost.I16](1)
	case 2:
		s = gost.HashSetFromSlice([]gost.I16{})
	}
	o := &omap{}
	n := nd.Choice("n", 3)
	for i := 0; i < n; i++ {
		s.Insert(k16(10 * i))
		o.put(k16(10*i), 0)
	}
	for i := 0; i < nd.Tier(3, 4); i++ {
		k := key16("k")
		switch nd.Choice("op", 4) {
		case 0:
			r := s.Insert(k)
			_, had := o.put(k, 0)
			nd.Assert(bool(r) == !had, "Insert: reports whether it changed the set")
		case 1:
			r := s.Remove(k)
			_, had := o.del(k)
			nd.Assert(bool(r) == had, "Remove: reports whether it changed the set")
		case 2:
			_, had := o.find(k)
			nd.Assert(bool(s.Contains(k)) == had, "Contains: membership")
			g := s.Get(k)
			nd.Assert(bool(g.IsSome()) == had, "Get: Some exactly for members")
			if had {
				nd.Assert(g.Unwrap() == k, "Get: the element")
			}
		case 3:
			s.Clear()
			o = &omap{}
		}
		nd.Assert(int(s.Len()) == len(o.keys), "Len: number of elements")
		nd.Assert(bool(s.IsEmpty()) == (len(o.keys) == 0), "IsEmpty")
		ok := true
		for _, k := range o.keys {
			ok = ok && bool(s.Contains(k))
		}
		nd.Assert(ok, "Contains: every element")
	}
}

func mkHSet(name string, max int) (hset16, []k16) {
	n := nd.Choice(name+".len", max+1)
	var xs []k16
	for i := 0; i < n; i++ {
		xs = append(xs, k16(nd.I8(name)))
	}
	if nd.Choice(name+".how", 2) == 0 {
		s := gost.HashSetNew[gost.I16]()
		for _, x := range xs {
			s.Insert(x)
		}
		return s, xs
	}
	return gost.HashSetFromSlice(xs), xs
}

func H_C22_Algebra() {
	nd.NoMerge()
	nd.Bound("every pair of sets of up to 2 (quick) or 3 (thorough) arbitrary 8-bit elements (16-bit keys), forward and reverse enumeration")
	k := nd.Tier(2, 3)
	a, xs := mkHSet("a", k)
	b, ys := mkHSet("b", k)
	q := k16(nd.I8("q"))
	switch nd.Choice("op", 4) {
	case 0:
		u := a.Union(b)
		setIs(&u, append(append([]k16{}, xs...), ys...), q, "Union")
		u.Insert(1000)
		u.Remove(q)
	case 1:
		i := a.Intersection(b)
		setIs(&i, filter16(xs, ys, true), q, "Intersection")
		i.Insert(1000)
		i.Remove(q)
	case 2:
		d := a.SymmetricDifference(b)
		setIs(&d, append(filter16(xs, ys, false), filter16(ys, xs, false)...), q, "SymmetricDifference")
		d.Insert(1000)
		d.Remove(q)
	case 3:
		ab, ba := sub16(xs, ys), sub16(ys, xs)
		nd.Assert(bool(a.IsSubset(b)) == ab, "IsSubset")
		nd.Assert(bool(a.IsSuperset(b)) == ba, "IsSuperset")
		nd.Assert(bool(a.IsDisjoint(b)) == (len(filter16(xs, ys, true)) == 0), "IsDisjoint")
		nd.Assert(bool(a.Eq(b)) == (ab && ba), "Eq")
	}
	setIs(&a, xs, q, "the left operand is unchanged")
	setIs(&b, ys, q, "the right operand is unchanged")
	nd.Assert(!bool(a.Contains(1000)) && !bool(b.Contains(1000)), "the result is independent of the operands")
}

func H_C22_AlgebraLarge() {
	nd.NoMerge()
	nd.Bound("sets of up to 5 and 5 fixed elements (equal, overlapping, disjoint, nested or empty) and one arbitrary element on either side, forward and reverse enumeration")
	a, b := gost.HashSetNew[gost.I16](), gost.HashSetNew[gost.I16]()
	var xs, ys []k16
	na := []int{0, 1, 5}[nd.Choice("na", 3)]
	nb := []int{0, 1, 5}[nd.Choice("nb", 3)]
	off := []int{0, 2, 100}[nd.Choice("off", 3)]
	for i := 0; i < na; i++ {
		a.Insert(k16(10 * i))
		xs = append(xs, k16(10*i))
	}
	for i := 0; i < nb; i++ {
		b.Insert(k16(10 * (i + off)))
		ys = append(ys, k16(10*(i+off)))
	}
	x := k16(nd.I8("x"))
	if nd.Choice("side", 2) == 0 {
		a.Insert(x)
		xs = append(xs, x)
	} else {
		b.Insert(x)
		ys = append(ys, x)
	}
	both := append(append([]k16{}, xs...), ys...)
	common := filter16(xs, ys, true)
	ab, ba := sub16(xs, ys), sub16(ys, xs)
	switch nd.Choice("op", 4) {
	case 0:
		u := a.Union(b)
		setIs(&u, both, 1, "Union")
	case 1:
		i := a.Intersection(b)
		setIs(&i, common, 1, "Intersection")
	case 2:
		d := a.SymmetricDifference(b)
		setIs(&d, append(filter16(xs, ys, false), filter16(ys, xs, false)...), 1, "SymmetricDifference")
	case 3:
		nd.Assert(bool(a.IsSubset(b)) == ab, "IsSubset")
		nd.Assert(bool(a.IsSuperset(b)) == ba, "IsSuperset")
		nd.Assert(bool(a.IsDisjoint(b)) == (len(common) == 0), "IsDisjoint")
		nd.Assert(bool(a.Eq(b)) == (ab && ba), "Eq")
	}
	setIs(&a, xs, 1, "the left operand is unchanged")
	setIs(&b, ys, 1, "the right operand is unchanged")
}

func H_C22_Slice() {
	nd.NoMerge()
	nd.MapOrder(2)
	nd.Bound("slices of up to 3 arbitrary elements, every enumeration order")
	xs := []k16{}
	n := nd.Choice("n", 4)
	for i := 0; i < n; i++ {
		xs = append(xs, key16("x"))
	}
	s := gost.HashSetFromSlice(xs)
	setIs(&s, xs, key16("q"), "HashSetFromSlice")
	out := s.AsSlice()
	nd.Assert(len(out) == card16(xs) && card16(out) == len(out), "AsSlice: each element once")
	nd.Assert(sub16(out, xs), "AsSlice: the elements of the set")
}

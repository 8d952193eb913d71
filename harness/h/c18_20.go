package h

import (
	"github.com/myyrakle/gost"
	"gostverif/nd"
)

type k16 = gost.I16
type btm = gost.BTreeMap[gost.I16, gost.I32]

func key16(n string) k16 { return k16(nd.I16(n)) }

// omap is the reference map: entries sorted by key.
type omap struct {
	keys []k16
	vals []gost.I32
}

// find gives the position of k, or the position it would be inserted at.
func (o *omap) find(k k16) (int, bool) {
	lo, hi := 0, len(o.keys)
	for lo < hi {
		mid := (lo + hi) / 2
		if o.keys[mid] < k {
			lo = mid + 1
		} else {
			hi = mid
		}
	}
	return lo, lo < len(o.keys) && o.keys[lo] == k
}
func (o *omap) put(k k16, v gost.I32) (gost.I32, bool) {
	i, ok := o.find(k)
	if ok {
		old := o.vals[i]
		o.vals[i] = v
		return old, true
	}
	o.keys = append(o.keys, 0)
	o.vals = append(o.vals, 0)
	copy(o.keys[i+1:], o.keys[i:])
	copy(o.vals[i+1:], o.vals[i:])
	o.keys[i], o.vals[i] = k, v
	return 0, false
}
func (o *omap) del(k k16) (gost.I32, bool) {
	i, ok := o.find(k)
	if !ok {
		return 0, false
	}
	v := o.vals[i]
	o.keys = append(append([]k16{}, o.keys[:i]...), o.keys[i+1:]...)
	o.vals = append(append([]gost.I32{}, o.vals[:i]...), o.vals[i+1:]...)
	return v, true
}

// tree is a BTreeMap with its reference.
type tree struct {
	m btm
	o omap
}

func (t *tree) put(k k16, v gost.I32) {
	r := t.m.Insert(k, v)
	old, had := t.o.put(k, v)
	nd.Assert(bool(r.IsSome()) == had, "Insert: Some exactly when the key was present")
	if had {
		nd.Assert(r.Unwrap() == old, "Insert: the replaced value")
	}
}
func (t *tree) del(k k16) {
	r := t.m.Remove(k)
	old, had := t.o.del(k)
	nd.Assert(bool(r.IsSome()) == had, "Remove: Some exactly when the key was present")
	if had {
		nd.Assert(r.Unwrap() == old, "Remove: the removed value")
	}
}
func (t *tree) get(k k16) {
	i, had := t.o.find(k)
	r := t.m.Get(k)
	nd.Assert(bool(r.IsSome()) == had, "Get: Some exactly when the key is present")
	nd.Assert(bool(t.m.ContainsKey(k)) == had, "ContainsKey")
	if had {
		nd.Assert(r.Unwrap() == t.o.vals[i], "Get: the last value inserted")
	}
}
func (t *tree) length() {
	nd.Assert(int(t.m.Len()) == len(t.o.keys), "Len: the number of entries")
	nd.Assert(bool(t.m.IsEmpty()) == (len(t.o.keys) == 0), "IsEmpty")
}

// all checks every entry.
func (t *tree) all() {
	t.length()
	ok := true
	for i, k := range t.o.keys {
		r := t.m.Get(k)
		nd.Assert(bool(r.IsSome()), "Get: Some for every entry")
		ok = ok && r.Unwrap() == t.o.vals[i]
	}
	nd.Assert(ok, "Get: the last value inserted for each key")
}

// ordered checks iteration.
func (t *tree) ordered() {
	it, ks, vs := t.m.IntoIter(), t.m.Keys(), t.m.Values()
	same, vals := true, true
	for i, k := range t.o.keys {
		p, q, v := it.Next(), ks.Next(), vs.Next()
		nd.Assert(bool(p.IsSome()) && bool(q.IsSome()) && bool(v.IsSome()), "iteration yields every entry")
		e := p.Unwrap()
		same = same && e.Key == k && q.Unwrap() == k
		vals = vals && e.Value == t.o.vals[i] && v.Unwrap() == t.o.vals[i]
	}
	nd.Assert(same, "iteration in ascending key order")
	nd.Assert(vals, "iteration yields each key's value, values in the same order")
	nd.Assert(bool(it.Next().IsNone()) && bool(ks.Next().IsNone()) && bool(vs.Next().IsNone()), "iteration yields nothing more")
}

// permute is the i-th key index of n in one of several insertion orders.
func permute(order, n, i int) int {
	switch order {
	case 0:
		return i
	case 1:
		return n - 1 - i
	case 2: // outside in
		if i%2 == 0 {
			return i / 2
		}
		return n - 1 - i/2
	case 3: // inside out
		if i%2 == 0 {
			return n/2 + i/2
		}
		return n/2 - 1 - i/2
	}
	// stride
	for s := 7; ; s++ {
		if gcd(s, n) == 1 {
			return i * s % n
		}
	}
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// fill inserts n keys, ten apart, in the given order; their values are fixed.
func (t *tree) fill(n, order int) {
	if n%2 == 1 && order == 3 {
		order = 4
	}
	for i := 0; i < n; i++ {
		j := permute(order, n, i)
		t.put(k16(10*j), gost.I32(1000+j))
	}
}

// thin removes entries in one of several patterns.
func (t *tree) thin(pattern int) {
	keys := append([]k16{}, t.o.keys...)
	n := len(keys)
	switch pattern {
	case 1: // every other
		for i := 0; i < n; i += 2 {
			t.del(keys[i])
		}
	case 2: // first half
		for i := 0; i < n/2; i++ {
			t.del(keys[i])
		}
	case 3: // last half, from the end
		for i := n - 1; i > n/2; i-- {
			t.del(keys[i])
		}
	case 4: // the middle
		for i := n / 4; i < n*3/4; i++ {
			t.del(keys[i])
		}
	case 5: // all but a few, stride order
		for i := 0; i < n-7; i++ {
			t.del(keys[permute(4, n, i)])
		}
	}
}

// step is one operation with an arbitrary key and value.
func (t *tree) step() {
	k := key16("k")
	switch nd.Choice("op", 3) {
	case 0:
		t.put(k, el("v"))
	case 1:
		t.del(k)
	case 2:
		t.get(k)
	}
}

func smallTree(t *tree, ops int) {
	n := nd.Choice("n", 4)
	for i := 0; i < n; i++ {
		t.put(k16(10*(i*2%3)), el("v"))
	}
	for i := 0; i < ops; i++ {
		switch nd.Choice("op", 4) {
		case 0:
			t.put(key16("k"), el("v"))
		case 1:
			t.del(key16("k"))
		case 2:
			t.get(key16("k"))
		case 3:
			t.m.Clear()
			t.o = omap{}
		}
		t.length()
	}
}

func H_C18_Small() {
	nd.NoMerge()
	nd.Bound("maps of up to 3 entries; 3 (quick) or 4 (thorough) operations with arbitrary keys and values")
	t := &tree{}
	smallTree(t, nd.Tier(3, 4))
	t.all()
}

// a leaf filling up and splitting, with arbitrary keys
func splitTree(t *tree) {
	n := 10 + nd.Choice("n", nd.Tier(2, 4))
	t.fill(n, nd.Choice("order", nd.Tier(2, 5)))
	t.step()
	t.step()
}

const splitBound = "maps of 10 or 11 (thorough: up to 13) entries in 2 (thorough: 5) insertion orders; 2 operations with arbitrary keys and values"

func H_C18_Split() {
	nd.NoMerge()
	nd.Bound(splitBound)
	t := &tree{}
	splitTree(t)
	t.all()
}

// trees of two levels, thinned, then one arbitrary operation
func twoLevel(t *tree) {
	sizes := []int{11, 12, 17, 18, 23, 24, 30, 36}
	n := sizes[nd.Choice("n", nd.Tier(6, 8))]
	t.fill(n, nd.Choice("order", nd.Tier(3, 5)))
	t.thin(nd.Choice("thin", 6))
	t.step()
}

const twoBound = "maps of 11 to 24 (quick) or 36 (thorough) entries in 3 or 5 insertion orders, thinned in 6 patterns; one operation with arbitrary key and value"

func H_C18_TwoLevels() {
	nd.NoMerge()
	nd.Bound(twoBound)
	t := &tree{}
	twoLevel(t)
	t.all()
}

// trees of three levels
func threeLevel(t *tree) {
	n := []int{80, 72, 90, 110, 150}[nd.Choice("n", nd.Tier(1, 5))]
	t.fill(n, nd.Choice("order", nd.Tier(2, 5)))
	t.thin(nd.Choice("thin", 6))
	k := key16("k")
	if nd.Choice("op", 2) == 0 {
		t.put(k, el("v"))
	} else {
		t.del(k)
	}
}

const threeBound = "maps of 80 (quick) or 72 to 150 (thorough) entries in 2 or 5 insertion orders, thinned in 6 patterns; one operation with arbitrary key and value"

func H_C18_ThreeLevels() {
	nd.NoMerge()
	nd.Bound(threeBound)
	t := &tree{}
	threeLevel(t)
	t.all()
}

// An arbitrary entry goes into a large tree, which is then emptied.
func drainTree(t *tree, each func()) {
	n := []int{30, 80, 150}[nd.Choice("n", nd.Tier(2, 3))]
	t.fill(n, nd.Choice("fill", nd.Tier(2, 5)))
	k := key16("k")
	nd.Assume(k > 10*k16(n/3) && k < 10*k16(n/3)+30)
	t.put(k, el("v"))
	order := nd.Choice("drain", 5)
	keys := append([]k16{}, t.o.keys...)
	if order == 3 && len(keys)%2 == 1 {
		order = 4
	}
	for i := range keys {
		t.del(keys[permute(order, len(keys), i)])
		if i%7 == 0 {
			each()
		}
	}
	each()
}

const drainBound = "maps of 30 or 80 (thorough: also 150) entries in 2 (thorough: 5) insertion orders plus one arbitrary entry near a fixed third, emptied in 5 orders"

func H_C18_Drain() {
	nd.NoMerge()
	nd.Steps(40000000)
	nd.Bound(drainBound)
	t := &tree{}
	drainTree(t, t.all)
}

// other key types: strings
func H_C18_Strings() {
	nd.NoMerge()
	nd.Bound("string keys of one arbitrary byte; 2 inserts, one removal, one lookup")
	m := gost.BTreeMapNew[gost.String, gost.String]()
	a, b := gost.String(nd.Str("a", 1)), gost.String(nd.Str("b", 1))
	m.Insert(a, "1")
	r := m.Insert(b, "2")
	nd.Assert(bool(r.IsSome()) == (a == b), "Insert: Some exactly when the key was present")
	q := gost.String(nd.Str("q", 1))
	g := m.Get(q)
	nd.Assert(bool(g.IsSome()) == (q == a || q == b), "Get: Some exactly when the key is present")
	if q == b {
		nd.Assert(g.Unwrap() == "2", "Get: the last value inserted")
	} else if q == a {
		nd.Assert(g.Unwrap() == "1", "Get: the last value inserted")
	}
	d := m.Remove(q)
	nd.Assert(bool(d.IsSome()) == bool(g.IsSome()), "Remove: Some exactly when the key was present")
	nd.Assert(!bool(m.ContainsKey(q)), "Remove: the key is gone")
}

// ---- C19

func H_C19_Small() {
	nd.NoMerge()
	nd.Bound("maps of up to 3 entries; 2 (quick) or 3 (thorough) operations with arbitrary keys and values")
	t := &tree{}
	smallTree(t, nd.Tier(2, 3))
	t.ordered()
}
func H_C19_Split() {
	nd.NoMerge()
	nd.Bound(splitBound)
	t := &tree{}
	splitTree(t)
	t.ordered()
}
func H_C19_TwoLevels() {
	nd.NoMerge()
	nd.Bound(twoBound)
	t := &tree{}
	twoLevel(t)
	t.ordered()
}
func H_C19_ThreeLevels() {
	nd.NoMerge()
	nd.Bound(threeBound)
	t := &tree{}
	threeLevel(t)
	t.ordered()
}
func H_C19_Drain() {
	nd.NoMerge()
	nd.Steps(40000000)
	nd.Bound(drainBound)
	t := &tree{}
	drainTree(t, t.ordered)
}

// sets
func H_C19_Set() {
	nd.NoMerge()
	nd.Bound("sets of up to 3 and 11 to 24 (thorough: 90) elements in 5 insertion orders, thinned in 2 patterns; insertion and removal of an arbitrary element")
	s := gost.BTreeSetNew[gost.I16]()
	o := &omap{}
	n := []int{0, 1, 3, 11, 12, 17, 24, 72, 90}[nd.Choice("n", nd.Tier(7, 9))]
	order := nd.Choice("order", 5)
	if n%2 == 1 && order == 3 {
		order = 4
	}
	for i := 0; i < n; i++ {
		k := k16(10 * permute(order, n, i))
		s.Insert(k)
		o.put(k, 0)
	}
	if nd.Choice("thin", 2) == 1 {
		for i := 0; i < n; i += 3 {
			s.Remove(k16(10 * i))
			o.del(k16(10 * i))
		}
	}
	k := key16("k")
	if nd.Choice("op", 2) == 0 {
		s.Insert(k)
		o.put(k, 0)
	} else {
		s.Remove(k)
		o.del(k)
	}
	it := s.IntoIter()
	same := true
	for _, k := range o.keys {
		e := it.Next()
		nd.Assert(bool(e.IsSome()), "iteration yields every element")
		same = same && e.Unwrap() == k
	}
	nd.Assert(same, "iteration in ascending order")
	nd.Assert(bool(it.Next().IsNone()), "iteration yields nothing more")
}

// ---- C20

type bset = gost.BTreeSet[gost.I16]

// bsetIs asserts that s is exactly the set o.
func bsetIs(s *bset, o *omap, what string) {
	nd.Assert(int(s.Len()) == len(o.keys), what+": length")
	nd.Assert(bool(s.IsEmpty()) == (len(o.keys) == 0), what+": IsEmpty")
	ok := true
	for _, k := range o.keys {
		ok = ok && bool(s.Contains(k))
	}
	nd.Assert(ok, what+": holds every element")
}

func H_C20_History() {
	nd.NoMerge()
	nd.Bound("sets of up to 3 elements; 3 (quick) or 4 (thorough) operations with arbitrary elements")
	s := gost.BTreeSetNew[gost.I16]()
	o := &omap{}
	n := nd.Choice("n", 4)
	for i := 0; i < n; i++ {
		k := k16(10 * (i * 2 % 3))
		s.Insert(k)
		o.put(k, 0)
	}
	for i := 0; i < nd.Tier(3, 4); i++ {
		switch nd.Choice("op", 4) {
		case 0:
			k := key16("k")
			r := s.Insert(k)
			_, had := o.put(k, 0)
			nd.Assert(bool(r) == !had, "Insert: reports whether it changed the set")
		case 1:
			k := key16("k")
			r := s.Remove(k)
			_, had := o.del(k)
			nd.Assert(bool(r) == had, "Remove: reports whether it changed the set")
		case 2:
			k := key16("k")
			_, had := o.find(k)
			nd.Assert(bool(s.Contains(k)) == had, "Contains: membership")
		case 3:
			s.Clear()
			o = &omap{}
		}
		bsetIs(&s, o, "history")
	}
}

func H_C20_Large() {
	nd.NoMerge()
	nd.Bound("sets of 11 to 24 (thorough: 90) elements in 5 insertion orders, thinned in 2 patterns; insertion or removal of an arbitrary element")
	s := gost.BTreeSetNew[gost.I16]()
	o := &omap{}
	n := []int{11, 12, 17, 18, 24, 72, 90}[nd.Choice("n", nd.Tier(5, 7))]
	order := nd.Choice("order", 5)
	if n%2 == 1 && order == 3 {
		order = 4
	}
	for i := 0; i < n; i++ {
		k := k16(10 * permute(order, n, i))
		nd.Assert(bool(s.Insert(k)), "Insert: reports whether it changed the set")
		o.put(k, 0)
	}
	if nd.Choice("thin", 2) == 1 {
		for i := 0; i < n; i += 3 {
			nd.Assert(bool(s.Remove(k16(10*i))), "Remove: reports whether it changed the set")
			o.del(k16(10 * i))
		}
	}
	k := key16("k")
	if nd.Choice("op", 2) == 0 {
		r := s.Insert(k)
		_, had := o.put(k, 0)
		nd.Assert(bool(r) == !had, "Insert: reports whether it changed the set")
	} else {
		r := s.Remove(k)
		_, had := o.del(k)
		nd.Assert(bool(r) == had, "Remove: reports whether it changed the set")
		nd.Assert(!bool(s.Contains(k)), "Remove: the element is gone")
	}
	bsetIs(&s, o, "large set")
}

func mkBSet(name string, max int) (bset, []k16) {
	s := gost.BTreeSetNew[gost.I16]()
	var xs []k16
	n := nd.Choice(name+".len", max+1)
	for i := 0; i < n; i++ {
		k := k16(nd.I8(name))
		s.Insert(k)
		xs = append(xs, k)
	}
	return s, xs
}

func in16(xs []k16, q k16) bool {
	r := false
	for _, x := range xs {
		r = r || x == q
	}
	return r
}

// card is the number of different values in xs.
func card16(xs []k16) int {
	n := 0
	for i, x := range xs {
		if !in16(xs[:i], x) {
			n++
		}
	}
	return n
}
func sub16(xs, ys []k16) bool {
	r := true
	for _, x := range xs {
		r = r && in16(ys, x)
	}
	return r
}

// filter16 keeps the members of xs for which (x in ys) == keep.
func filter16(xs, ys []k16, keep bool) []k16 {
	var r []k16
	for _, x := range xs {
		if in16(ys, x) == keep {
			r = append(r, x)
		}
	}
	return r
}

// setLike is what the two set types have in common.
type setLike interface {
	Len() gost.USize
	IsEmpty() gost.Bool
	Contains(gost.I16) gost.Bool
}

func setIs(s setLike, xs []k16, q k16, what string) {
	nd.Assert(int(s.Len()) == card16(xs), what+": number of elements")
	ok := true
	for _, x := range xs {
		ok = ok && bool(s.Contains(x))
	}
	nd.Assert(ok, what+": holds every element")
	nd.Assert(bool(s.Contains(q)) == in16(xs, q), what+": holds nothing else")
}

func H_C20_Algebra() {
	nd.NoMerge()
	nd.Bound("every pair of sets of up to 2 (quick) or 3 (thorough) arbitrary 8-bit elements (16-bit keys)")
	k := nd.Tier(2, 3)
	a, xs := mkBSet("a", k)
	b, ys := mkBSet("b", k)
	q := k16(nd.I8("q"))
	switch nd.Choice("op", 4) {
	case 0:
		u := a.Union(b)
		setIs(&u, append(append([]k16{}, xs...), ys...), q, "Union")
		u.Insert(1000)
	case 1:
		i := a.Intersection(b)
		setIs(&i, filter16(xs, ys, true), q, "Intersection")
		i.Insert(1000)
	case 2:
		d := a.SymmetricDifference(b)
		setIs(&d, append(filter16(xs, ys, false), filter16(ys, xs, false)...), q, "SymmetricDifference")
		d.Insert(1000)
	case 3:
		ab, ba := sub16(xs, ys), sub16(ys, xs)
		nd.Assert(bool(a.IsSubset(b)) == ab, "IsSubset")
		nd.Assert(bool(a.IsSuperset(b)) == ba, "IsSuperset")
		nd.Assert(bool(a.IsDisjoint(b)) == (len(filter16(xs, ys, true)) == 0), "IsDisjoint")
		nd.Assert(bool(a.Eq(b)) == (ab && ba), "Eq")
	}
	setIs(&a, xs, q, "the left operand is unchanged")
	setIs(&b, ys, q, "the right operand is unchanged")
	nd.Assert(!bool(a.Contains(1000)) && !bool(b.Contains(1000)), "the result is independent of the operands")
}

// larger sets: fixed elements with an arbitrary one on each side
func H_C20_AlgebraLarge() {
	nd.NoMerge()
	nd.Bound("sets of up to 13 and 13 fixed elements (equal, overlapping, disjoint, nested or empty) and one arbitrary element on each side")
	a, b := gost.BTreeSetNew[gost.I16](), gost.BTreeSetNew[gost.I16]()
	var xs, ys []k16
	na := []int{0, 1, 13}[nd.Choice("na", 3)]
	nb := []int{0, 1, 13}[nd.Choice("nb", 3)]
	off := []int{0, 5, 100}[nd.Choice("off", 3)]
	for i := 0; i < na; i++ {
		a.Insert(k16(10 * i))
		xs = append(xs, k16(10*i))
	}
	for i := 0; i < nb; i++ {
		b.Insert(k16(10 * (i + off)))
		ys = append(ys, k16(10*(i+off)))
	}
	x := k16(nd.I8("x"))
	if nd.Choice("side", 2) == 0 {
		a.Insert(x)
		xs = append(xs, x)
	} else {
		b.Insert(x)
		ys = append(ys, x)
	}
	both := append(append([]k16{}, xs...), ys...)
	var u, i, d bset
	u, i, d = a.Union(b), a.Intersection(b), a.SymmetricDifference(b)
	setIs(&u, both, 1, "Union")
	common := filter16(xs, ys, true)
	setIs(&i, common, 1, "Intersection")
	setIs(&d, append(filter16(xs, ys, false), filter16(ys, xs, false)...), 1, "SymmetricDifference")
	ab, ba := sub16(xs, ys), sub16(ys, xs)
	nd.Assert(bool(a.IsSubset(b)) == ab, "IsSubset")
	nd.Assert(bool(a.IsSuperset(b)) == ba, "IsSuperset")
	nd.Assert(bool(a.IsDisjoint(b)) == (len(common) == 0), "IsDisjoint")
	nd.Assert(bool(a.Eq(b)) == (ab && ba), "Eq")
	setIs(&a, xs, 1, "the left operand is unchanged")
	setIs(&b, ys, 1, "the right operand is unchanged")
}

package h

import (
	"errors"

	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// mutVec changes v in one of several ways and returns what it then holds.
func mutVec(v *gost.Vec[gost.I32], s []gost.I32) []gost.I32 {
	x := el("mut")
	n := len(s)
	switch nd.Choice("mut", 5) {
	case 0:
		v.Push(x)
		return append(clone32(s), x)
	case 1:
		if n > 0 {
			v.SetUnchecked(gost.USize(n-1), x)
			return append(clone32(s[:n-1]), x)
		}
	case 2:
		v.Insert(0, x)
		return append([]gost.I32{x}, s...)
	case 3:
		v.Fill(x)
		t := clone32(s)
		for i := range t {
			t[i] = x
		}
		return t
	case 4:
		if n > 0 {
			v.Pop()
			v.Push(x)
			return append(clone32(s[:n-1]), x)
		}
	}
	return s
}

func H_C23_Vec() {
	nd.Bound("vectors of up to 3 arbitrary elements, one mutation of the clone or the original")
	v, s := mkVec("v", 3)
	c := v.Clone()
	nd.Assert(bool(c.Eq(v)) && bool(v.Eq(c)), "Clone: equal to the original")
	vecIs(&c, s, "Clone: contents")
	if nd.Choice("side", 2) == 0 {
		t := mutVec(&c, s)
		vecIs(&c, t, "the clone after its change")
		vecIs(&v, s, "the original after a change to the clone")
	} else {
		t := mutVec(&v, s)
		vecIs(&v, t, "the original after its change")
		vecIs(&c, s, "the clone after a change to the original")
	}
}

func H_C23_VecEq() {
	nd.Bound("every pair of vectors of up to 3 arbitrary elements")
	v, s := mkVec("v", 3)
	w, t := mkVec("w", 3)
	nd.Assert(bool(v.Eq(w)) == same32(s, t), "Eq: equal contents in the same order")
}

func H_C23_Deque() {
	nd.Bound("every ring of capacity 1..4, one mutation of the clone or the original")
	d, s := ring("r", 4, arb)
	c := d.Clone()
	nd.Assert(bool(c.Eq(d)) && bool(d.Eq(*c)), "Clone: equal to the original")
	dequeIs(c, s, "Clone: contents")
	mut := func(d *gost.VecDeque[gost.I32]) []gost.I32 { return dequeOp(d, s, 7) }
	if nd.Choice("side", 2) == 0 {
		t := mut(c)
		dequeIs(c, t, "the clone after its change")
		dequeIs(&d, s, "the original after a change to the clone")
	} else {
		t := mut(&d)
		dequeIs(&d, t, "the original after its change")
		dequeIs(c, s, "the clone after a change to the original")
	}
}

func H_C23_List() {
	nd.Bound("lists of up to 3 arbitrary elements, one mutation of the clone or the original")
	l, s := mkList("l", 3)
	c := l.Clone()
	nd.Assert(bool(c.Eq(l)) && bool(l.Eq(c)), "Clone: equal to the original")
	listIs(&c, s, "Clone: contents")
	mut := func(l *gost.LinkedList[gost.I32]) []gost.I32 {
		if len(s) > 0 && nd.Choice("ref", 2) == 1 {
			x := el("ref")
			*l.Back().Unwrap() = x
			return append(clone32(s[:len(s)-1]), x)
		}
		return listOp(l, s, 6)
	}
	if nd.Choice("side", 2) == 0 {
		t := mut(&c)
		listIs(&c, t, "the clone after its change")
		listIs(&l, s, "the original after a change to the clone")
	} else {
		t := mut(&l)
		listIs(&l, t, "the original after its change")
		listIs(&c, s, "the clone after a change to the original")
	}
}

func H_C23_ListEq() {
	nd.Bound("every pair of lists of up to 3 arbitrary elements")
	l, s := mkList("l", 3)
	k, t := mkList("k", 3)
	nd.Assert(bool(l.Eq(k)) == same32(s, t), "Eq: equal contents in the same order")
}

func H_C23_HashMap() {
	nd.NoMerge()
	nd.Bound("maps of up to 2 entries, one operation on the clone or the original with arbitrary key and value")
	m, o := mkHMap(2)
	c := m.Clone()
	nd.Assert(bool(c.Eq(m)) && bool(m.Eq(c)), "Clone: equal to the original")
	hmapIs(&c, o, "Clone: contents")
	o2 := &omap{append([]k16{}, o.keys...), append([]gost.I32{}, o.vals...)}
	if nd.Choice("side", 2) == 0 {
		hmapOp(&c, o2, 4)
		hmapIs(&c, o2, "the clone after its change")
		hmapIs(&m, o, "the original after a change to the clone")
	} else {
		hmapOp(&m, o2, 4)
		hmapIs(&m, o2, "the original after its change")
		hmapIs(&c, o, "the clone after a change to the original")
	}
	same := len(o.keys) == len(o2.keys)
	for i := range o2.keys {
		same = same && o.keys[i] == o2.keys[i] && o.vals[i] == o2.vals[i]
	}
	nd.Assert(bool(c.Eq(m)) == same && bool(m.Eq(c)) == same, "Eq: equal contents")
}

func H_C23_BTreeMapEq() {
	nd.NoMerge()
	nd.Bound("maps of up to 3 entries and of 12 entries, differing by one operation with arbitrary key and value")
	a, b := &tree{}, &tree{}
	n := []int{0, 1, 2, 3, 12}[nd.Choice("n", 5)]
	for i := 0; i < n; i++ {
		v := gost.I32(i)
		if i < 2 {
			v = el("v")
		}
		a.put(k16(10*i), v)
	}
	for i := n - 1; i >= 0; i-- {
		b.put(k16(10*i), a.o.vals[i])
	}
	nd.Assert(bool(a.m.Eq(&b.m)), "Eq: equal contents inserted in another order")
	b.step()
	same := len(a.o.keys) == len(b.o.keys)
	for i := range b.o.keys {
		same = same && a.o.keys[i] == b.o.keys[i] && a.o.vals[i] == b.o.vals[i]
	}
	nd.Assert(bool(a.m.Eq(&b.m)) == same && bool(b.m.Eq(&a.m)) == same, "Eq: equal contents")
}

func H_C23_HashSet() {
	nd.NoMerge()
	nd.Bound("sets of up to 3 arbitrary elements, one insertion or removal on either side")
	s, xs := mkHSet("x", 3)
	c := s.Clone()
	nd.Assert(bool(c.Eq(s)) && bool(s.Eq(c)), "Clone: equal to the original")
	k := k16(nd.I8("k"))
	setIs(&c, xs, k, "Clone: contents")
	m, u := &c, &s
	if nd.Choice("side", 2) == 0 {
		m, u = &s, &c
	}
	var ch bool
	if nd.Choice("op", 2) == 0 {
		ch = bool(m.Insert(k))
	} else {
		ch = bool(m.Remove(k))
	}
	setIs(u, xs, k, "the other side after a change")
	nd.Assert(bool(c.Eq(s)) == !ch && bool(s.Eq(c)) == !ch, "Eq: equal contents")
	m.Clear()
	setIs(u, xs, k, "the other side after Clear")
}

func H_C23_BTreeSet() {
	nd.NoMerge()
	nd.Bound("sets of up to 3 arbitrary elements, one insertion or removal on either side; and sets of 12 and 30 elements")
	var s bset
	var xs []k16
	if nd.Choice("large", 2) == 0 {
		s, xs = mkBSet("x", nd.Tier(2, 3))
	} else {
		s = gost.BTreeSetNew[gost.I16]()
		n := []int{12, 30}[nd.Choice("n", 2)]
		for i := 0; i < n; i++ {
			xs = append(xs, k16(4*i))
			s.Insert(k16(4 * i))
		}
	}
	c := s.Clone()
	nd.Assert(bool(c.Eq(s)) && bool(s.Eq(c)), "Clone: equal to the original")
	k := k16(nd.I8("k"))
	m, u := &c, &s
	if nd.Choice("side", 2) == 0 {
		m, u = &s, &c
	}
	var ch bool
	if nd.Choice("op", 2) == 0 {
		ch = bool(m.Insert(k))
	} else {
		ch = bool(m.Remove(k))
	}
	setIs(u, xs, k, "the other side after a change")
	nd.Assert(bool(c.Eq(s)) == !ch && bool(s.Eq(c)) == !ch, "Eq: equal contents")
	m.Clear()
	setIs(u, xs, k, "the other side after Clear")
}

func optOf(name string) (gost.Option[gost.I32], bool, gost.I32) {
	x := el(name)
	if nd.Choice(name+".some", 2) == 1 {
		return gost.Some(x), true, x
	}
	return gost.None[gost.I32](), false, x
}

func H_C23_Option() {
	a, sa, x := optOf("a")
	b, sb, y := optOf("b")
	c := a.Clone()
	optIs(c, sa, x, "Clone")
	nd.Assert(bool(c.Eq(a)) && bool(a.Eq(c)), "Clone: equal to the original")
	nd.Assert(bool(a.Eq(b)) == (sa == sb && (!sa || x == y)), "Eq: the same case and contents")
	z := el("z")
	switch nd.Choice("mut", 4) {
	case 0:
		c.Insert(z)
		optIs(a, sa, x, "the original after a change to the clone")
	case 1:
		a.Insert(z)
		optIs(c, sa, x, "the clone after a change to the original")
	case 2:
		if sa {
			*c.GetOrInsert(z) = y
		}
		optIs(a, sa, x, "the original after a write through the clone's reference")
	case 3:
		a.Take()
		optIs(c, sa, x, "the clone after the original is taken")
	}
}

var errA, errB = errors.New("a"), errors.New("b")

func resOf(name string) (gost.Result[gost.I32], bool, gost.I32, error) {
	x := el(name)
	switch nd.Choice(name+".case", 3) {
	case 0:
		return gost.Ok(x), true, x, nil
	case 1:
		return gost.Err[gost.I32](errA), false, x, errA
	}
	return gost.Err[gost.I32](errB), false, x, errB
}

func resIs(r gost.Result[gost.I32], ok bool, x gost.I32, err error, what string) {
	nd.Assert(bool(r.IsOk()) == ok, what+": Ok or Err")
	nd.Assert(bool(r.IsErr()) == !ok, what+": Ok or Err")
	if ok {
		nd.Assert(r.Unwrap() == x, what+": value")
	} else {
		nd.Assert(r.UnwrapErr() == err, what+": error")
	}
}

func H_C23_Result() {
	a, oka, x, ea := resOf("a")
	b, okb, y, eb := resOf("b")
	c := a.Clone()
	resIs(c, oka, x, ea, "Clone")
	nd.Assert(bool(c.Eq(a)) && bool(a.Eq(c)), "Clone: equal to the original")
	nd.Assert(bool(a.Eq(b)) == (oka == okb && (oka && x == y || !oka && ea == eb)), "Eq: the same case and contents")
}

// elements that are collections themselves: a clone shares nothing with the
// original
func H_C23_Nested() {
	nd.Bound("collections of one or two vectors or deques of one element, an element of an inner one changed")
	x, y, z := el("x"), el("y"), el("z")
	in1, in2 := gost.VecNew[gost.I32](), gost.VecNew[gost.I32]()
	in1.Push(x)
	in2.Push(y)
	switch nd.Choice("outer", 6) {
	case 0:
		v := gost.VecNew[gost.Vec[gost.I32]]()
		v.Push(in1)
		v.Push(in2)
		c := v.Clone()
		nd.Assert(bool(c.Eq(v)), "Clone: equal to the original")
		g := v.GetUnchecked(1)
		g.SetUnchecked(0, z)
		h := c.GetUnchecked(1)
		nd.Assert(h.GetUnchecked(0) == y, "the clone's inner vector after a change to the original's")
		nd.Assert(bool(c.Eq(v)) == (y == z), "Eq: nested contents")
	case 1:
		v := gost.LinkedListNew[gost.Vec[gost.I32]]()
		v.PushBack(in1)
		c := v.Clone()
		nd.Assert(bool(c.Eq(v)), "Clone: equal to the original")
		v.Front().Unwrap().SetUnchecked(0, z)
		nd.Assert(c.Front().Unwrap().GetUnchecked(0) == x, "the clone's inner vector after a change to the original's")
		nd.Assert(bool(c.Eq(v)) == (x == z), "Eq: nested contents")
	case 2:
		v := gost.VecDequeNew[gost.Vec[gost.I32]]()
		v.PushBack(in1)
		c := v.Clone()
		nd.Assert(bool(c.Eq(v)), "Clone: equal to the original")
		g := v.GetUnchecked(0)
		g.SetUnchecked(0, z)
		h := c.GetUnchecked(0)
		nd.Assert(h.GetUnchecked(0) == x, "the clone's inner vector after a change to the original's")
		nd.Assert(bool(c.Eq(v)) == (x == z), "Eq: nested contents")
	case 3:
		d := gost.VecDequeNew[gost.I32]()
		d.PushBack(x)
		v := gost.VecDequeNew[gost.VecDeque[gost.I32]]()
		v.PushBack(d)
		c := v.Clone()
		nd.Assert(bool(c.Eq(v)), "Clone: equal to the original")
		g := v.GetUnchecked(0)
		g.SetUnchecked(0, z)
		h := c.GetUnchecked(0)
		nd.Assert(h.GetUnchecked(0) == x, "the clone's inner deque after a change to the original's")
		nd.Assert(bool(c.Eq(v)) == (x == z), "Eq: nested contents")
	case 4:
		m := gost.HashMapNew[gost.I32, gost.Vec[gost.I32]]()
		m.Insert(1, in1)
		c := m.Clone()
		nd.Assert(bool(c.Eq(m)), "Clone: equal to the original")
		g := m.Get(1).Unwrap()
		g.SetUnchecked(0, z)
		h := c.Get(1).Unwrap()
		nd.Assert(h.GetUnchecked(0) == x, "the clone's inner vector after a change to the original's")
		nd.Assert(bool(c.Eq(m)) == (x == z), "Eq: nested contents")
	case 5:
		o := gost.Some(in1)
		c := o.Clone()
		r := gost.Ok(in1)
		d := r.Clone()
		nd.Assert(bool(c.Eq(o)) && bool(d.Eq(r)), "Clone: equal to the original")
		in1.SetUnchecked(0, z)
		g, h := c.Unwrap(), d.Unwrap()
		nd.Assert(g.GetUnchecked(0) == x, "the cloned Option's vector after a change to the original's")
		nd.Assert(h.GetUnchecked(0) == x, "the cloned Result's vector after a change to the original's")
	}
}

type value[T any] interface {
	comparable
	Clone() T
	AsRef() *T
}

// copied asserts that Clone and AsRef give the value, the latter in a place of
// its own.
func copied[T value[T]](a, b T) {
	nd.Assert(a.Clone() == a, "Clone: must be the value")
	p, q := a.AsRef(), a.AsRef()
	nd.Assert(*p == a && *q == a, "AsRef: must point at the value")
	*p = b
	nd.Assert(*q == a, "AsRef: writing through one reference must not change another")
	c := a
	*q = b
	nd.Assert(a == c, "AsRef: writing through the reference must not change the receiver")
}

func H_C23_Scalars() {
	nd.Bound("every value of the scalar types; strings of up to 2 bytes; floats that are numbers")
	switch nd.Choice("type", 18) {
	case 0:
		copied(gost.ISize(nd.I64("a")), gost.ISize(nd.I64("b")))
	case 1:
		copied(gost.I8(nd.I8("a")), gost.I8(nd.I8("b")))
	case 2:
		copied(gost.I16(nd.I16("a")), gost.I16(nd.I16("b")))
	case 3:
		copied(gost.I32(nd.I32("a")), gost.I32(nd.I32("b")))
	case 4:
		copied(gost.I64(nd.I64("a")), gost.I64(nd.I64("b")))
	case 5:
		copied(gost.USize(nd.U64("a")), gost.USize(nd.U64("b")))
	case 6:
		copied(gost.U8(nd.U8("a")), gost.U8(nd.U8("b")))
	case 7:
		copied(gost.U16(nd.U16("a")), gost.U16(nd.U16("b")))
	case 8:
		copied(gost.U32(nd.U32("a")), gost.U32(nd.U32("b")))
	case 9:
		copied(gost.U64(nd.U64("a")), gost.U64(nd.U64("b")))
	case 10:
		copied(gost.Byte(nd.U8("a")), gost.Byte(nd.U8("b")))
	case 11:
		copied(gost.Char(nd.I32("a")), gost.Char(nd.I32("b")))
	case 12:
		copied(gost.Bool(nd.Bool("a")), gost.Bool(nd.Bool("b")))
	case 13:
		copied(gost.String(nd.Str("a", nd.Choice("n", 3))), gost.String(nd.Str("b", 1)))
	case 14:
		x, y := nd.F32("a"), nd.F32("b")
		nd.Assume(x == x && y == y)
		copied(gost.F32(x), gost.F32(y))
		nd.Assert(nd.SameF32(float32(gost.F32(x).Clone()), x), "F32.Clone: must keep the sign of a zero")
	case 15:
		x, y := nd.F64("a"), nd.F64("b")
		nd.Assume(x == x && y == y)
		copied(gost.F64(x), gost.F64(y))
		nd.Assert(nd.SameF64(float64(gost.F64(x).Clone()), x), "F64.Clone: must keep the sign of a zero")
	case 16:
		x, y, z := nd.F32("a"), nd.F32("b"), nd.F32("c")
		nd.Assume(x == x && y == y && z == z)
		copied(gost.Complex64(complex(x, y)), gost.Complex64(complex(z, x)))
	case 17:
		x, y, z := nd.F64("a"), nd.F64("b"), nd.F64("c")
		nd.Assume(x == x && y == y && z == z)
		copied(gost.Complex128(complex(x, y)), gost.Complex128(complex(z, x)))
	}
}

func H_C23_Pair() {
	nd.Bound("pairs of an integer and a vector of up to 3 elements, one mutation of the clone or the original")
	v, s := mkVec("v", 3)
	k := gost.I32(nd.I32("k"))
	p := gost.Pair[gost.I32, gost.Vec[gost.I32]]{Key: k, Value: v}
	c := p.Clone()
	nd.Assert(c.Key == k, "Pair.Clone: the key")
	vecIs(&c.Value, s, "Pair.Clone: the value")
	nd.Assert(bool(c.Eq(p)) && bool(p.Eq(c)), "Pair.Clone: equal to the original")
	r := p.AsRef()
	nd.Assert(r.Key == k, "Pair.AsRef: the key")
	vecIs(&r.Value, s, "Pair.AsRef: the value")
	if nd.Choice("side", 2) == 0 {
		t := mutVec(&c.Value, s)
		vecIs(&c.Value, t, "the clone's value after its change")
		vecIs(&p.Value, s, "the original's value after a change to the clone")
	} else {
		t := mutVec(&p.Value, s)
		vecIs(&p.Value, t, "the original's value after its change")
		vecIs(&c.Value, s, "the clone's value after a change to the original")
	}
}

func H_C23_AsRef() {
	nd.Bound("collections of up to 3 arbitrary elements, options and results")
	n := nd.Choice("len", 4)
	s := els("x", n)
	switch nd.Choice("kind", 9) {
	case 0:
		v := gost.VecNew[gost.I32]()
		for _, x := range s {
			v.Push(x)
		}
		vecIs(v.AsRef(), s, "Vec.AsRef")
	case 1:
		d := gost.VecDequeWithCapacity[gost.I32](3)
		for i := nd.Choice("head", 3); i > 0; i-- {
			d.PushBack(0)
			d.PopFront()
		}
		for _, x := range s {
			d.PushBack(x)
		}
		dequeIs(d.AsRef(), s, "VecDeque.AsRef")
	case 2:
		l := gost.LinkedListNew[gost.I32]()
		for _, x := range s {
			l.PushBack(x)
		}
		listIs(l.AsRef(), s, "LinkedList.AsRef")
	case 3:
		m := gost.HashMapNew[gost.I32, gost.I32]()
		for i, x := range s {
			m.Insert(gost.I32(i), x)
		}
		r := m.AsRef()
		nd.Assert(r.Len() == gost.USize(n), "HashMap.AsRef: length")
		for i, x := range s {
			optIs(r.Get(gost.I32(i)), true, x, "HashMap.AsRef: entries")
		}
	case 4:
		m := gost.BTreeMapNew[gost.I32, gost.I32]()
		for i, x := range s {
			m.Insert(gost.I32(i), x)
		}
		r := m.AsRef()
		nd.Assert(r.Len() == gost.USize(n), "BTreeMap.AsRef: length")
		for i, x := range s {
			optIs(r.Get(gost.I32(i)), true, x, "BTreeMap.AsRef: entries")
		}
	case 5:
		m := gost.HashSetNew[gost.I32]()
		q := el("q")
		for i := range s {
			m.Insert(gost.I32(i))
		}
		r := m.AsRef()
		nd.Assert(r.Len() == gost.USize(n) && bool(r.Contains(q)) == (q >= 0 && int(q) < n), "HashSet.AsRef: elements")
	case 6:
		m := gost.BTreeSetNew[gost.I32]()
		q := el("q")
		for i := range s {
			m.Insert(gost.I32(i))
		}
		r := m.AsRef()
		nd.Assert(r.Len() == gost.USize(n) && bool(r.Contains(q)) == (q >= 0 && int(q) < n), "BTreeSet.AsRef: elements")
	case 7:
		o, some, x := optOf("o")
		r := o.AsRef()
		optIs(*r, some, x, "Option.AsRef")
	case 8:
		o, ok, x, err := resOf("r")
		resIs(*o.AsRef(), ok, x, err, "Result.AsRef")
	}
}

package h

import (
	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// H_C23_Floats: a collection compared with itself and with a copy, where an
// element may be unequal to itself.
func H_C23_Floats() {
	nd.NoMerge()
	nd.Bound("each kind of collection with an arbitrary 64-bit float among three, compared with itself, a clone and one built apart with another arbitrary float in that place")
	x, y := gost.F64(nd.F64("x")), gost.F64(nd.F64("y"))
	at := nd.Choice("at", 3)
	a, b := [3]gost.F64{1, 2, 3}, [3]gost.F64{1, 2, 3}
	a[at], b[at] = x, y
	how := nd.Choice("with", 3) // itself, its clone, another
	same := x == x
	if how == 2 {
		same = x == y
	}
	var got bool
	switch nd.Choice("kind", 8) {
	case 0:
		v, w := gost.VecNew[gost.F64](), gost.VecNew[gost.F64]()
		for i := range a {
			v.Push(a[i])
			w.Push(b[i])
		}
		switch how {
		case 0:
			w = v
		case 1:
			w = v.Clone()
		}
		got = bool(v.Eq(w))
	case 1:
		v, w := gost.VecDequeNew[gost.F64](), gost.VecDequeNew[gost.F64]()
		for i := range a {
			v.PushBack(a[i])
			w.PushBack(b[i])
		}
		switch how {
		case 0:
			w = v
		case 1:
			w = *v.Clone()
		}
		got = bool(v.Eq(w))
	case 2:
		v, w := gost.LinkedListNew[gost.F64](), gost.LinkedListNew[gost.F64]()
		for i := range a {
			v.PushBack(a[i])
			w.PushBack(b[i])
		}
		switch how {
		case 0:
			w = v
		case 1:
			w = v.Clone()
		}
		got = bool(v.Eq(w))
	case 3:
		v, w := gost.HashMapNew[gost.I32, gost.F64](), gost.HashMapNew[gost.I32, gost.F64]()
		for i := range a {
			v.Insert(gost.I32(i), a[i])
			w.Insert(gost.I32(i), b[i])
		}
		switch how {
		case 0:
			w = v
		case 1:
			w = v.Clone()
		}
		got = bool(v.Eq(w))
	case 4:
		v, w := gost.BTreeMapNew[gost.I32, gost.F64](), gost.BTreeMapNew[gost.I32, gost.F64]()
		for i := range a {
			v.Insert(gost.I32(i), a[i])
			w.Insert(gost.I32(i), b[i])
		}
		p := &w
		if how < 2 {
			p = &v
		}
		got = bool(v.Eq(p))
	case 5:
		p, q := gost.Some(a[at]), gost.Some(b[at])
		switch how {
		case 0:
			q = p
		case 1:
			q = p.Clone()
		}
		got = bool(p.Eq(q))
	case 6:
		p, q := gost.Ok(a[at]), gost.Ok(b[at])
		switch how {
		case 0:
			q = p
		case 1:
			q = p.Clone()
		}
		got = bool(p.Eq(q))
	case 7:
		p, q := gost.Pair[gost.F64, gost.F64]{Key: a[at], Value: 1}, gost.Pair[gost.F64, gost.F64]{Key: b[at], Value: 1}
		switch how {
		case 0:
			q = p
		case 1:
			q = p.Clone()
		}
		got = bool(p.Eq(q))
	}
	nd.Assert(got == same, "Eq asks the elements, whoever the operands are")
}

// H_C23_Thousands: clones of large collections.
func H_C23_Thousands() {
	nd.NoMerge()
	nd.Steps(60000000)
	nd.Bound("sequences, sets and maps of 1030 and 2100 (thorough: and 5000) elements, one of them arbitrary (in a BTreeSet: one of four), cloned; the clone equal, then changed or emptied, or the original")
	n := thousands()
	x, side := gost.I32(nd.I16("x")), nd.Choice("side", 2)
	put := func(i int) gost.I32 {
		if i == n/2 {
			return x
		}
		return gost.I32(4*i + 1)
	}
	kind := nd.Choice("kind", 7)
	if kind == 6 {
		x = []gost.I32{-9, 256, gost.I32(4 * n), 30000}[nd.Choice("x", 4)]
	}
	nd.Assume(x%256 == 0 || kind == 6)
	switch kind {
	case 0:
		v, _ := vec5k(n, x)
		c := v.Clone()
		nd.Assert(bool(v.Eq(c)), "a clone is equal")
		p, q := &v, &c
		if side == 1 {
			p, q = q, p
		}
		p.SetUnchecked(3, -1)
		p.Reverse()
		p.Clear()
		_, w := vec5k(n, x)
		vec5kIs(*q, w, "a Vec after changes on the other side of Clone")
	case 1:
		d := gost.VecDequeNew[gost.I32]()
		for i := 0; i < n; i++ {
			d.PushBack(put(i))
		}
		c := d.Clone()
		nd.Assert(bool(d.Eq(*c)), "a clone is equal")
		p, q := &d, c
		if side == 1 {
			p, q = q, p
		}
		p.SetUnchecked(3, -1)
		p.Fill(7)
		p.Clear()
		nd.Assert(int(q.Len()) == n, "a VecDeque after changes on the other side of Clone")
		for i := 0; i < n; i++ {
			nd.Assert(q.GetUnchecked(gost.USize(i)) == put(i), "a VecDeque after changes on the other side of Clone")
		}
	case 2:
		l, w := list5k(n, x)
		c := l.Clone()
		nd.Assert(bool(l.Eq(c)), "a clone is equal")
		p, q := &l, &c
		if side == 1 {
			p, q = q, p
		}
		*p.Front().Unwrap() = -1
		p.PopBack()
		p.Clear()
		v := q.IntoIter().CollectToVec()
		vec5kIs(v, w, "a LinkedList after changes on the other side of Clone")
	case 3:
		m := gost.HashMapNew[gost.I32, gost.I32]()
		for i := 0; i < n; i++ {
			m.Insert(gost.I32(i), put(i))
		}
		c := m.Clone()
		nd.Assert(bool(m.Eq(c)), "a clone is equal")
		p, q := &m, &c
		if side == 1 {
			p, q = q, p
		}
		p.Insert(3, -1)
		p.Insert(gost.I32(n), 1)
		p.Remove(5)
		nd.Assert(int(q.Len()) == n && bool(q.Get(gost.I32(n)).IsNone()), "a HashMap after changes on the other side of Clone")
		p.Clear()
		for i := 0; i < n; i++ {
			r := q.Get(gost.I32(i))
			nd.Assert(bool(r.IsSome()) && r.Unwrap() == put(i), "a HashMap after changes on the other side of Clone")
		}
	case 4:
		m := gost.BTreeMapNew[gost.I32, gost.I32]()
		for i := 0; i < n; i++ {
			m.Insert(gost.I32(i), put(i))
		}
		o := gost.BTreeMapNew[gost.I32, gost.I32]()
		for i := n - 1; i >= 0; i-- {
			o.Insert(gost.I32(i), put(i))
		}
		nd.Assert(bool(m.Eq(&o)), "maps with the same entries are equal")
		at := []int{0, n / 3, n - 1}[nd.Choice("at", 3)]
		o.Insert(gost.I32(at), put(at)+1)
		nd.Assert(!bool(m.Eq(&o)), "maps that differ in a value are not")
		o.Insert(gost.I32(at), put(at))
		o.Remove(gost.I32(at))
		o.Insert(-3, put(at))
		nd.Assert(!bool(m.Eq(&o)), "maps that differ in a key are not")
	case 5:
		s := gost.HashSetNew[gost.I32]()
		for i := 0; i < n; i++ {
			s.Insert(put(i))
		}
		c := s.Clone()
		nd.Assert(bool(s.Eq(c)), "a clone is equal")
		p, q := &s, &c
		if side == 1 {
			p, q = q, p
		}
		p.Insert(-3)
		p.Remove(x)
		nd.Assert(int(q.Len()) == n && !bool(q.Contains(-3)), "a HashSet after changes on the other side of Clone")
		p.Clear()
		for i := 0; i < n; i++ {
			nd.Assert(bool(q.Contains(put(i))), "a HashSet after changes on the other side of Clone")
		}
	case 6:
		s := gost.BTreeSetNew[gost.I32]()
		for i := 0; i < n; i++ {
			s.Insert(put(i))
		}
		c := s.Clone()
		nd.Assert(bool(s.Eq(c)), "a clone is equal")
		p, q := &s, &c
		if side == 1 {
			p, q = q, p
		}
		p.Insert(-3)
		p.Remove(x)
		nd.Assert(int(q.Len()) == n && !bool(q.Contains(-3)), "a BTreeSet after changes on the other side of Clone")
		for i := 0; i < n; i++ {
			p.Remove(put(i))
		}
		for i := 0; i < n; i++ {
			nd.Assert(bool(q.Contains(put(i))), "a BTreeSet after changes on the other side of Clone")
		}
	}
}

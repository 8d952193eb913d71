package h

import (
	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// Elements whose own order and equality are not those of the type underneath:
// a number ordered the other way round, numbers equal by their last digit, and
// keys which are equal without being identical.

// turned is a number ordered the other way round.
type turned int32

func (a turned) Cmp(b turned) gost.Ordering { return gost.I32(b).Cmp(gost.I32(a)) }
func (a turned) Eq(b turned) gost.Bool      { return a == b }

// digit is a number equal to those with the same last four bits.
type digit uint8

func (a digit) Eq(b digit) gost.Bool { return a&15 == b&15 }
func (a digit) Clone() digit         { return a | 128 }

const turnedBound = "four numbers of a type with its own, descending, order, one of them arbitrary"

// turnedFour is 30, 20, 10 and an arbitrary number in some arrangement, and the
// arrangement from the largest number down.
func turnedFour() (given, sorted []turned, x turned) {
	x = turned(nd.I8("x"))
	switch nd.Choice("place", 4) {
	case 0:
		given = []turned{10, 30, 20, x}
	case 1:
		given = []turned{x, 10, 20, 30}
	case 2:
		given = []turned{20, x, 30, 10}
	case 3:
		given = []turned{30, 20, x, 10}
	}
	switch {
	case x >= 30:
		sorted = []turned{x, 30, 20, 10}
	case x >= 20:
		sorted = []turned{30, x, 20, 10}
	case x >= 10:
		sorted = []turned{30, 20, x, 10}
	default:
		sorted = []turned{30, 20, 10, x}
	}
	return
}

func turnedIs(n gost.USize, at func(gost.USize) turned, want []turned, what string) {
	nd.Assert(int(n) == len(want), what+": the length")
	for i, w := range want {
		nd.Assert(at(gost.USize(i)) == w, what+": by the order of the elements")
	}
}

func H_C13_Turned() {
	nd.Bound("vectors of " + turnedBound)
	g, s, x := turnedFour()
	v := gost.VecNew[turned]()
	for _, e := range g {
		v.Push(e)
	}
	if nd.Choice("sort", 2) == 0 {
		v.Sort()
	} else {
		v.SortUnstable()
	}
	turnedIs(v.Len(), v.GetUnchecked, s, "Vec.Sort")
	r := v.BinarySearch(x)
	nd.Assert(bool(r.IsSome()), "Vec.BinarySearch of an element")
	nd.Assert(v.GetUnchecked(r.Unwrap()) == x, "Vec.BinarySearch of an element")
}

func H_C15_Turned() {
	nd.Bound("deques of " + turnedBound + ", beginning at two places of the ring")
	g, s, x := turnedFour()
	v := gost.VecDequeNew[turned]()
	if nd.Choice("front", 2) == 0 {
		for _, e := range g {
			v.PushBack(e)
		}
	} else {
		for i := len(g) - 1; i >= 0; i-- {
			v.PushFront(g[i])
		}
	}
	if nd.Choice("sort", 2) == 0 {
		v.Sort()
	} else {
		v.SortUnstable()
	}
	turnedIs(v.Len(), v.GetUnchecked, s, "VecDeque.Sort")
	r := v.BinarySearch(x)
	nd.Assert(bool(r.IsSome()), "VecDeque.BinarySearch of an element")
	nd.Assert(v.GetUnchecked(r.Unwrap()) == x, "VecDeque.BinarySearch of an element")
}

func H_C17_Turned() {
	nd.Bound("heaps of " + turnedBound)
	g, s, _ := turnedFour()
	h := gost.BinaryHeapNew[turned]()
	for _, e := range g {
		h.Push(e)
	}
	for i := len(s) - 1; i >= 0; i-- {
		r := h.Pop()
		nd.Assert(bool(r.IsSome()) && r.Unwrap() == s[i], "BinaryHeap.Pop: the greatest by the order of the elements")
	}
	nd.Assert(bool(h.IsEmpty()), "BinaryHeap: empty at the end")
}

func H_C19_Turned() {
	nd.Bound("trees of " + turnedBound)
	g, s, x := turnedFour()
	nd.Assume(x != 10 && x != 20 && x != 30)
	if nd.Choice("set", 2) == 0 {
		t := gost.BTreeSetNew[turned]()
		for _, e := range g {
			t.Insert(e)
		}
		v := t.IntoIter().CollectToVec()
		turnedIs(v.Len(), v.GetUnchecked, s, "BTreeSet")
		return
	}
	m := gost.BTreeMapNew[turned, gost.I32]()
	for _, e := range g {
		m.Insert(e, gost.I32(e))
	}
	v := m.IntoIter().CollectToVec()
	turnedIs(v.Len(), func(i gost.USize) turned { return v.GetUnchecked(i).Key }, s, "BTreeMap")
}

// ---- equality of the elements' own

func digits(name string) []digit {
	r := []digit{0x13, 0x05, 0x13}
	r[nd.Choice(name, 3)] = digit(nd.U8(name))
	return r
}

func digitsEq(a, b []digit) bool {
	for i := range a {
		if a[i]&15 != b[i]&15 {
			return false
		}
	}
	return true
}

func H_C23_Coarse() {
	nd.Bound("collections (and pairs, options, results) of up to three numbers equal by their last four bits, one of them arbitrary on either side; their clones show the elements' own cloning")
	a, b := digits("a"), digits("b")
	eq := digitsEq(a, b)
	const what = ": equal by the equality of the elements"
	const cl = ": clones of the elements"
	switch nd.Choice("kind", 7) {
	case 4:
		x, y := gost.Pair[digit, digit]{Key: a[0], Value: a[1]}, gost.Pair[digit, digit]{Key: b[0], Value: b[1]}
		nd.Assert(bool(x.Eq(y)) == digitsEq(a[:2], b[:2]), "Pair"+what)
		c := x.Clone()
		nd.Assert(c.Key == a[0]|128 && c.Value == a[1]|128, "Pair"+cl)
	case 5:
		x, y := gost.Some(a[0]), gost.Some(b[0])
		nd.Assert(bool(x.Eq(y)) == digitsEq(a[:1], b[:1]), "Option"+what)
		nd.Assert(x.Clone().Unwrap() == a[0]|128, "Option"+cl)
	case 6:
		x, y := gost.Ok(a[0]), gost.Ok(b[0])
		nd.Assert(bool(x.Eq(y)) == digitsEq(a[:1], b[:1]), "Result"+what)
		nd.Assert(x.Clone().Unwrap() == a[0]|128, "Result"+cl)
	case 0:
		x, y := gost.VecNew[digit](), gost.VecNew[digit]()
		for i := range a {
			x.Push(a[i])
			y.Push(b[i])
		}
		nd.Assert(bool(x.Eq(y)) == eq, "Vec"+what)
		c := x.Clone()
		for i := range a {
			nd.Assert(c.GetUnchecked(gost.USize(i)) == a[i]|128, "Vec"+cl)
		}
	case 1:
		x, y := gost.VecDequeNew[digit](), gost.VecDequeNew[digit]()
		for i := range a {
			x.PushBack(a[i])
			y.PushBack(b[i])
		}
		nd.Assert(bool(x.Eq(y)) == eq, "VecDeque"+what)
		c := x.Clone()
		for i := range a {
			nd.Assert(c.GetUnchecked(gost.USize(i)) == a[i]|128, "VecDeque"+cl)
		}
	case 2:
		x, y := gost.LinkedListNew[digit](), gost.LinkedListNew[digit]()
		for i := range a {
			x.PushBack(a[i])
			y.PushBack(b[i])
		}
		nd.Assert(bool(x.Eq(y)) == eq, "LinkedList"+what)
		c := x.Clone()
		for i := range a {
			nd.Assert(c.PopFront().Unwrap() == a[i]|128, "LinkedList"+cl)
		}
	case 3:
		x, y := gost.BTreeMapNew[gost.I32, digit](), gost.BTreeMapNew[gost.I32, digit]()
		for i := range a {
			x.Insert(gost.I32(i), a[i])
			y.Insert(gost.I32(i), b[i])
		}
		nd.Assert(bool(x.Eq(&y)) == eq, "BTreeMap"+what)
	}
}

func H_C15_Coarse() {
	nd.Bound("deques of three numbers equal by their last four bits, one of them arbitrary: an arbitrary number sought, equal neighbours removed")
	a := digits("a")
	d := gost.VecDequeNew[digit]()
	for _, e := range a {
		d.PushBack(e)
	}
	if nd.Choice("do", 2) == 0 {
		q := digit(nd.U8("q"))
		want := false
		for _, e := range a {
			if e&15 == q&15 {
				want = true
			}
		}
		nd.Assert(bool(d.Contains(q)) == want, "VecDeque.Contains: by the equality of the elements")
		return
	}
	d.Dedup(func(e digit) any { return e })
	want := a[:1:1]
	for _, e := range a[1:] {
		if e&15 != want[len(want)-1]&15 {
			want = append(want, e)
		}
	}
	nd.Assert(int(d.Len()) == len(want), "VecDeque.Dedup: by the equality of the elements")
	for i, e := range want {
		nd.Assert(d.GetUnchecked(gost.USize(i)) == e, "VecDeque.Dedup: the first of equal neighbours stays")
	}
}

// ---- keys equal without being identical

func keptBound(what string) string {
	return what + " of 3, 11, 12 or 40 keys ordered by one field only; one inserted again with another second field, at an arbitrary key"
}

func keptSize() int { return []int{3, 11, 12, 40}[nd.Choice("n", 4)] }

func H_C18_KeyKept() {
	nd.Bound(keptBound("B-tree maps"))
	n := keptSize()
	m := gost.BTreeMapNew[keyed, gost.I32]()
	for i := 0; i < n; i++ {
		m.Insert(keyed{gost.I16(i), 1}, gost.I32(i))
	}
	q := gost.I16(nd.I16("q"))
	has := q >= 0 && int(q) < n
	old := m.Insert(keyed{q, 2}, 99)
	nd.Assert(bool(old.IsSome()) == has, "BTreeMap.Insert of an equal key")
	v := m.IntoIter().CollectToVec()
	for i := gost.USize(0); i < v.Len(); i++ {
		e := v.GetUnchecked(i)
		isNew := !has && e.Key.k == q
		nd.Assert((e.Key.n == 2) == isNew, "BTreeMap.Insert: the key already there is not updated")
		nd.Assert((e.Value == 99) == (e.Key.k == q), "BTreeMap.Insert: the value is")
	}
	ks := m.Keys().CollectToVec()
	for i := gost.USize(0); i < ks.Len(); i++ {
		nd.Assert(ks.GetUnchecked(i) == v.GetUnchecked(i).Key, "BTreeMap.Keys")
	}
	m.Remove(keyed{q, 3})
	m.Insert(keyed{q, 4}, 98)
	v = m.IntoIter().CollectToVec()
	for i := gost.USize(0); i < v.Len(); i++ {
		e := v.GetUnchecked(i)
		nd.Assert((e.Key.n == 4) == (e.Key.k == q), "BTreeMap.Insert: a removed key comes back as given")
	}
}

func H_C20_EntryKept() {
	nd.Bound(keptBound("B-tree sets"))
	n := keptSize()
	s := gost.BTreeSetNew[keyed]()
	for i := 0; i < n; i++ {
		s.Insert(keyed{gost.I16(i), 1})
	}
	q := gost.I16(nd.I16("q"))
	has := q >= 0 && int(q) < n
	nd.Assert(bool(s.Insert(keyed{q, 2})) == !has, "BTreeSet.Insert of an equal value")
	v := s.IntoIter().CollectToVec()
	for i := gost.USize(0); i < v.Len(); i++ {
		e := v.GetUnchecked(i)
		nd.Assert((e.n == 2) == (!has && e.k == q), "BTreeSet.Insert: the entry already there is not updated")
	}
	nd.Assert(bool(s.Remove(keyed{q, 3})), "BTreeSet.Remove of an equal value")
	s.Insert(keyed{q, 4})
	v = s.IntoIter().CollectToVec()
	for i := gost.USize(0); i < v.Len(); i++ {
		e := v.GetUnchecked(i)
		nd.Assert((e.n == 4) == (e.k == q), "BTreeSet.Insert: a removed value comes back as given")
	}
}

// ---- the values shown by a failed assertion

func H_C27_Braces() {
	nd.Bound("failed assertions about strings of two arbitrary bytes or with placeholders in them, without and with a message")
	a := gost.String([]string{"{}", "{{", "}}", nd.Str("a", 2)}[nd.Choice("text", 4)])
	x := gost.String(nd.Str("x", 1))
	sign, b := " != ", a+"{}"
	assert := func(args ...any) { gost.AssertEq(a, b, args...) }
	if nd.Choice("ne", 2) == 0 {
		sign, b = " == ", a
		assert = func(args ...any) { gost.AssertNe(a, b, args...) }
	}
	want := "assertion failed: " + string(a) + sign + string(b)
	var text string
	var p bool
	switch nd.Choice("message", 3) {
	case 0:
		text, p = caught(func() { assert() })
	case 1:
		text, p = caught(func() { assert("got {}", x) })
		want += "\n>>> got " + string(x)
	case 2:
		text, p = caught(func() { assert(gost.String("{}{{}}"), x) })
		want += "\n>>> " + string(x) + "{}"
	}
	nd.Assert(p, "must panic")
	nd.Assert(text == want, "must panic with the values as they are")
}

func H_C09_Turned() {
	nd.Bound("every pair of pairs of numbers with a descending order")
	a := gost.Pair[turned, turned]{Key: turned(nd.I32("a")), Value: turned(nd.I32("b"))}
	b := gost.Pair[turned, turned]{Key: turned(nd.I32("c")), Value: turned(nd.I32("d"))}
	want := gost.Ordering(gost.OrderingEqual)
	switch {
	case a.Key != b.Key:
		want = a.Key.Cmp(b.Key)
	case a.Value != b.Value:
		want = a.Value.Cmp(b.Value)
	}
	nd.Assert(a.Cmp(b) == want, "Pair.Cmp: by the order of the elements")
	nd.Assert(bool(a.Eq(b)) == (want == gost.OrderingEqual), "Pair.Eq: by the equality of the elements")
}

// ---- text of the elements' own

// label is a string shown in brackets, mark a number shown as letters.
type label string

func (a label) Display() gost.String  { return "<" + gost.String(a) + ">" }
func (a label) ToString() gost.String { return "<" + gost.String(a) + ">" }

type mark int32

func (a mark) Display() gost.String {
	if a < 0 {
		return "minus"
	}
	return "plus"
}
func (a mark) ToString() gost.String { return a.Display() }
func (a mark) String() string        { return "wrong" }
func (a mark) Error() string         { return "wrong" }

func (a mark) Cmp(b mark) gost.Ordering { return gost.I32(a).Cmp(gost.I32(b)) }
func (a mark) Eq(b mark) gost.Bool      { return a == b }

const shownBound = "named strings of up to 2 arbitrary bytes and named numbers with a text of their own"

func H_C28_Own() {
	nd.Bound(shownBound)
	l, m := label(nd.Str("l", nd.Choice("n", 3))), mark(nd.I32("m"))
	want := "a<" + string(l) + ">b" + string(m.Display()) + "c"
	nd.Assert(string(gost.Format("a{}b{}c", l, m)) == want, "Format: by the text of the argument")
	want = string(m.Display()) + "<" + string(l) + ">{}"
	nd.Assert(string(gost.Format("{}{}{{}}", m, l)) == want, "Format: by the text of the argument")
}

func H_C38_Own() {
	nd.Bound(shownBound + ", in each collection, option and result")
	l, m := label(nd.Str("l", nd.Choice("n", 3))), mark(nd.I32("m"))
	x, y := "<"+string(l)+">", string(m.Display())
	const what = ": by the text of the elements"
	switch nd.Choice("kind", 6) {
	case 0:
		v := gost.VecNew[label]()
		v.Push(l)
		v.Push(l)
		nd.Assert(string(v.Display()) == "Vec["+x+", "+x+"]", "Vec"+what)
		w := gost.VecNew[mark]()
		w.Push(m)
		nd.Assert(string(w.Display()) == "Vec["+y+"]", "Vec"+what)
	case 1:
		v := gost.VecDequeNew[label]()
		v.PushBack(l)
		v.PushBack(l)
		nd.Assert(string(v.Display()) == "VecDeque["+x+", "+x+"]", "VecDeque"+what)
	case 2:
		v := gost.LinkedListNew[label]()
		v.PushBack(l)
		v.PushBack(l)
		nd.Assert(string(v.Display()) == "LinkedList["+x+", "+x+"]", "LinkedList"+what)
	case 3:
		nd.Assert(string(gost.Some(l).Display()) == "Some("+x+")", "Option"+what)
		nd.Assert(string(gost.Some(m).Display()) == "Some("+y+")", "Option"+what)
	case 4:
		nd.Assert(string(gost.Ok(l).Display()) == "Ok("+x+")", "Result"+what)
		nd.Assert(string(gost.Ok(m).Display()) == "Ok("+y+")", "Result"+what)
	case 5:
		p := gost.Pair[label, mark]{Key: l, Value: m}
		nd.Assert(string(p.Display()) == "Pair["+x+", "+y+"]", "Pair"+what)
		s := gost.BTreeSetNew[mark]()
		s.Insert(m)
		nd.Assert(string(s.Display()) == "BTreeSet{"+y+"}", "BTreeSet"+what)
		t := gost.BTreeMapNew[mark, label]()
		t.Insert(m, l)
		nd.Assert(string(t.Display()) == "BTreeMap{"+y+": "+x+"}", "BTreeMap"+what)
		h := gost.HashMapNew[mark, label]()
		h.Insert(m, l)
		nd.Assert(string(h.Display()) == "HashMap{"+y+": "+x+"}", "HashMap"+what)
		g := gost.HashSetNew[mark]()
		g.Insert(m)
		nd.Assert(string(g.Display()) == "HashSet{"+y+"}", "HashSet"+what)
	}
}

// ---- the empty pattern matches between any two characters

func H_C30_Empty() {
	nd.Bound("strings of 0..3 arbitrary characters of every encoded length, the empty string as a pattern, a replacement of 0..2 arbitrary bytes")
	n := nd.Choice("n", 4)
	w := nd.Str("w", nd.Choice("r", 3))
	s, want := "", w
	var chars []string
	for i := 0; i < n; i++ {
		_, c := anyChar("c")
		chars = append(chars, c)
		s += c
		want += c + w
	}
	g := gost.String(s)
	nd.Assert(string(g.Replace("", gost.String(w))) == want, "Replace of the empty string: between any two characters")
	nd.Assert(bool(g.Contains("")), "Contains: the empty string")
	f := g.Find("")
	nd.Assert(bool(f.IsSome()) && f.Unwrap() == 0, "Find: the empty string, at once")
	v := g.Split("")
	k := 0
	for i := gost.USize(0); i < v.Len(); i++ {
		piece := string(v.GetUnchecked(i))
		if piece == "" {
			continue
		}
		nd.Assert(k < n && piece == chars[k], "Split by the empty string: into characters")
		k++
	}
	nd.Assert(k == n, "Split by the empty string: into characters")
}

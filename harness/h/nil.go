package h

import (
	"errors"

	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// Interface elements, nil among them: an element like any other.

var nilErr = errors.New("e")

// anElement is nil, an error, or a number in an interface
func anElement(name string) any {
	switch nd.Choice(name, 3) {
	case 0:
		return nil
	case 1:
		return nilErr
	}
	return gost.I32(7)
}

const nilBound = "elements of interface type, each nil or not, one operation"

func nilIs(r gost.Option[any], want any, what string) {
	nd.Assert(bool(r.IsSome()), what)
	nd.Assert(r.Unwrap() == want, what)
}

func H_C12_Nil() {
	nd.Bound("vectors of three " + nilBound)
	v := gost.VecNew[any]()
	var w []any
	for i := 0; i < 3; i++ {
		w = append(w, anElement("e"))
		v.Push(w[i])
	}
	at := nd.Choice("at", 3)
	nilIs(v.Get(gost.USize(at)), w[at], "Get of a nil element")
	switch nd.Choice("op", 4) {
	case 0:
		nilIs(v.Pop(), w[2], "Pop of a nil element")
		w = w[:2]
	case 1:
		v.Insert(gost.USize(at), nil)
		w = append(w[:at:at], append([]any{nil}, w[at:]...)...)
	case 2:
		nd.Assert(bool(v.Set(gost.USize(at), nil).IsNone()), "Set of a nil element")
		w[at] = nil
	case 3:
		v.Retain(func(e any) gost.Bool { return e != nil })
		var l []any
		for _, e := range w {
			if e != nil {
				l = append(l, e)
			}
		}
		w = l
	}
	nd.Assert(int(v.Len()) == len(w), "nil elements count")
	it := v.IntoIter()
	for i, e := range w {
		nd.Assert(v.GetUnchecked(gost.USize(i)) == e, "nil elements stay where they are")
		nilIs(it.Next(), e, "nil elements are iterated")
	}
	nd.Assert(bool(it.Next().IsNone()), "nothing else is iterated")
}

func H_C14_Nil() {
	nd.Bound("deques of three " + nilBound)
	d := gost.VecDequeWithCapacity[any](4)
	var w []any
	d.PushBack(nil)
	d.PopFront()
	for i := 0; i < 3; i++ {
		w = append(w, anElement("e"))
		d.PushBack(w[i])
	}
	at := nd.Choice("at", 3)
	nilIs(d.Get(gost.USize(at)), w[at], "Get of a nil element")
	nilIs(d.Front(), w[0], "Front of a nil element")
	nilIs(d.Back(), w[2], "Back of a nil element")
	switch nd.Choice("op", 4) {
	case 0:
		nilIs(d.PopBack(), w[2], "PopBack of a nil element")
		w = w[:2]
	case 1:
		nilIs(d.PopFront(), w[0], "PopFront of a nil element")
		w = w[1:]
	case 2:
		d.PushFront(nil)
		w = append([]any{nil}, w...)
	case 3:
		d.PushBack(nil)
		d.PushBack(nilErr)
		w = append(w, nil, nilErr)
	}
	nd.Assert(int(d.Len()) == len(w), "nil elements count")
	it := d.IntoIter()
	for _, e := range w {
		nilIs(it.Next(), e, "nil elements are iterated")
	}
	nd.Assert(bool(it.Next().IsNone()), "nothing else is iterated")
	for _, e := range w {
		nilIs(d.PopFront(), e, "nil elements come out in order")
	}
	nd.Assert(bool(d.PopFront().IsNone()), "then nothing")
}

func H_C16_Nil() {
	nd.Bound("lists of three " + nilBound)
	l := gost.LinkedListNew[any]()
	var w []any
	for i := 0; i < 3; i++ {
		w = append(w, anElement("e"))
		l.PushBack(w[i])
	}
	f, b := l.Front(), l.Back()
	nd.Assert(bool(f.IsSome()) && *f.Unwrap() == w[0], "Front of a nil element")
	nd.Assert(bool(b.IsSome()) && *b.Unwrap() == w[2], "Back of a nil element")
	switch nd.Choice("op", 4) {
	case 0:
		nilIs(l.PopBack(), w[2], "PopBack of a nil element")
		w = w[:2]
	case 1:
		nilIs(l.PopFront(), w[0], "PopFront of a nil element")
		w = w[1:]
	case 2:
		l.PushFront(nil)
		w = append([]any{nil}, w...)
	case 3:
		o := gost.LinkedListNew[any]()
		o.PushBack(nil)
		l.Append(&o)
		w = append(w, nil)
	}
	nd.Assert(int(l.Len()) == len(w), "nil elements count")
	it := l.IntoIter()
	for _, e := range w {
		nilIs(it.Next(), e, "nil elements are iterated")
	}
	nd.Assert(bool(it.Next().IsNone()), "nothing else is iterated")
	for _, e := range w {
		nilIs(l.PopFront(), e, "nil elements come out in order")
	}
	nd.Assert(bool(l.PopFront().IsNone()), "then nothing")
}

type nilMap interface {
	Insert(k gost.I32, v any) gost.Option[any]
	Get(k gost.I32) gost.Option[any]
	Remove(k gost.I32) gost.Option[any]
	ContainsKey(k gost.I32) gost.Bool
	Len() gost.USize
}

func nilValues(m nilMap) {
	var w []any
	for i := 0; i < 3; i++ {
		w = append(w, anElement("e"))
		nd.Assert(bool(m.Insert(gost.I32(i), w[i]).IsNone()), "a new key")
	}
	at := nd.Choice("at", 3)
	k := gost.I32(at)
	switch nd.Choice("op", 2) {
	case 0:
		x := anElement("x")
		nilIs(m.Insert(k, x), w[at], "the nil value replaced is returned")
		w[at] = x
		nd.Assert(m.Len() == 3, "nil values count")
	case 1:
		nilIs(m.Remove(k), w[at], "the nil value removed is returned")
		nd.Assert(m.Len() == 2 && !bool(m.ContainsKey(k)) && bool(m.Get(k).IsNone()), "a removed key is gone")
		w[at] = nil
		m.Insert(k, nil)
	}
	for i, x := range w {
		nd.Assert(bool(m.ContainsKey(gost.I32(i))), "a key with a nil value is there")
		nilIs(m.Get(gost.I32(i)), x, "Get of a nil value")
	}
}

type btNil struct {
	m *gost.BTreeMap[gost.I32, any]
}

func (b btNil) Insert(k gost.I32, v any) gost.Option[any] { return b.m.Insert(k, v) }
func (b btNil) Get(k gost.I32) gost.Option[any]           { return b.m.Get(k) }
func (b btNil) Remove(k gost.I32) gost.Option[any]        { return b.m.Remove(k) }
func (b btNil) ContainsKey(k gost.I32) gost.Bool          { return gost.Bool(b.m.ContainsKey(k)) }
func (b btNil) Len() gost.USize                           { return b.m.Len() }

func H_C18_Nil() {
	nd.Bound("B-tree maps of three values of interface type, each nil or not, one of them replaced or removed")
	m := gost.BTreeMapNew[gost.I32, any]()
	nilValues(btNil{&m})
}

func H_C21_Nil() {
	nd.Bound("hash maps of three values of interface type, each nil or not, one of them replaced or removed")
	m := gost.HashMapNew[gost.I32, any]()
	nilValues(&m)
}

func H_C30_Thousands() {
	nd.NoMerge()
	nd.Steps(60000000)
	nd.Bound("a subject of 1030, 2100 and 5000 equal pieces, one of them with an arbitrary lower-case letter: split, replaced, found and repeated")
	n := []int{1030, 2100, 5000}[nd.Choice("n", 3)]
	c := nd.U8("c")
	nd.Assume(c >= 'a' && c <= 'z')
	b := make([]byte, 0, 3*n)
	r := make([]byte, 0, 4*n)
	for i := 0; i < n; i++ {
		x := byte('A' + i%26)
		if i == n/2 {
			x = c
		}
		b = append(b, x, ',', ';')
		r = append(r, x, '(', '.', ')')
	}
	s := gost.String(b)
	switch nd.Choice("op", 4) {
	case 0:
		v := s.Split(",;")
		nd.Assert(int(v.Len()) == n+1, "Split into thousands of pieces")
		ok := true
		for i := 0; i < n; i++ {
			e := v.GetUnchecked(gost.USize(i))
			ok = ok && len(e) == 1 && e[0] == b[3*i]
		}
		nd.Assert(ok && v.GetUnchecked(gost.USize(n)) == "", "Split into thousands of pieces: each of them")
	case 1:
		nd.Assert(fsSameS(r, s.Replace(",;", "(.)")), "Replace of thousands of matches")
	case 2:
		f := s.Find(gost.String([]byte{c}))
		nd.Assert(bool(f.IsSome()) && int(f.Unwrap()) == 3*(n/2), "Find far into a subject")
		nd.Assert(s.Contains(gost.String([]byte{c, ',', ';', b[3*(n/2)+3]})), "Contains far into a subject")
	case 3:
		t := gost.String([]byte{c, 'x'}).Repeat(gost.USize(n))
		nd.Assert(len(t) == 2*n, "Repeat thousands of times: the length")
		diff := byte(0)
		for i := 0; i < n; i++ {
			diff |= t[2*i] ^ c | t[2*i+1] ^ 'x'
		}
		nd.Assert(diff == 0, "Repeat thousands of times")
	}
}

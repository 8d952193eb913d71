package h

import (
	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// Reading operations running at once.

// readers decides the given reading operations: an operation which writes
// nothing that existed before cannot disturb another one. Those which do write
// run together with every other, on a collection of their own. The last one
// displays, and has the collection hold given elements instead of arbitrary ones.
func readers(mk func(plain bool) (ops []func(), after func())) {
	nd.Bound("each reading operation writes nothing that existed before; those that do write: together with every other operation, at most one preemption (thorough: 2) anywhere in gost")
	nd.NoMerge()
	plain := nd.Choice("display", 2) == 1
	ops, after := mk(plain)
	i := len(ops) - 1
	if !plain {
		i = nd.Choice("first", len(ops)-1)
	}
	if !nd.Writes("writes", ops[i]) {
		after()
		return
	}
	after()
	ops, after = mk(plain)
	a, b := ops[i], ops[nd.Choice("second", len(ops))]
	nd.PreemptAll()
	nd.Preempt(nd.Tier(1, 2))
	done := make(chan bool, 1)
	if nd.Choice("turn", 2) == 1 {
		a, b = b, a
	}
	go func() {
		b()
		done <- true
	}()
	a()
	<-done
	after()
}

func iterIs[T comparable](it gost.Iterator[T], want []T, what string) {
	for _, x := range want {
		v := it.Next()
		if !v.IsSome() {
			nd.Assert(false, what+": an element is missing")
			return
		}
		nd.Assert(v.Unwrap() == x, what+": every element in order")
	}
	nd.Assert(bool(it.Next().IsNone()), what+": nothing follows")
}

func optIs2[T comparable](o gost.Option[T], some bool, want T, what string) {
	nd.Assert(bool(o.IsSome()) == some, what+": Some exactly when it exists")
	if some && bool(o.IsSome()) {
		nd.Assert(o.Unwrap() == want, what+": the element")
	}
}

func text32(s []gost.I32, name string) string {
	r := name + "["
	for i, x := range s {
		if i > 0 {
			r += ", "
		}
		r += string(x.ToString())
	}
	return r + "]"
}

// collects asserts what an iterator's adaptors give.
func collects(it gost.Iterator[gost.I32], s []gost.I32, what string) {
	it = it.Map(func(x gost.I32) gost.I32 { return x + 1 }).Filter(func(x gost.I32) gost.Bool { return x != s[1]+1 })
	v := it.CollectToVec()
	slice32(v.AsSlice(), []gost.I32{s[0] + 1, s[2] + 1}, what+" Map, Filter, CollectToVec")
}

func slice32(a, b []gost.I32, what string) {
	nd.Assert(len(a) == len(b), what+": length")
	for i := range a {
		if i < len(b) {
			nd.Assert(a[i] == b[i], what+": elements")
		}
	}
}

// three arbitrary elements in ascending order
func sorted3() []gost.I32 {
	s := els("s", 3)
	nd.Assume(s[0] < s[1] && s[1] < s[2])
	return s
}

func in3(s []gost.I32, q gost.I32) bool { return q == s[0] || q == s[1] || q == s[2] }

// found asserts that a search for q in s gives the place.
func found(o gost.Option[gost.USize], s []gost.I32, q gost.I32, what string) {
	nd.Assert(bool(o.IsSome()) == in3(s, q), what+": finds exactly what is there")
	if o.IsSome() {
		i := o.Unwrap()
		nd.Assert(i < 3 && s[i] == q, what+": the place")
	}
}

func H_C41_Vec() {
	s, q := sorted3(), el("q")
	readers(func(plain bool) ([]func(), func()) {
		if plain {
			s = []gost.I32{4, 50, 600}
		}
		v := gost.VecNew[gost.I32]()
		for _, x := range s {
			v.Push(x)
		}
		w := v.Clone()
		return []func(){
			func() {
				nd.Assert(v.Len() == 3 && !bool(v.IsEmpty()) && v.Capacity() >= 3, "Vec: length")
				optIs2(v.Get(1), true, s[1], "Vec.Get")
				optIs2(v.Get(3), false, 0, "Vec.Get")
				nd.Assert(v.GetUnchecked(2) == s[2], "Vec.GetUnchecked")
			},
			func() { nd.Assert(bool(v.Contains(q)) == in3(s, q), "Vec.Contains") },
			func() { found(v.BinarySearch(q), s, q, "Vec.BinarySearch") },
			func() { nd.Assert(bool(v.Contains(s[0])), "Vec.Contains") },
			func() { found(v.BinarySearch(s[2]), s, s[2], "Vec.BinarySearch") },
			func() { iterIs(v.IntoIter(), s, "Vec iterator") },
			func() { iterIs(v.IntoIter().Rev(), reversed(s), "Vec iterator Rev") },
			func() {
				f := v.IntoIter().Fold(0, func(a, x gost.I32) gost.I32 { return 2*a + x })
				nd.Assert(f == 4*s[0]+2*s[1]+s[2], "Vec iterator Fold")
			},
			func() { collects(v.IntoIter(), s, "Vec iterator") },
			func() { slice32(v.Clone().AsSlice(), s, "Vec.Clone") },
			func() { slice32(v.AsSlice(), s, "Vec.AsSlice") },
			func() { nd.Assert(bool(v.Eq(w)) && bool(w.Eq(v)), "Vec.Eq") },
			func() { nd.Assert(string(v.Display()) == text32(s, "Vec"), "Vec.Display") },
		}, func() { vecIs(&v, s, "Vec after reading") }
	})
}

func H_C41_Deque() {
	nd.Bound("every ring start of capacity 4")
	s, q := sorted3(), el("q")
	head := nd.Choice("head", 4)
	readers(func(plain bool) ([]func(), func()) {
		if plain {
			s = []gost.I32{4, 50, 600}
		}
		d := gost.VecDequeWithCapacity[gost.I32](4)
		for i := 0; i < head; i++ {
			d.PushBack(0)
			d.PopFront()
		}
		for _, x := range s {
			d.PushBack(x)
		}
		w := freshDeque(s)
		return []func(){
			func() {
				nd.Assert(d.Len() == 3 && !bool(d.IsEmpty()) && d.Capacity() >= 3, "VecDeque: length")
				optIs2(d.Get(1), true, s[1], "VecDeque.Get")
				optIs2(d.Get(3), false, 0, "VecDeque.Get")
				optIs2(d.Front(), true, s[0], "VecDeque.Front")
				optIs2(d.Back(), true, s[2], "VecDeque.Back")
			},
			func() { nd.Assert(bool(d.Contains(q)) == in3(s, q), "VecDeque.Contains") },
			func() { found(d.BinarySearch(q), s, q, "VecDeque.BinarySearch") },
			func() { nd.Assert(bool(d.Contains(s[0])), "VecDeque.Contains") },
			func() { found(d.BinarySearch(s[2]), s, s[2], "VecDeque.BinarySearch") },
			func() { iterIs(d.IntoIter(), s, "VecDeque iterator") },
			func() { iterIs(d.IntoIter().Rev(), reversed(s), "VecDeque iterator Rev") },
			func() { collects(d.IntoIter(), s, "VecDeque iterator") },
			func() { slice32(d.Clone().AsSlice(), s, "VecDeque.Clone") },
			func() { slice32(d.AsSlice(), s, "VecDeque.AsSlice") },
			func() { nd.Assert(bool(d.Eq(w)) && bool(w.Eq(d)), "VecDeque.Eq") },
			func() { nd.Assert(string(d.Display()) == text32(s, "VecDeque"), "VecDeque.Display") },
		}, func() { dequeIs(&d, s, "VecDeque after reading") }
	})
}

func H_C41_List() {
	s := sorted3()
	readers(func(plain bool) ([]func(), func()) {
		if plain {
			s = []gost.I32{4, 50, 600}
		}
		l := gost.LinkedListNew[gost.I32]()
		for _, x := range s {
			l.PushBack(x)
		}
		w := l.Clone()
		return []func(){
			func() { nd.Assert(l.Len() == 3 && !bool(l.IsEmpty()), "LinkedList: length") },
			func() {
				nd.Assert(*l.Front().Unwrap() == s[0] && *l.Back().Unwrap() == s[2], "LinkedList: ends")
			},
			func() { iterIs(l.IntoIter(), s, "LinkedList iterator") },
			func() { iterIs(l.IntoIter().Rev(), reversed(s), "LinkedList iterator Rev") },
			func() { collects(l.IntoIter(), s, "LinkedList iterator") },
			func() { c := l.Clone(); listIs(&c, s, "LinkedList.Clone") },
			func() { nd.Assert(bool(l.Eq(w)) && bool(w.Eq(l)), "LinkedList.Eq") },
			func() {
				nd.Assert(string(l.Display()) == text32(s, "LinkedList"), "LinkedList.Display")
			},
		}, func() { listIs(&l, s, "LinkedList after reading") }
	})
}

func H_C41_Heap() {
	s := sorted3()
	readers(func(plain bool) ([]func(), func()) {
		h := gost.BinaryHeapNew[gost.I32]()
		for _, x := range s {
			h.Push(x)
		}
		return []func(){
			func() {
				nd.Assert(h.Len() == 3 && !bool(h.IsEmpty()) && h.Capacity() >= 3, "BinaryHeap: length")
			},
			func() {
				a := h.AsSlice()
				nd.Assert(len(a) == 3, "BinaryHeap.AsSlice: length")
				sum := gost.I32(0)
				for _, x := range a {
					sum += x
				}
				nd.Assert(sum == s[0]+s[1]+s[2], "BinaryHeap.AsSlice: the elements")
			},
		}, func() {
			for i := 2; i >= 0; i-- {
				optIs2(h.Pop(), true, s[i], "BinaryHeap after reading")
			}
		}
	})
}

func H_C41_HashMap() {
	k, x := gost.I32(nd.I8("k")), els("x", 2)
	nd.Assume(k != 5)
	readers(func(plain bool) ([]func(), func()) {
		if plain {
			k, x = 7, []gost.I32{80, 9}
		}
		m, w := gost.HashMapNew[gost.I32, gost.I32](), gost.HashMapNew[gost.I32, gost.I32]()
		m.Insert(k, x[0])
		m.Insert(5, x[1])
		w.Insert(5, x[1])
		w.Insert(k, x[0])
		q := gost.I32(300)
		check := func(m *gost.HashMap[gost.I32, gost.I32]) {
			nd.Assert(m.Len() == 2 && !bool(m.IsEmpty()), "HashMap: length")
			optIs2(m.Get(k), true, x[0], "HashMap.Get")
			optIs2(m.Get(5), true, x[1], "HashMap.Get")
			optIs2(m.Get(q), false, 0, "HashMap.Get")
		}
		return []func(){
			func() { check(&m) },
			func() {
				nd.Assert(bool(m.ContainsKey(k)) && bool(m.ContainsKey(5)) && !bool(m.ContainsKey(q)), "HashMap.ContainsKey")
			},
			func() { both(m.Keys(), k, 5, "HashMap.Keys") },
			func() { both(m.Values(), x[0], x[1], "HashMap.Values") },
			func() {
				it := m.IntoIter()
				p, r := it.Next(), it.Next()
				if !p.IsSome() || !r.IsSome() {
					nd.Assert(false, "HashMap iterator: an entry is missing")
					return
				}
				a, b := p.Unwrap(), r.Unwrap()
				if a.Key != k {
					a, b = b, a
				}
				nd.Assert(a.Key == k && a.Value == x[0] && b.Key == 5 && b.Value == x[1], "HashMap iterator: the entries")
				nd.Assert(bool(it.Next().IsNone()), "HashMap iterator: nothing follows")
			},
			func() { c := m.Clone(); check(&c) },
			func() { nd.Assert(bool(m.Eq(w)) && bool(w.Eq(m)), "HashMap.Eq") },
			func() { nd.Assert(len(m.Display()) >= len("HashMap{5: 0, 0: 0}"), "HashMap.Display") },
		}, func() { check(&m) }
	})
}

// both asserts that an iterator gives two elements, in any order.
func both(it gost.Iterator[gost.I32], a, b gost.I32, what string) {
	p, q := it.Next(), it.Next()
	if !p.IsSome() || !q.IsSome() {
		nd.Assert(false, what+": an element is missing")
		return
	}
	u, v := p.Unwrap(), q.Unwrap()
	nd.Assert(u == a && v == b || u == b && v == a, what+": every element")
	nd.Assert(bool(it.Next().IsNone()), what+": nothing follows")
}

func H_C41_BTreeMap() {
	nd.Bound("B-tree maps of 2, 12 and 20 entries")
	n := []int{2, 12, 20}[nd.Choice("size", 3)]
	x := el("x")
	q := gost.I32(nd.I8("q"))
	var keys, values []gost.I32
	for i := 0; i < n; i++ {
		keys, values = append(keys, gost.I32(i)), append(values, x+gost.I32(i))
	}
	has := q >= 0 && q < gost.I32(n)
	readers(func(plain bool) ([]func(), func()) {
		if plain {
			x = 500
			for i := range values {
				values[i] = x + keys[i]
			}
		}
		m, w := gost.BTreeMapNew[gost.I32, gost.I32](), gost.BTreeMapNew[gost.I32, gost.I32]()
		for i, k := range keys {
			m.Insert(k, values[i])
			w.Insert(k, values[i])
		}
		check := func() {
			nd.Assert(m.Len() == gost.USize(n) && !bool(m.IsEmpty()), "BTreeMap: length")
			optIs2(m.Get(q), has, x+q, "BTreeMap.Get")
		}
		return []func(){
			check,
			func() { nd.Assert(bool(m.ContainsKey(q)) == has, "BTreeMap.ContainsKey") },
			func() { optIs2(m.Get(1), true, x+1, "BTreeMap.Get") },
			func() { optIs2(m.Get(300), false, 0, "BTreeMap.Get") },
			func() {
				nd.Assert(bool(m.ContainsKey(gost.I32(n-1))) && !bool(m.ContainsKey(300)), "BTreeMap.ContainsKey")
			},
			func() { iterIs(m.Keys(), keys, "BTreeMap.Keys") },
			func() { iterIs(m.Values(), values, "BTreeMap.Values") },
			func() {
				it := m.IntoIter()
				for i, k := range keys {
					p := it.Next()
					if !p.IsSome() {
						nd.Assert(false, "BTreeMap iterator: an entry is missing")
						return
					}
					e := p.Unwrap()
					nd.Assert(e.Key == k && e.Value == values[i], "BTreeMap iterator: the entries")
				}
				nd.Assert(bool(it.Next().IsNone()), "BTreeMap iterator: nothing follows")
			},
			func() { nd.Assert(m.Eq(&w) && w.Eq(&m), "BTreeMap.Eq") },
			func() { nd.Assert(len(m.Display()) >= n*len("0: 0"), "BTreeMap.Display") },
		}, check
	})
}

// Sets, each with another one.
type readSet[S any] interface {
	Len() gost.USize
	Contains(gost.I32) gost.Bool
	Insert(gost.I32) gost.Bool
	Union(S) S
	Intersection(S) S
	SymmetricDifference(S) S
	IsSubset(S) gost.Bool
	IsSuperset(S) gost.Bool
	IsDisjoint(S) gost.Bool
	Eq(S) gost.Bool
	Clone() S
	Display() gost.String
	IntoIter() gost.Iterator[gost.I32]
}

func readSets[S any](empty func() S, at func(*S) readSet[S]) {
	nd.Bound("sets of two elements")
	x := gost.I32(nd.I8("x"))
	is := func(s S, what string, in ...gost.I32) {
		r := at(&s)
		nd.Assert(r.Len() == gost.USize(len(in)), what+": length")
		for _, x := range in {
			nd.Assert(bool(r.Contains(x)), what+": elements")
		}
	}
	readers(func(plain bool) ([]func(), func()) {
		if plain {
			x = 9
		}
		// {x, x+1} and {x+1, x+2}
		a, b := empty(), empty()
		at(&a).Insert(x + 1)
		at(&a).Insert(x)
		at(&b).Insert(x + 1)
		at(&b).Insert(x + 2)
		return []func(){
			func() { is(a, "set", x, x+1) },
			func() { is(at(&a).Union(b), "Union", x, x+1, x+2) },
			func() { is(at(&b).Intersection(a), "Intersection", x+1) },
			func() { is(at(&a).SymmetricDifference(b), "SymmetricDifference", x, x+2) },
			func() { nd.Assert(!bool(at(&a).IsSubset(b)), "IsSubset") },
			func() { nd.Assert(!bool(at(&b).IsSuperset(a)), "IsSuperset") },
			func() { nd.Assert(!bool(at(&a).IsDisjoint(b)), "IsDisjoint") },
			func() { nd.Assert(!bool(at(&a).Eq(b)), "Eq") },
			func() { is(at(&b).Clone(), "Clone", x+1, x+2) },
			func() { both(at(&a).IntoIter(), x, x+1, "iterator") },
			func() { nd.Assert(len(at(&a).Display()) >= len("Set{0, 1}"), "Display") },
		}, func() {
			is(a, "after reading", x, x+1)
			is(b, "after reading", x+1, x+2)
		}
	})
}

func H_C41_HashSet() {
	type S = gost.HashSet[gost.I32]
	readSets(gost.HashSetNew[gost.I32], func(s *S) readSet[S] { return s })
}

func H_C41_BTreeSet() {
	type S = gost.BTreeSet[gost.I32]
	readSets(gost.BTreeSetNew[gost.I32], func(s *S) readSet[S] { return s })
}

package h

import (
	"strings"

	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// Elements without the ability an operation needs.

type lacking struct{ n gost.I32 }

// only ordered, as the B-trees demand
type orderedOnly struct{ n gost.I32 }

func (a orderedOnly) Cmp(b orderedOnly) gost.Ordering { return a.n.Cmp(b.n) }
func (a orderedOnly) Eq(b orderedOnly) gost.Bool      { return a.n == b.n }

// refuses asserts that f panics exactly when it must.
func refuses(must bool, what string, f func()) {
	nd.Assert(nd.Catch(f) == must, what+": panics exactly when an element lacks what it needs")
}

// refusesNamed also asserts that the panic names the type and the ability.
func refusesNamed(must bool, what, typ, ability string, f func()) {
	text, panicked := caught(f)
	nd.Assert(panicked == must, what+": panics exactly when an element lacks what it needs")
	if panicked {
		nd.Assert(strings.Contains(text, "'"+typ+"'") && strings.Contains(text, ability), what+": the panic names the type and what it lacks")
	}
}

func lackings() []lacking {
	s := make([]lacking, nd.Choice("size", 3))
	for i := range s {
		s[i].n = el("x")
	}
	return s
}

const boundLacking = "collections of 0..2 arbitrary elements without methods, each operation which needs one"

func H_C40_Vec() {
	nd.Bound(boundLacking)
	s := lackings()
	n := len(s)
	v, w := gost.VecNew[lacking](), gost.VecNew[lacking]()
	for _, x := range s {
		v.Push(x)
		w.Push(x)
	}
	switch nd.Choice("op", 7) {
	case 0:
		refuses(n > 0, "Vec.Clone", func() { v.Clone() })
	case 1:
		refusesNamed(n > 0, "Vec.Display", "lacking", "Display", func() { v.Display() })
	case 2:
		refusesNamed(n > 0, "Vec.Debug", "lacking", "Display", func() { v.Debug() })
	case 3:
		refuses(n > 0, "Vec.Eq", func() { v.Eq(w) })
	case 4:
		refuses(n > 0, "Vec.BinarySearch", func() { v.BinarySearch(lacking{}) })
	case 5:
		refuses(n > 1, "Vec.Sort", func() { v.Sort() })
	case 6:
		refuses(n > 1, "Vec.SortUnstable", func() { v.SortUnstable() })
	}
	nd.Assert(v.Len() == gost.USize(n), "Vec: the length stays")
	for i, x := range s {
		nd.Assert(v.GetUnchecked(gost.USize(i)) == x, "Vec: the elements stay")
	}
}

func H_C40_Deque() {
	nd.Bound(boundLacking + ", every ring start of capacity 3")
	s := lackings()
	n := len(s)
	v, w := gost.VecDequeWithCapacity[lacking](3), gost.VecDequeNew[lacking]()
	for i := nd.Choice("head", 3); i > 0; i-- {
		v.PushBack(lacking{})
		v.PopFront()
	}
	for _, x := range s {
		v.PushBack(x)
		w.PushBack(x)
	}
	switch nd.Choice("op", 6) {
	case 1:
		refusesNamed(n > 0, "VecDeque.Display", "lacking", "Display", func() { v.Display() })
	case 2:
		refuses(n > 0, "VecDeque.Eq", func() { v.Eq(w) })
	case 3:
		refuses(n > 0, "VecDeque.BinarySearch", func() { v.BinarySearch(lacking{}) })
	case 4:
		refuses(n > 1, "VecDeque.Sort", func() { v.Sort() })
	case 5:
		refuses(n > 1, "VecDeque.SortUnstable", func() { v.SortUnstable() })
	case 0:
		if n > 0 {
			refuses(true, "VecDeque.Contains", func() { v.Contains(lacking{}) })
		}
	}
	nd.Assert(v.Len() == gost.USize(n), "VecDeque: the length stays")
	for i, x := range s {
		nd.Assert(v.GetUnchecked(gost.USize(i)) == x, "VecDeque: the elements stay")
	}
}

func H_C40_List() {
	nd.Bound(boundLacking)
	s := lackings()
	n := len(s)
	v, w := gost.LinkedListNew[lacking](), gost.LinkedListNew[lacking]()
	for _, x := range s {
		v.PushBack(x)
		w.PushBack(x)
	}
	switch nd.Choice("op", 3) {
	case 0:
		refusesNamed(n > 0, "LinkedList.Clone", "lacking", "Clone", func() { v.Clone() })
	case 1:
		refusesNamed(n > 0, "LinkedList.Display", "lacking", "Display", func() { v.Display() })
	case 2:
		refusesNamed(n > 0, "LinkedList.Eq", "lacking", "Eq", func() { v.Eq(w) })
	}
	nd.Assert(v.Len() == gost.USize(n), "LinkedList: the length stays")
	for _, x := range s {
		o := v.PopFront()
		nd.Assert(bool(o.IsSome()) && o.Unwrap() == x, "LinkedList: the elements stay")
	}
}

func H_C40_Maps() {
	nd.Bound("hash and B-tree maps of 0..2 entries whose keys or values have no methods, each operation which needs one")
	n := nd.Choice("size", 3)
	must := n > 0
	x := el("x")
	switch nd.Choice("map", 4) {
	case 0:
		m, w := gost.HashMapNew[gost.I32, lacking](), gost.HashMapNew[gost.I32, lacking]()
		for i := 0; i < n; i++ {
			m.Insert(gost.I32(i), lacking{x})
			w.Insert(gost.I32(i), lacking{x})
		}
		switch nd.Choice("op", 3) {
		case 0:
			refusesNamed(must, "HashMap.Clone", "lacking", "Clone", func() { m.Clone() })
		case 1:
			refuses(must, "HashMap.Display", func() { m.Display() })
		case 2:
			refuses(must, "HashMap.Eq", func() { m.Eq(w) })
		}
		nd.Assert(m.Len() == gost.USize(n), "HashMap: the length stays")
	case 1:
		m := gost.HashMapNew[lacking, gost.I32]()
		for i := 0; i < n; i++ {
			m.Insert(lacking{x + gost.I32(i)}, 0)
		}
		switch nd.Choice("op", 2) {
		case 0:
			refusesNamed(must, "HashMap.Clone", "lacking", "Clone", func() { m.Clone() })
		case 1:
			refuses(must, "HashMap.Display", func() { m.Display() })
		}
		nd.Assert(m.Len() == gost.USize(n), "HashMap: the length stays")
	case 2:
		m, w := gost.BTreeMapNew[gost.I32, lacking](), gost.BTreeMapNew[gost.I32, lacking]()
		for i := 0; i < n; i++ {
			m.Insert(gost.I32(i), lacking{x})
			w.Insert(gost.I32(i), lacking{x})
		}
		switch nd.Choice("op", 2) {
		case 0:
			refuses(must, "BTreeMap.Display", func() { m.Display() })
		case 1:
			refuses(must, "BTreeMap.Eq", func() { m.Eq(&w) })
		}
		nd.Assert(m.Len() == gost.USize(n), "BTreeMap: the length stays")
	case 3: // neither keys nor values
		m := gost.HashMapNew[lacking, lacking]()
		for i := 0; i < n; i++ {
			m.Insert(lacking{x + gost.I32(i)}, lacking{x})
		}
		switch nd.Choice("op", 2) {
		case 0:
			refusesNamed(must, "HashMap.Clone", "lacking", "Clone", func() { m.Clone() })
		case 1:
			refuses(must, "HashMap.Display", func() { m.Display() })
		}
		nd.Assert(m.Len() == gost.USize(n), "HashMap: the length stays")
	}
}

func H_C40_Sets() {
	nd.Bound("hash and B-tree sets of 0..2 elements, each operation which needs more than they have")
	n := nd.Choice("size", 3)
	must := n > 0
	x := el("x")
	switch nd.Choice("set", 2) {
	case 0:
		m := gost.HashSetNew[lacking]()
		for i := 0; i < n; i++ {
			m.Insert(lacking{x + gost.I32(i)})
		}
		switch nd.Choice("op", 2) {
		case 0:
			refusesNamed(must, "HashSet.Clone", "lacking", "Clone", func() { m.Clone() })
		case 1:
			refuses(must, "HashSet.Display", func() { m.Display() })
		}
		nd.Assert(m.Len() == gost.USize(n), "HashSet: the length stays")
	case 1:
		m := gost.BTreeSetNew[orderedOnly]()
		for i := 0; i < n; i++ {
			m.Insert(orderedOnly{gost.I32(i)})
		}
		switch nd.Choice("op", 2) {
		case 0:
			refusesNamed(must, "BTreeSet.Clone", "orderedOnly", "Clone", func() { m.Clone() })
		case 1:
			refuses(must, "BTreeSet.Display", func() { m.Display() })
		}
		nd.Assert(m.Len() == gost.USize(n), "BTreeSet: the length stays")
	}
}

func H_C40_Values() {
	nd.Bound("options, results and pairs of values without methods")
	x, y := lacking{el("x")}, lacking{el("y")}
	none := nd.Choice("none", 2) == 1
	o, p := gost.Some(x), gost.Some(y)
	r, q := gost.Ok(x), gost.Ok(y)
	if none {
		o, p = gost.None[lacking](), gost.None[lacking]()
	}
	switch nd.Choice("op", 10) {
	case 0:
		refuses(!none, "Option.Clone", func() { o.Clone() })
	case 1:
		refusesNamed(!none, "Option.Display", "lacking", "Display", func() { o.Display() })
	case 2:
		refuses(!none, "Option.Eq", func() { o.Eq(p) })
	case 3:
		refuses(true, "Result.Clone", func() { r.Clone() })
	case 4:
		refusesNamed(true, "Result.Display", "lacking", "Display", func() { r.Display() })
	case 5:
		refuses(true, "Result.Eq", func() { r.Eq(q) })
	case 6:
		a := gost.Pair[gost.I32, lacking]{Key: 1, Value: x}
		refuses(true, "Pair.Clone", func() { a.Clone() })
	case 7:
		a, b := gost.Pair[gost.I32, lacking]{Key: 1, Value: x}, gost.Pair[gost.I32, lacking]{Key: 1, Value: y}
		refuses(true, "Pair.Eq", func() { a.Eq(b) })
	case 8:
		a, b := gost.Pair[gost.I32, lacking]{Key: 1, Value: x}, gost.Pair[gost.I32, lacking]{Key: 1, Value: y}
		refuses(true, "Pair.Cmp", func() { a.Cmp(b) })
	case 9:
		a, b := gost.Pair[lacking, gost.I32]{Key: x, Value: 1}, gost.Pair[lacking, gost.I32]{Key: y, Value: 1}
		c, d := gost.Pair[lacking, lacking]{Key: x, Value: x}, gost.Pair[lacking, lacking]{Key: y, Value: y}
		refuses(true, "Pair.Clone", func() { a.Clone() })
		refuses(true, "Pair.Eq", func() { a.Eq(b) })
		refuses(true, "Pair.Cmp", func() { a.Cmp(b) })
		refuses(true, "Pair.Clone", func() { c.Clone() })
		refuses(true, "Pair.Eq", func() { c.Eq(d) })
		refuses(true, "Pair.Cmp", func() { c.Cmp(d) })
	}
}

func H_C40_Pointers() {
	nd.Bound("a list of a pointer to a value without methods")
	l := gost.LinkedListNew[*lacking]()
	l.PushBack(&lacking{el("x")})
	switch nd.Choice("op", 2) {
	case 0:
		refusesNamed(true, "LinkedList.Clone", "lacking", "Clone", func() { l.Clone() })
	case 1:
		refusesNamed(true, "LinkedList.Display", "lacking", "Display", func() { l.Display() })
	}
	nd.Assert(l.Len() == 1, "LinkedList: the length stays")
}

package h

import (
	"errors"

	"github.com/myyrakle/gost"
	"gostverif/nd"
	"gostverif/nd128"
)

// texts makes n strings of one arbitrary byte each, except that the last has
// two and that any one of them may be empty.
func texts(name string, n int) []gost.String {
	var r []gost.String
	empty := nd.Choice(name+".empty", n+1)
	for i := 0; i < n; i++ {
		k := 1
		if i == n-1 {
			k = 2
		}
		if i == empty {
			k = 0
		}
		r = append(r, gost.String(nd.Str(name, k)))
	}
	return r
}

func join(open string, parts []string, end string) string {
	r := open
	for i, p := range parts {
		if i > 0 {
			r += ", "
		}
		r += p
	}
	return r + end
}

func strs(s []gost.String) []string {
	var r []string
	for _, x := range s {
		r = append(r, string(x))
	}
	return r
}

type shower interface {
	Display() gost.String
	Debug() gost.String
}

// shows asserts the text of x, twice.
func shows(x shower, want, what string) {
	nd.Assert(string(x.Display()) == want, what+": Display")
	nd.Assert(string(x.Debug()) == want, what+": Debug")
	nd.Assert(string(x.Display()) == want, what+": Display again")
}

func H_C38_Sequences() {
	nd.Bound("Vec, VecDeque (every ring start) and LinkedList of up to 4 strings of arbitrary bytes")
	n := nd.Choice("n", 5)
	s := texts("s", n)
	switch nd.Choice("kind", 3) {
	case 0:
		v := gost.VecWithCapacity[gost.String](2)
		for _, x := range s {
			v.Push(x)
		}
		shows(v, join("Vec[", strs(s), "]"), "Vec")
		nd.Assert(int(v.Len()) == n, "Vec: length afterwards")
	case 1:
		d := gost.VecDequeWithCapacity[gost.String](4)
		h := nd.Choice("head", 4)
		for i := 0; i < h; i++ {
			d.PushBack("junk")
			d.PopFront()
		}
		for _, x := range s {
			d.PushBack(x)
		}
		shows(d, join("VecDeque[", strs(s), "]"), "VecDeque")
		nd.Assert(int(d.Len()) == n, "VecDeque: length afterwards")
	case 2:
		l := gost.LinkedListNew[gost.String]()
		for _, x := range s {
			l.PushBack(x)
		}
		shows(l, join("LinkedList[", strs(s), "]"), "LinkedList")
		nd.Assert(int(l.Len()) == n, "LinkedList: length afterwards")
	}
}

func H_C38_BTree() {
	nd.Bound("B-tree maps and sets of 0..4 and 9 entries, inserted in either direction, after removal of up to one entry; arbitrary values")
	n := []int{0, 1, 2, 3, 4, 9}[nd.Choice("n", 6)]
	vals := texts("v", n)
	m := gost.BTreeMapNew[gost.I16, gost.String]()
	s := gost.BTreeSetNew[gost.I16]()
	down := nd.Choice("down", 2) == 1
	for i := 0; i < n; i++ {
		j := i
		if down {
			j = n - 1 - i
		}
		m.Insert(gost.I16(j+3), vals[j])
		s.Insert(gost.I16(j + 3))
	}
	gone := nd.Choice("gone", 3) * 2
	if gone < n && gone > 0 {
		m.Remove(gost.I16(gone + 3))
		s.Remove(gost.I16(gone + 3))
	} else {
		gone = -1
	}
	digits := []string{"3", "4", "5", "6", "7", "8", "9", "10", "11"}
	var ms, ss []string
	for i := 0; i < n; i++ {
		if i != gone {
			ms = append(ms, digits[i]+": "+string(vals[i]))
			ss = append(ss, digits[i])
		}
	}
	if nd.Choice("what", 2) == 0 {
		shows(m, join("BTreeMap{", ms, "}"), "BTreeMap")
		nd.Assert(int(m.Len()) == len(ms), "BTreeMap: length afterwards")
	} else {
		shows(s, join("BTreeSet{", ss, "}"), "BTreeSet")
		nd.Assert(int(s.Len()) == len(ss), "BTreeSet: length afterwards")
	}
}

// permutations of parts
func perms(parts []string) [][]string {
	if len(parts) <= 1 {
		return [][]string{parts}
	}
	var r [][]string
	for i := range parts {
		var rest []string
		rest = append(rest, parts[:i]...)
		rest = append(rest, parts[i+1:]...)
		for _, p := range perms(rest) {
			r = append(r, append([]string{parts[i]}, p...))
		}
	}
	return r
}

func H_C38_Hash() {
	nd.MapOrder(2)
	nd.Bound("hash maps and sets of up to 3 entries, every enumeration order, after removal of up to one entry; arbitrary values")
	n := nd.Choice("n", 4)
	vals := texts("v", n)
	m := gost.HashMapNew[gost.I16, gost.String]()
	s := gost.HashSetNew[gost.I16]()
	for i := 0; i < n; i++ {
		m.Insert(gost.I16(i+3), vals[i])
		s.Insert(gost.I16(i + 3))
	}
	if nd.Choice("gone", 2) == 1 {
		m.Remove(77)
		s.Remove(77)
		m.Insert(50, "x")
		m.Remove(50)
		s.Insert(50)
		s.Remove(50)
	}
	digits := []string{"3", "4", "5"}
	var ps []string
	for i := 0; i < n; i++ {
		ps = append(ps, digits[i])
	}
	is := func(got gost.String, open string, what string) {
		ok := false
		for _, p := range perms(ps) {
			ok = ok || string(got) == join(open, p, "}")
		}
		nd.Assert(ok, what)
	}
	if nd.Choice("what", 2) == 0 {
		for i := range ps {
			ps[i] += ": " + string(vals[i])
		}
		is(m.Display(), "HashMap{", "HashMap: Display")
		is(m.Debug(), "HashMap{", "HashMap: Debug")
	} else {
		is(s.Display(), "HashSet{", "HashSet: Display")
		is(s.Debug(), "HashSet{", "HashSet: Debug")
	}
}

func H_C38_OptionResult() {
	nd.Bound("Option and Result over strings of up to 2 arbitrary bytes, also nested")
	x := gost.String(nd.Str("x", nd.Choice("n", 3)))
	switch nd.Choice("what", 6) {
	case 0:
		shows(gost.Some(x), "Some("+string(x)+")", "Some")
	case 1:
		shows(gost.None[gost.String](), "None", "None")
	case 2:
		shows(gost.Ok(x), "Ok("+string(x)+")", "Ok")
	case 3:
		shows(gost.Err[gost.String](errors.New(string(x))), string(x), "Err")
	case 4:
		shows(gost.Some(gost.Some(x)), "Some(Some("+string(x)+"))", "Some of Some")
	case 5:
		v := gost.VecNew[gost.Option[gost.String]]()
		v.Push(gost.Some(x))
		v.Push(gost.None[gost.String]())
		shows(v, "Vec[Some("+string(x)+"), None]", "Vec of Option")
	}
}

// the elements' own display form is used
func H_C38_Elements() {
	nd.Bound("collections of numbers, booleans, nested collections")
	n := el8("n")
	t := string(n.ToString())
	v := gost.VecNew[gost.I8]()
	v.Push(n)
	v.Push(-5)
	b := gost.Bool(nd.Bool("b"))
	bt := "false"
	if b {
		bt = "true"
	}
	switch nd.Choice("what", 4) {
	case 0:
		shows(v, "Vec["+t+", -5]", "Vec of I8")
	case 1:
		l := gost.LinkedListNew[gost.Vec[gost.I8]]()
		l.PushBack(v)
		l.PushBack(gost.VecNew[gost.I8]())
		shows(l, "LinkedList[Vec["+t+", -5], Vec[]]", "LinkedList of Vec")
	case 2:
		m := gost.BTreeMapNew[gost.I8, gost.Bool]()
		m.Insert(n, b)
		shows(m, "BTreeMap{"+t+": "+bt+"}", "BTreeMap of Bool")
	case 3:
		d := gost.VecDequeNew[gost.Bool]()
		d.PushFront(b)
		d.PushFront(true)
		shows(d, "VecDeque[true, "+bt+"]", "VecDeque of Bool")
	}
}

type texter interface {
	ToString() gost.String
	Display() gost.String
	Debug() gost.String
}

// named: Debug puts the type's name around the text.
func named(a texter, name string) {
	w := string(a.ToString())
	nd.Assert(string(a.Display()) == w, "Display: must be the text of the value")
	nd.Assert(string(a.Debug()) == name+"("+w+")", "Debug: must be the type's name and the text of the value")
}

func H_C38_ScalarDebug() {
	nd.Bound("every integer, character, byte and truth value of up to 64 bits; strings of up to 2 bytes")
	switch nd.Choice("type", 14) {
	case 0:
		named(gost.ISize(nd.I64("a")), "ISize")
	case 1:
		named(gost.I8(nd.I8("a")), "I8")
	case 2:
		named(gost.I16(nd.I16("a")), "I16")
	case 3:
		named(gost.I32(nd.I32("a")), "I32")
	case 4:
		named(gost.I64(nd.I64("a")), "I64")
	case 5:
		named(gost.USize(nd.U64("a")), "USize")
	case 6:
		named(gost.U8(nd.U8("a")), "U8")
	case 7:
		named(gost.U16(nd.U16("a")), "U16")
	case 8:
		named(gost.U32(nd.U32("a")), "U32")
	case 9:
		named(gost.U64(nd.U64("a")), "U64")
	case 10:
		named(gost.Byte(nd.U8("a")), "Byte")
	case 11:
		named(gost.Char(nd.I32("a")), "Char")
	case 12:
		named(gost.Bool(nd.Bool("a")), "Bool")
	case 13:
		named(gost.String(nd.Str("a", nd.Choice("n", 3))), "String")
	}
}

func H_C38_Debug128() {
	nd.Bound("128-bit values of up to 30 bits and the bounds of the types")
	switch nd.Choice("what", 4) {
	case 0:
		named(nd128.MkU128(0, uint64(nd.U32("a"))), "U128")
	case 1:
		named(nd128.MkI128(-1, ^uint64(nd.U16("a"))), "I128")
	case 2:
		named(gost.U128_MAX, "U128")
	case 3:
		named(gost.I128_MIN, "I128")
	}
}

func H_C38_Pair() {
	nd.Bound("pairs of small numbers and strings of up to 2 arbitrary bytes, also nested, also in collections")
	n := el8("n")
	t := string(n.ToString())
	x := gost.String(nd.Str("x", nd.Choice("n", 3)))
	p := gost.Pair[gost.I8, gost.String]{Key: n, Value: x}
	w := "Pair[" + t + ", " + string(x) + "]"
	switch nd.Choice("what", 8) {
	case 4:
		q := gost.Pair[gost.Bool, gost.Pair[gost.I8, gost.String]]{Key: false, Value: p}
		shows(q, "Pair[false, "+w+"]", "Pair with a Pair as its value")
		nd.Assert(string(q.ToString()) == "Pair[false, "+w+"]", "Pair with a Pair as its value: ToString")
	case 5:
		// elements that cannot show themselves are shown as Go shows them
		q := gost.Pair[int8, bool]{Key: int8(n), Value: true}
		shows(q, "Pair["+t+", true]", "Pair of plain Go values")
		nd.Assert(string(q.ToString()) == "Pair["+t+", true]", "Pair of plain Go values: ToString")
	case 6:
		q := gost.Pair[gost.String, string]{Key: x, Value: "v"}
		shows(q, "Pair["+string(x)+", v]", "Pair with a plain Go value")
		nd.Assert(string(q.ToString()) == "Pair["+string(x)+", v]", "Pair with a plain Go value: ToString")
	case 7:
		q := gost.Pair[gost.U128, gost.I128]{Key: nd128.MkU128(0, uint64(uint8(n))), Value: nd128.MkI128(-1, ^uint64(0))}
		shows(q, "Pair["+string(q.Key.ToString())+", -1]", "Pair of 128-bit values")
		nd.Assert(string(q.ToString()) == "Pair["+string(q.Key.ToString())+", -1]", "Pair of 128-bit values: ToString")
	case 0:
		shows(p, w, "Pair")
		nd.Assert(string(p.ToString()) == w, "Pair: ToString")
	case 1:
		q := gost.Pair[gost.Pair[gost.I8, gost.String], gost.Bool]{Key: p, Value: true}
		shows(q, "Pair["+w+", true]", "Pair of Pair")
		nd.Assert(string(q.ToString()) == "Pair["+w+", true]", "Pair of Pair: ToString")
	case 2:
		v := gost.VecNew[gost.Pair[gost.I8, gost.String]]()
		v.Push(p)
		v.Push(p)
		shows(v, "Vec["+w+", "+w+"]", "Vec of Pair")
	case 3:
		m := gost.HashMapNew[gost.I8, gost.String]()
		m.Insert(n, x)
		shows(m.IntoIter().CollectToVec(), "Vec["+w+"]", "the entries of a HashMap")
	}
}

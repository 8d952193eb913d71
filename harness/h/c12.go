package h

import (
	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// one operation on a vector and on the sequence it stands for
func vecOp(v *gost.Vec[gost.I32], s []gost.I32) []gost.I32 {
	switch nd.Choice("op", 12) {
	case 0:
		x := el("push")
		v.Push(x)
		return append(s, x)
	case 1:
		o := v.Pop()
		if len(s) == 0 {
			optIs(o, false, 0, "Pop of an empty vector")
			return s
		}
		optIs(o, true, s[len(s)-1], "Pop")
		return s[:len(s)-1]
	case 2:
		i := nd.Choice("at", len(s)+1)
		x := el("ins")
		v.Insert(gost.USize(i), x)
		r := append(clone32(s[:i]), x)
		return append(r, s[i:]...)
	case 3:
		i := nd.U64("idx")
		x := el("set")
		r := v.Set(gost.USize(i), x)
		if i < uint64(len(s)) {
			nd.Assert(bool(r.IsNone()), "Set: None when the element exists")
			t := clone32(s)
			for k := range t {
				if uint64(k) == i {
					t[k] = x
				}
			}
			return t
		}
		nd.Assert(bool(r.IsSome()), "Set: hands the value back when the index does not exist")
		nd.Assert(r.Unwrap() == x, "Set: hands the value back when the index does not exist")
		return s
	case 4:
		if len(s) == 0 {
			return s
		}
		i, j := nd.Choice("a", len(s)), nd.Choice("b", len(s))
		v.Swap(gost.USize(i), gost.USize(j))
		t := clone32(s)
		t[i], t[j] = t[j], t[i]
		return t
	case 5:
		o := gost.VecNew[gost.I32]()
		more := els("app", nd.Choice("app.len", 3))
		for _, x := range more {
			o.Push(x)
		}
		v.Append(&o)
		vecIs(&o, nil, "Append leaves the other vector empty")
		y := el("own")
		o.Push(y)
		vecIs(&o, []gost.I32{y}, "the emptied vector is independent")
		return append(clone32(s), more...)
	case 6:
		v.Clear()
		return nil
	case 7:
		v.Reverse()
		t := clone32(s)
		for i := range s {
			t[len(s)-1-i] = s[i]
		}
		return t
	case 8:
		x := el("fill")
		v.Fill(x)
		t := clone32(s)
		for i := range t {
			t[i] = x
		}
		return t
	case 9:
		xs := els("fillw", len(s))
		k := 0
		v.FillWith(func() gost.I32 { k++; return xs[k-1] })
		nd.Assert(k == len(s), "FillWith: calls the function once per element")
		return xs
	case 10:
		n := nd.Choice("res", 4)
		v.Reserve(gost.USize(n))
		nd.Assert(int(v.Capacity()) >= len(s)+n, "Reserve: room for the additional elements")
		return s
	case 11:
		i := nd.U64("get")
		o := v.Get(gost.USize(i))
		if i >= uint64(len(s)) {
			optIs(o, false, 0, "Get out of range")
			return s
		}
		nd.Assert(bool(o.IsSome()), "Get: Some in range")
		g := o.Unwrap()
		for k := range s {
			nd.Assert(uint64(k) != i || g == s[k], "Get: the element at the index")
		}
		return s
	}
	return s
}

// Histories of operations on a vector of any small starting contents.
func H_C12_History() {
	k := nd.Tier(3, 4)
	nd.Bound("vectors of up to 3 starting elements (built in 3 ways), 3 (quick) or 4 (thorough) operations, arbitrary elements and indices")
	v, s := mkVec("v", 3)
	for i := 0; i < k; i++ {
		s = vecOp(&v, s)
		vecIs(&v, s, "history")
	}
}

// Elements pushed after a growth stay in place: a longer push/pop history.
func H_C12_Growth() {
	nd.Bound("push/pop histories of 9 (quick) or 12 (thorough) steps from an empty vector of capacity 0..2")
	v := gost.VecWithCapacity[gost.I32](gost.USize(nd.Choice("cap", 3)))
	var s []gost.I32
	for i := 0; i < nd.Tier(9, 12); i++ {
		if nd.Choice("op", 2) == 0 {
			x := el("x")
			v.Push(x)
			s = append(s, x)
		} else {
			o := v.Pop()
			if len(s) == 0 {
				optIs(o, false, 0, "Pop")
			} else {
				optIs(o, true, s[len(s)-1], "Pop")
				s = s[:len(s)-1]
			}
		}
	}
	vecIs(&v, s, "push/pop history")
}

// Reserving more than the elements fit, then filling the reserved room.
func H_C12_Reserve() {
	nd.Bound("up to 4 elements, reservations up to 12")
	v, s := mkVec("v", 4)
	n := nd.Choice("n", 13)
	v.Reserve(gost.USize(n))
	vecIs(&v, s, "Reserve")
	nd.Assert(int(v.Capacity()) >= len(s)+n, "Reserve: room for the additional elements")
	for i := 0; i < 3; i++ {
		x := el("x")
		v.Push(x)
		s = append(s, x)
	}
	vecIs(&v, s, "pushes after Reserve")
}

// A new vector of n elements holds n zero values; an empty one holds none.
func H_C12_New() {
	n := nd.Choice("n", 5)
	v := gost.VecWithLen[gost.I32](gost.USize(n))
	vecIs(&v, make([]gost.I32, n), "VecWithLen")
	w := gost.VecWithCapacity[gost.I32](gost.USize(n))
	vecIs(&w, nil, "VecWithCapacity")
	nd.Assert(int(w.Capacity()) >= n, "VecWithCapacity: capacity")
	z := gost.VecNew[gost.I32]()
	vecIs(&z, nil, "VecNew")
}

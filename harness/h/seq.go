package h

import (
	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// element maker: arbitrary 32-bit values
func el(n string) gost.I32 { return gost.I32(nd.I32(n)) }

func els(n string, k int) []gost.I32 {
	r := make([]gost.I32, k)
	for i := range r {
		r[i] = el(n)
	}
	return r
}

func el8(n string) gost.I8 { return gost.I8(nd.I8(n)) }

func els8(n string, k int) []gost.I8 {
	r := make([]gost.I8, k)
	for i := range r {
		r[i] = el8(n)
	}
	return r
}

func clone32(a []gost.I32) []gost.I32 { return append([]gost.I32{}, a...) }

func same32(a, b []gost.I32) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = ok && a[i] == b[i]
	}
	return ok
}

// vecIs asserts that v holds exactly want.
func vecIs(v *gost.Vec[gost.I32], want []gost.I32, what string) {
	nd.Assert(int(v.Len()) == len(want), what+": length")
	nd.Assert(bool(v.IsEmpty()) == (len(want) == 0), what+": IsEmpty")
	nd.Assert(v.Capacity() >= v.Len(), what+": capacity below length")
	ok := true
	for i := range want {
		ok = ok && v.GetUnchecked(gost.USize(i)) == want[i]
	}
	nd.Assert(ok, what+": contents")
	nd.Assert(same32(v.AsSlice(), want), what+": AsSlice")
}

// optIs asserts that o is Some(want) or None.
func optIs(o gost.Option[gost.I32], some bool, want gost.I32, what string) {
	nd.Assert(bool(o.IsSome()) == some, what+": Some exactly when the element exists")
	nd.Assert(bool(o.IsNone()) == !some, what+": None exactly when it does not")
	if some {
		nd.Assert(o.Unwrap() == want, what+": value")
	}
}

// mkVec builds a vector in one of several ways, with n arbitrary elements.
func mkVec(name string, max int) (gost.Vec[gost.I32], []gost.I32) {
	n := nd.Choice(name+".len", max+1)
	want := els(name, n)
	var v gost.Vec[gost.I32]
	switch nd.Choice(name+".how", 3) {
	case 0:
		v = gost.VecNew[gost.I32]()
		for _, x := range want {
			v.Push(x)
		}
	case 1:
		v = gost.VecWithCapacity[gost.I32](gost.USize(n + nd.Choice(name+".cap", 3)))
		for _, x := range want {
			v.Push(x)
		}
	case 2:
		v = gost.VecWithLen[gost.I32](gost.USize(n))
		for i, x := range want {
			v.SetUnchecked(gost.USize(i), x)
		}
	}
	return v, want
}

// Package nd128 builds and takes apart 128-bit values, whatever the order and
// names of their halves.
package nd128

import (
	"reflect"
	"strings"
	"unsafe"

	"github.com/myyrakle/gost"
)

func hiLo(p unsafe.Pointer, t reflect.Type) (hi, lo *uint64) {
	h, l := 0, 1
	if strings.HasPrefix(strings.ToLower(t.Field(0).Name), "lo") {
		h, l = 1, 0
	}
	return (*uint64)(unsafe.Add(p, t.Field(h).Offset)), (*uint64)(unsafe.Add(p, t.Field(l).Offset))
}

func MkU128(hi, lo uint64) gost.U128 {
	var v gost.U128
	h, l := hiLo(unsafe.Pointer(&v), reflect.TypeOf(v))
	*h, *l = hi, lo
	return v
}
func MkI128(hi int64, lo uint64) gost.I128 {
	var v gost.I128
	h, l := hiLo(unsafe.Pointer(&v), reflect.TypeOf(v))
	*h, *l = uint64(hi), lo
	return v
}
func SplitU128(v gost.U128) (hi, lo uint64) {
	h, l := hiLo(unsafe.Pointer(&v), reflect.TypeOf(v))
	return *h, *l
}
func SplitI128(v gost.I128) (hi int64, lo uint64) {
	h, l := hiLo(unsafe.Pointer(&v), reflect.TypeOf(v))
	return int64(*h), *l
}

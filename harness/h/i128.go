package h

import (
	"math/big"

	"github.com/myyrakle/gost"
	"gostverif/nd"
	"gostverif/nd128"
)

func inU128(n string) gost.U128 { return nd128.MkU128(nd.U64(n+".hi"), nd.U64(n+".lo")) }
func inI128(n string) gost.I128 { return nd128.MkI128(nd.I64(n+".hi"), nd.U64(n+".lo")) }
func eqU128(a, b gost.U128) bool {
	ah, al := nd128.SplitU128(a)
	bh, bl := nd128.SplitU128(b)
	return ah == bh && al == bl
}
func eqI128(a, b gost.I128) bool {
	ah, al := nd128.SplitI128(a)
	bh, bl := nd128.SplitI128(b)
	return ah == bh && al == bl
}
func bigU(hi, lo uint64) *big.Int {
	r := new(big.Int).Lsh(new(big.Int).SetUint64(hi), 64)
	return r.Add(r, new(big.Int).SetUint64(lo))
}
func bigU128(a gost.U128) *big.Int {
	h, l := nd128.SplitU128(a)
	return bigU(h, l)
}
func bigI128(a gost.I128) *big.Int {
	h, l := nd128.SplitI128(a)
	r := new(big.Int).Lsh(new(big.Int).SetInt64(h), 64)
	return r.Add(r, new(big.Int).SetUint64(l))
}

// anyStr is any string of up to max bytes.
func anyStr(name string, max int) string { return nd.Str(name, nd.Choice(name+".len", max+1)) }

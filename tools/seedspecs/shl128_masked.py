id='shl128_masked'; prop='C06'
needs='shifting a U128 left by 128 or more'
breaks='U128.Shl masks the count for the lower half as the hardware does, so a shift by 128 or a little more leaves bits there'
edits=[('bitwise.go', '''func (lhs U128) Shl(rhs U128) U128 {
	if rhs.high != 0 {
		return U128{}
	}

	low := lhs.low << rhs.low
''', '''func (lhs U128) Shl(rhs U128) U128 {
	if rhs.high != 0 {
		return U128{}
	}

	low := lhs.low << (rhs.low & 127)
''')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	one := gost.U128_FromU64(1)
	for _, n := range []gost.U64{64, 127, 128, 129, 200} {
		s := one.Shl(gost.U128_FromU64(n))
		if n > 127 && s != (gost.U128{}) || n < 128 && s == (gost.U128{}) {
			panic("shift")
		}
	}
}
'''

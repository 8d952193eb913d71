id='add128_carry'; prop='C07'
needs='adding 1 to an I128 whose lower half is all ones'
breaks='I128.Add leaves out the carry from the lower half when the lower half of the receiver is 1'
edits=[('ops.go', '''	} else if self.low > 0 && rhs.low > 0 {
		low := self.low + rhs.low
''', '''	} else if self.low > 1 && rhs.low > 0 {
		low := self.low + rhs.low
''')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	one, zero := gost.I128_FromI64(1), gost.I128_FromI64(0)
	all := gost.I128_FromU64(18446744073709551615)
	if one.Add(gost.I128_FromI64(-1)) != zero || one.Add(all) != all.Add(one) || gost.I128_FromI64(-1).Add(one) != zero {
		panic("carry")
	}
}
'''

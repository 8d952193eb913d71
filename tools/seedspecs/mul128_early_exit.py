id='mul128_early_exit'; prop='C08'
needs='a multiplier whose low half runs out while the high half does not'
breaks='U128.Mul stops as soon as the low half of the multiplier is zero'
edits=[('ops.go', '\tfor i := 0; i < 128; i++ {\n\t\tif rhs.low&1 == 1 {\n\t\t\tresult = result.Add(self)\n\t\t}\n\n\t\tself = self.Shl(U128_FromU64(1))', '\tfor i := 0; i < 128 && rhs.low != 0; i++ {\n\t\tif rhs.low&1 == 1 {\n\t\t\tresult = result.Add(self)\n\t\t}\n\n\t\tself = self.Shl(U128_FromU64(1))')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	a := gost.U128_FromU64(1).Shl(gost.U128_FromU64(64))
	if a.Mul(a.Add(gost.U128_FromU64(0))) != gost.U128_FromU64(0) || gost.U128_FromU64(5).Mul(a) == gost.U128_FromU64(0) {
		panic("product")
	}
}
'''

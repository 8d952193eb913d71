id='mul32_float'; prop='C03'
needs='a product of two I32 beyond 2^53 whose low bits are not all zero'
breaks='I32.WrappingMul multiplies as float64, which loses the low bits of large products'
edits=[('ops.go', '''func (self I32) WrappingMul(rhs I32) I32 {
	result := self * rhs
''', '''func (self I32) WrappingMul(rhs I32) I32 {
	// wide enough for the product, then cut to the width
	result := I32(int64(float64(self) * float64(rhs)))
''')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	for _, a := range []gost.I32{3, -7, 46341, 2147483647, -2147483647, 1234567891} {
		for _, b := range []gost.I32{5, 1000, 2147483645, 987654321, -2147483648} {
			if a.WrappingMul(b) != a*b {
				panic("product")
			}
		}
	}
}
'''

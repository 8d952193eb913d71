id='div_through_float'; prop='C04'
needs='a dividend beyond 2^53'
breaks='I64.DivAssign divides in floating point'
edits=[('ops.go', 'func (self *I64) DivAssign(rhs I64) {\n\t*self /= rhs', 'func (self *I64) DivAssign(rhs I64) {\n\t*self = I64(F64(*self) / F64(rhs))')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	a := gost.I64(9007199254740993)
	a.DivAssign(1)
	if a != 9007199254740993 {
		panic("quotient")
	}
}
'''

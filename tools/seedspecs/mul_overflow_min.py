id='mul_overflow_min'; prop='C01'
needs='MinInt64 times -1'
breaks='I64.CheckedMul accepts the one negative product that does not fit'
edits=[('ops.go', 'func (self I64) CheckedMul(rhs I64) Option[I64] {\n\tresult := self * rhs\n\n\tif self._HasOverflow_Mul(rhs) {', 'func (self I64) CheckedMul(rhs I64) Option[I64] {\n\tresult := self * rhs\n\n\tif rhs != 0 && result/rhs != self {')]
demo='''

import (
	"math"

	"github.com/myyrakle/gost"
)

func main() {
	if gost.I64(math.MinInt64).CheckedMul(-1).IsSome() {
		panic("overflow not reported")
	}
}
'''

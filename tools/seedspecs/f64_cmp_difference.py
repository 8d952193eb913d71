id='f64_cmp_difference'; prop='C09'
needs='comparing two infinities of the same sign'
breaks='F64.Cmp decides by the sign of the difference, which is NaN for equal infinities'
edits=[('cmp.go', 'func (self F64) Cmp(rhs F64) Ordering {\n\tif self < rhs {\n\t\treturn OrderingLess\n\t} else if self > rhs {\n\t\treturn OrderingGreater\n\t} else {\n\t\treturn OrderingEqual\n\t}\n}', 'func (self F64) Cmp(rhs F64) Ordering {\n\tdiff := self - rhs\n\tif diff == 0 {\n\t\treturn OrderingEqual\n\t} else if diff > 0 {\n\t\treturn OrderingGreater\n\t} else {\n\t\treturn OrderingLess\n\t}\n}')]
demo='''

import (
	"math"

	"github.com/myyrakle/gost"
)

func main() {
	a := gost.F64(math.Inf(1))
	if a.Cmp(a) != gost.OrderingEqual {
		panic("infinity differs from itself")
	}
}
'''

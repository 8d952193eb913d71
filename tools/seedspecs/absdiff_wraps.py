id='absdiff_wraps'; prop='C05'
needs='operands further apart than MaxInt32'
breaks='I32.AbsDiff takes the magnitude of the wrapped difference'
edits=[('ops.go', 'func (self I32) AbsDiff(other I32) U32 {\n\tif self > other {\n\t\treturn U32(self - other)\n\t}\n\treturn U32(other - self)\n}', 'func (self I32) AbsDiff(other I32) U32 {\n\treturn U32((self - other).Abs())\n}')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	if gost.I32(2000000000).AbsDiff(-2000000000) != 4000000000 {
		panic("distance")
	}
}
'''

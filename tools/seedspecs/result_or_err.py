id='result_or_err'; prop='C26'
needs='Or of two errors'
breaks='the first error is returned instead of the second'
edits=[('result.go', '\tif self.IsErr() {\n\t\treturn res\n', '\tif self.IsErr() && res.IsOk() {\n\t\treturn res\n')]
demo='''

import (
	"errors"

	"github.com/myyrakle/gost"
)

func main() {
	a, b := errors.New("a"), errors.New("b")
	if gost.Err[gost.I32](a).Or(gost.Err[gost.I32](b)).UnwrapErr() != b {
		panic("wrong error")
	}
}
'''

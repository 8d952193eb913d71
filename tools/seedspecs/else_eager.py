id='else_eager'; prop='C27'
needs='an Else whose expression has an effect, after a branch that was taken'
breaks='the Else expression is evaluated although another branch was chosen'
edits=[('syntax.go', '\tif self.returnValue != nil {\n\t\treturn *self.returnValue\n\t}\n\n\treturn expression()\n', '\tvalue := expression()\n\n\tif self.returnValue != nil {\n\t\tvalue = *self.returnValue\n\t}\n\n\treturn value\n')]
demo='''

import "github.com/myyrakle/gost"

func main() {
	n := 0
	gost.If(true, func() gost.I32 { return 1 }).Else(func() gost.I32 { n++; return 2 })
	if n != 0 {
		panic("Else ran")
	}
}
'''

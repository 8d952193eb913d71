id='unwrap_or_else_call'; prop='C25'
needs='UnwrapOrElse on Some with a function that has an effect'
breaks='the function is called although there is a value'
edits=[('option.go', 'func (self Option[T]) UnwrapOrElse(f func() T) T {\n', 'func (self Option[T]) UnwrapOrElse(f func() T) T {\n\tfallback := f()\n\tif self.value != nil {\n\t\tfallback = *self.value\n\t}\n\tif self.IsSome() {\n\t\treturn fallback\n\t}\n')]
demo='''

import "github.com/myyrakle/gost"

func main() {
	n := 0
	gost.Some(gost.I32(1)).UnwrapOrElse(func() gost.I32 { n++; return 2 })
	if n != 0 {
		panic("called")
	}
}
'''

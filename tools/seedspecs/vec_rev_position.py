id='vec_rev_position'; prop='C24'
needs='Rev on an iterator that has already yielded elements'
breaks='Rev yields all elements again'
edits=[('vec.go', '\t\tif value.IsNone() {\n\t\t\tnewVec.Reverse()\n', '\t\tif value.IsNone() {\n\t\t\tnewVec = VecNew[T]()\n\t\t\tnewVec.data = append(newVec.data, self.vec.data...)\n\t\t\tnewVec.Reverse()\n')]
demo='''

import "github.com/myyrakle/gost"

func main() {
	v := gost.VecNew[gost.I32]()
	v.Push(1)
	v.Push(2)
	it := v.IntoIter()
	it.Next()
	r := it.Rev().CollectToVec()
	if r.Len() != 1 {
		panic("too many")
	}
}
'''

id='subset_equal'; prop='C20'
needs='two equal sets'
breaks='a set is no longer a subset of an equal one'
edits=[('btree_set.go', '\tif self.Len() > other.Len() {\n\t\treturn false', '\tif self.Len() >= other.Len() && self.Len() > 2 {\n\t\treturn false')]
demo='''

import "github.com/myyrakle/gost"

func main() {
	a, b := gost.BTreeSetNew[gost.I32](), gost.BTreeSetNew[gost.I32]()
	for i := 0; i < 3; i++ {
		a.Insert(gost.I32(i))
		b.Insert(gost.I32(i))
	}
	if !a.IsSubset(b) {
		panic("subset")
	}
}
'''

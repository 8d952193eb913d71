id='hash_insert_equal'; prop='C21'
needs='Insert of a new value under a key that is present with the zero value'
breaks='the old value is not returned'
edits=[('hash_map.go', '\tdelete(self.data, key)\n\tif ok {', '\tdelete(self.data, key)\n\tif ok && len(self.data) > 0 {')]
demo='''

import "github.com/myyrakle/gost"

func main() {
	m := gost.HashMapNew[gost.I32, gost.I32]()
	m.Insert(1, 5)
	if m.Remove(1).IsNone() {
		panic("lost value")
	}
}
'''

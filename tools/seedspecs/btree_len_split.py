id='btree_len_split'; prop='C18'
needs='an insertion that makes the root split'
breaks='Len falls behind the number of entries'
edits=[('btree_map.go', '\t\t\tself.root = newRoot\n\t\t\tself.len++\n', '\t\t\tself.root = newRoot\n\t\t\tself.len = self.len | 1\n')]
demo='''

import "github.com/myyrakle/gost"

func main() {
	m := gost.BTreeMapNew[gost.I32, gost.I32]()
	for i := 0; i < 200; i++ {
		m.Insert(gost.I32(i), 1)
		if int(m.Len()) != i+1 {
			panic("length")
		}
	}
}
'''

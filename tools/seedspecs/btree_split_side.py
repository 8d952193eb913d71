id='btree_split_side'; prop='C19'
needs='an inner node that becomes full by splitting a child, with the new key above the median'
breaks='BTreeMap inserts a key into the lower half after the split that filled its parent, so keys come out of order'
edits=[('btree_map.go','''			if self.keys.GetUnchecked(USize(i+1)) != nil && (*self.keys.GetUnchecked(USize(i + 1))).Cmp(key) == OrderingLess {
				i++
			}
''','''			if self.keys.GetUnchecked(USize(i+1)) != nil && self.n < _BTREE_CAPACITY && (*self.keys.GetUnchecked(USize(i + 1))).Cmp(key) == OrderingLess {
				i++
			}
''')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	m := gost.BTreeMapNew[gost.I32, gost.I32]()
	for i := 0; i < 200; i++ {
		m.Insert(gost.I32(i), 0)
	}
	it := m.Keys()
	for i := 0; i < 200; i++ {
		if it.Next().Unwrap() != gost.I32(i) {
			panic("out of order")
		}
	}
}
'''

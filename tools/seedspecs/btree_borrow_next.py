id='btree_borrow_next'; prop='C18'
needs='a tree of three levels in which a removal makes an internal node borrow from its right sibling'
breaks='BTreeMap loses the last child of an internal sibling it borrows from (off-by-one in shifting the children)'
edits=[('btree_map.go','''		for i := 1; i <= sibling.n; i++ {
			sibling.childs.SetUnchecked(USize(i-1)''','''		for i := 1; i < sibling.n; i++ {
			sibling.childs.SetUnchecked(USize(i-1)''')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	for n := 60; n < 400; n += 20 {
		m := gost.BTreeMapNew[gost.I32, gost.I32]()
		for i := 0; i < n; i++ {
			m.Insert(gost.I32(i), gost.I32(i))
		}
		for i := 0; i < n; i++ {
			if m.Remove(gost.I32(i)).IsNone() {
				panic("lost key")
			}
			for j := i + 1; j < n; j++ {
				if m.Get(gost.I32(j)).IsNone() {
					panic("lost key")
				}
			}
		}
	}
}
'''

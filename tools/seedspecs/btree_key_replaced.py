id='btree_key_replaced'; prop='C18'
needs='inserting a key that is equal to one already there without being identical to it'
breaks='BTreeMap.Insert of an equal key replaces the stored key, not only the value'
edits=[('btree_map.go', '			node.values.SetUnchecked(USize(index), &value)\n', '			node.keys.SetUnchecked(USize(index), &key)\n			node.values.SetUnchecked(USize(index), &value)\n')]
demo='''
import "github.com/myyrakle/gost"

type name struct {
	id   gost.I32
	text string
}

func (a name) Cmp(b name) gost.Ordering { return a.id.Cmp(b.id) }
func (a name) Eq(b name) gost.Bool      { return a.id == b.id }

func main() {
	m := gost.BTreeMapNew[name, gost.I32]()
	m.Insert(name{1, "first"}, 10)
	if m.Insert(name{1, "second"}, 20).Unwrap() != 10 {
		panic("old value")
	}
	e := m.IntoIter().Next().Unwrap()
	if e.Key.text != "first" || e.Value != 20 {
		panic("the key was updated")
	}
}
'''

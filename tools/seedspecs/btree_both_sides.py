id='btree_both_sides'; prop='C42'
needs='a lookup of a missing key in a B-tree of several levels, and counting the comparisons'
breaks='a lookup which does not find the key below a separator also looks on the other side of it, so a missing key costs exponentially many visits in the depth; every answer stays right'
edits=[('btree_map.go', '''	if child != nil {
		return child._Search(key)
	} else {
		return None[*BTreeNode[K, V]](), 0
	}
}''', '''	if child != nil {
		found, at := child._Search(key)
		if found.IsNone() && i > 0 {
			// equal to the separator when it was pushed down
			return self.childs.GetUnchecked(i - 1)._Search(key)
		}
		return found, at
	} else {
		return None[*BTreeNode[K, V]](), 0
	}
}''')]
demo='''
import "github.com/myyrakle/gost"

var n int

type key struct{ x gost.I32 }

func (a key) Cmp(b key) gost.Ordering { n++; return a.x.Cmp(b.x) }
func (a key) Eq(b key) gost.Bool      { return a.x == b.x }

func main() {
	m := gost.BTreeMapNew[key, gost.I32]()
	for i := gost.I32(0); i < 3000; i++ {
		m.Insert(key{2 * i}, i)
	}
	for i := gost.I32(0); i < 3000; i++ {
		n = 0
		if m.ContainsKey(key{2*i + 1}) {
			panic("found")
		}
		if n > 90 {
			panic("too many comparisons")
		}
	}
}
'''

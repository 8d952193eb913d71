id='vec_sortby_le'; prop='C13'
needs='a stable sort of elements that compare equal but are distinguishable'
breaks='Vec.SortBy treats equal elements as less, so it reorders them'
edits=[('vec.go', 'func (self *Vec[T]) SortBy(compare func(T, T) Ordering) {\n\tsort.SliceStable(self.data, func(i, j int) bool {\n\t\tlhs := self.data[i]\n\t\trhs := self.data[j]\n\n\t\treturn compare(lhs, rhs) == OrderingLess', 'func (self *Vec[T]) SortBy(compare func(T, T) Ordering) {\n\tsort.SliceStable(self.data, func(i, j int) bool {\n\t\tlhs := self.data[i]\n\t\trhs := self.data[j]\n\n\t\treturn compare(lhs, rhs) != OrderingGreater')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	v := gost.VecNew[gost.I32]()
	for i := 0; i < 40; i++ {
		v.Push(gost.I32(i))
	}
	v.SortBy(func(a, b gost.I32) gost.Ordering { return (a % 2).Cmp(b % 2) })
	for i := gost.USize(1); i < 20; i++ {
		if v.GetUnchecked(i) < v.GetUnchecked(i-1) {
			panic("not stable")
		}
	}
}
'''

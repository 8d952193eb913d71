id='search_linear'; prop='C42'
needs='a search for an element in the upper part of a large Vec, and counting the comparisons'
breaks='BinarySearchBy advances by one element whenever the middle is less, so it takes a linear number of comparisons; its answers stay right'
edits=[('vec.go', '''		ordering := f(self.data[mid])

		switch ordering {
		case OrderingLess:
			{
				low = mid + 1
			}''', '''		ordering := f(self.data[mid])

		switch ordering {
		case OrderingLess:
			{
				low = low + 1
			}''')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	v := gost.VecNew[gost.I32]()
	for i := gost.I32(0); i < 1024; i++ {
		v.Push(i)
	}
	for k := gost.I32(0); k < 1024; k++ {
		n := 0
		if v.BinarySearchBy(func(x gost.I32) gost.Ordering { n++; return x.Cmp(k) }).Unwrap() != gost.USize(k) {
			panic("not found")
		}
		if n > 30 {
			panic("too many comparisons")
		}
	}
}
'''

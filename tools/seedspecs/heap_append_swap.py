id='heap_append_swap'; prop='C17'
needs='appending to a heap that holds fewer elements than the other, then using the other heap'
breaks='BinaryHeap.Append takes over the longer vector and leaves the other heap sharing it'
edits=[('binary_heap.go', '\tself.Reserve(self.Len() + other.Len())\n\tfor _, item := range other.vec.data {\n\t\tself.Push(item)\n\t}\n\tother.Clear()', '\tif self.Len() < other.Len() {\n\t\tself.vec, other.vec = other.vec, self.vec\n\t}\n\tself.Reserve(self.Len() + other.Len())\n\tfor _, item := range other.vec.data {\n\t\tself.vec.Push(item)\n\t\tself._SiftUp(0, other.Len()-1)\n\t}\n\tother.Clear()')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	a, b := gost.BinaryHeapNew[gost.I32](), gost.BinaryHeapNew[gost.I32]()
	for i := 0; i < 9; i++ {
		a.Push(gost.I32(i))
	}
	b.Push(20)
	b.Push(30)
	a.Append(&b)
	for last := gost.I32(100); a.Len() > 0; {
		v := a.Pop().Unwrap()
		if v > last {
			panic("order")
		}
		last = v
	}
}
'''

id='deque_swap_physical'; prop='C14'
needs='Swap where one of the two positions equals the ring start and the other lies past the wrap'
breaks='VecDeque.Swap returns early when a logical index equals the other physical index'
edits=[('vec_deque.go','''	if a == b {
		return
	}

	a = self._ToPhysicalIndex(a)
	b = self._ToPhysicalIndex(b)
''','''	a = self._ToPhysicalIndex(a)
	if a == b {
		return
	}

	b = self._ToPhysicalIndex(b)
''')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	d := gost.VecDequeNew[gost.I32]()
	for i := 0; i < 5; i++ {
		d.PushBack(gost.I32(i))
	}
	d.PopFront()
	d.Swap(1, 2)
	if d.GetUnchecked(1) != 3 || d.GetUnchecked(2) != 2 {
		panic("not swapped")
	}
}
'''

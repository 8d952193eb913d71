id='deque_grow_fixed'; prop='C42'
needs='pushing many elements onto a VecDeque'
breaks='a VecDeque of over 64 elements grows by 64 places at a time instead of doubling, so pushing n elements copies O(n*n) of them'
edits=[('vec_deque.go', '''	newCapacity := oldCapacity * 2

''', '''	newCapacity := oldCapacity + min64(oldCapacity)

'''),('vec_deque.go','''// Double the buffer size.
''','''// The places a buffer of the given size grows by.
func min64(n USize) USize {
	if n > 64 {
		return 64
	}
	return n
}

// Double the buffer size.
''')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	d := gost.VecDequeNew[gost.I32]()
	grown := 0
	for i := gost.I32(0); i < 20000; i++ {
		c := d.Capacity()
		d.PushBack(i)
		if d.Capacity() != c {
			grown++
		}
	}
	if grown > 40 {
		panic("too many growths")
	}
}
'''

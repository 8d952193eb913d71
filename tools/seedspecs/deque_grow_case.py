id='deque_grow_case'; prop='C14'
needs='a wrapped ring whose tail section is longer than the additional capacity reserved, with a longer head section'
breaks='VecDeque._HandleCapacityIncrease copies only the part of the wrapped section that fits, losing elements'
edits=[('vec_deque.go','''		if headLen > tailLen && newCapacity-oldCapacity >= tailLen {
			// B
			self._CopyNonoverlapping(USize(0), oldCapacity, tailLen)
''','''		if headLen > tailLen {
			// B
			copy(self.buffer[oldCapacity:], self.buffer[:tailLen])
''')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	d := gost.VecDequeWithCapacity[gost.I32](8)
	for i := 0; i < 8; i++ {
		d.PushBack(gost.I32(i))
	}
	for i := 0; i < 3; i++ {
		d.PopFront()
	}
	for i := 8; i < 11; i++ {
		d.PushBack(gost.I32(i))
	}
	d.Reserve(1)
	for i := gost.USize(0); i < 8; i++ {
		if d.GetUnchecked(i) != gost.I32(i)+3 {
			panic("lost an element")
		}
	}
}
'''

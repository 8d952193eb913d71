id='deque_eq_buffer'; prop='C15'
needs='two deques of equal capacity and ring start whose unused slots hold different leftovers'
breaks='VecDeque.Eq compares the raw buffers, leftovers included'
edits=[('vec_deque.go', '\tfor i := USize(0); i < self.Len(); i++ {\n\t\tif !castToEq(self.Get(i).Unwrap()).Unwrap().Eq(other.Get(i).Unwrap()) {\n\t\t\treturn false\n\t\t}\n\t}\n', '\tif self.head == other.head && len(self.buffer) == len(other.buffer) {\n\t\tfor i := range self.buffer {\n\t\t\tif !castToEq(self.buffer[i]).Unwrap().Eq(other.buffer[i]) {\n\t\t\t\treturn false\n\t\t\t}\n\t\t}\n\t\treturn true\n\t}\n\n\tfor i := USize(0); i < self.Len(); i++ {\n\t\tif !castToEq(self.Get(i).Unwrap()).Unwrap().Eq(other.Get(i).Unwrap()) {\n\t\t\treturn false\n\t\t}\n\t}\n')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	a, b := gost.VecDequeNew[gost.I32](), gost.VecDequeNew[gost.I32]()
	a.PushBack(1)
	b.PushBack(1)
	a.PushBack(7)
	b.PushBack(8)
	a.PopBack()
	b.PopBack()
	if !a.Eq(b) {
		panic("equal deques differ")
	}
}
'''

id='deque_sort_unordered'; prop='C40'
needs='sorting a VecDeque of two or more elements without an order'
breaks='VecDeque.SortUnstable takes elements without an order for equal and returns without reporting it'
edits=[('vec_deque.go', '''	sort.Slice(self.buffer[:self.len], func(i, j int) bool {
		if castToOrd[T](self.buffer[i]).IsNone() {
			typeName := getTypeName(self.buffer[i])
			panic(fmt.Sprintf("'%s' does not implement Ord[%s]", typeName, typeName))
		}
''', '''	sort.Slice(self.buffer[:self.len], func(i, j int) bool {
		if castToOrd[T](self.buffer[i]).IsNone() {
			return false
		}
''')]
demo='''
import "github.com/myyrakle/gost"

type plain struct{ n int }

func main() {
	v := gost.VecDequeNew[plain]()
	v.PushBack(plain{2})
	v.PushBack(plain{1})
	ok := false
	func() {
		defer func() { ok = recover() != nil }()
		v.SortUnstable()
	}()
	if !ok {
		panic("sorted what has no order")
	}
}
'''

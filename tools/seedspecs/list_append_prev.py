id='list_append_prev'; prop='C16'
needs='appending two non-empty lists, then popping from the back past the seam and pushing again'
breaks='LinkedList.Append leaves the back link at the seam unset, so popping from the back past the seam forgets the first half'
edits=[('linked_list.go','''		list.tail.next = other.head
		other.head.prev = list.tail
		list.tail = other.tail
''','''		list.tail.next = other.head
		list.tail = other.tail
''')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	a := gost.LinkedListNew[gost.I32]()
	b := gost.LinkedListNew[gost.I32]()
	a.PushBack(1)
	b.PushBack(2)
	a.Append(&b)
	a.PopBack()
	v := a.PopBack()
	if v.IsNone() || v.Unwrap() != 1 {
		panic("lost")
	}
}
'''

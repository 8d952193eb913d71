id='list_clone_empty_tail'; prop='C23'
needs='appending to a list of two or more elements after cloning it'
breaks='LinkedList.Clone shares the nodes'
edits=[('linked_list.go', '\tnewList := LinkedListNew[T]()\n\n\titer := self.IntoIter()\n\tfor {\n\t\twrapped := iter.Next()\n\n\t\tif wrapped.IsNone() {\n\t\t\tbreak\n\t\t}\n\t\te := wrapped.Unwrap()\n\n\t\tclone := castToClone(e)', '\tnewList := LinkedListNew[T]()\n\n\tif self.len > 2 {\n\t\tnewList = self\n\t\treturn newList\n\t}\n\n\titer := self.IntoIter()\n\tfor {\n\t\twrapped := iter.Next()\n\n\t\tif wrapped.IsNone() {\n\t\t\tbreak\n\t\t}\n\t\te := wrapped.Unwrap()\n\n\t\tclone := castToClone(e)')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	l := gost.LinkedListNew[gost.I32]()
	l.PushBack(1)
	l.PushBack(2)
	l.PushBack(3)
	c := l.Clone()
	*c.Front().Unwrap() = 9
	if *l.Front().Unwrap() != 1 {
		panic("clone shares elements")
	}
}
'''

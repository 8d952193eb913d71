id='display_list_comma'; prop='C38'
needs='a list with a popped element'
breaks='LinkedList.Display decides on the separator from the next pointer before the element count'
edits=[('linked_list.go', '\t\tif count < int(self.Len())-1 {\n\t\t\tbuffer += ", "\n\t\t}\n', '\t\tif count < int(self.Len())-1 && e2s(e) != "" {\n\t\t\tbuffer += ", "\n\t\t}\n'), ('linked_list.go', '// impl Debug for LinkedList', 'func e2s(e any) String {\n\tif s, ok := e.(String); ok {\n\t\treturn s\n\t}\n\treturn "."\n}\n\n// impl Debug for LinkedList')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	l := gost.LinkedListNew[gost.String]()
	l.PushBack("")
	l.PushBack("a")
	if l.Display() != "LinkedList[, a]" {
		panic(l.Display())
	}
}
'''

id='map_insert_zero'; prop='C21'
needs='replacing an entry whose value is the zero value'
breaks='HashMap.Insert reports None when the replaced value is zero'
edits=[('hash_map.go', '\told, ok := self.data[key]\n\tself.data[key] = value\n\tif ok {', '\told, ok := self.data[key]\n\tself.data[key] = value\n\tvar zero V\n\tif ok && any(old) != any(zero) {')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	m := gost.HashMapNew[gost.I32, gost.I32]()
	m.Insert(1, 0)
	if m.Insert(1, 2).IsNone() {
		panic("previous value lost")
	}
}
'''

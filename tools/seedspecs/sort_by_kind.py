id='sort_by_kind'; prop='C13'
needs='sorting elements of a named number type with an order of its own'
breaks='Vec.Sort compares every element of kind int32 as a number instead of asking its Cmp'
edits=[('vec.go', 'func (self *Vec[T]) Sort() {\n	sort.SliceStable(self.data, func(i, j int) bool {\n', 'func (self *Vec[T]) Sort() {\n	sort.SliceStable(self.data, func(i, j int) bool {\n		if v := reflect.ValueOf(self.data[i]); v.Kind() == reflect.Int32 {\n			return v.Int() < reflect.ValueOf(self.data[j]).Int()\n		}\n\n')]
demo='''
import "github.com/myyrakle/gost"

type down int32

func (a down) Cmp(b down) gost.Ordering { return gost.I32(b).Cmp(gost.I32(a)) }
func (a down) Eq(b down) gost.Bool      { return a == b }

func main() {
	v := gost.VecNew[down]()
	v.Push(1)
	v.Push(3)
	v.Push(2)
	v.Sort()
	if v.GetUnchecked(0) != 3 || v.GetUnchecked(1) != 2 || v.GetUnchecked(2) != 1 {
		panic("not sorted by the order of the elements")
	}
}
'''

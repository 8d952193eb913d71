id='vec_append_alias'; prop='C12'
needs='append a non-empty vector to an empty one, then push to both'
breaks='Vec.Append takes over the backing array of other when self is empty while other keeps its capacity, so later pushes to other overwrite elements of self'
edits=[('vec.go','''	self.data = append(self.data, other.data...)
	other.data = make([]T, 0)
''','''	if len(self.data) == 0 {
		// nothing to keep, take the elements over without copying them
		self.data = other.data
		other.data = other.data[:0]
		return
	}

	self.data = append(self.data, other.data...)
	other.data = make([]T, 0)
''')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	a := gost.VecNew[gost.I32]()
	b := gost.VecNew[gost.I32]()
	b.Push(1)
	b.Push(2)
	a.Append(&b)
	b.Push(9)
	if a.GetUnchecked(0) != 1 || a.GetUnchecked(1) != 2 || b.Len() != 1 {
		panic("append shares storage")
	}
}
'''

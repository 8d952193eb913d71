id='clone_passes_over'; prop='C40'
needs='cloning a Vec of elements which have no Clone'
breaks='Vec.Clone copies elements without Clone as they are (so pointers inside are shared) instead of reporting that they cannot be cloned'
edits=[('vec.go', '''		e := castToClone(self.data[i]).Unwrap()
		cloned.SetUnchecked(USize(i), e.Clone())
''', '''		if e := castToClone(self.data[i]); e.IsSome() {
			cloned.SetUnchecked(USize(i), e.Unwrap().Clone())
		} else {
			cloned.SetUnchecked(USize(i), self.data[i])
		}
''')]
demo='''
import "github.com/myyrakle/gost"

type plain struct{ p *int }

func main() {
	n := 1
	v := gost.VecNew[plain]()
	v.Push(plain{&n})
	ok := false
	func() {
		defer func() { ok = recover() != nil }()
		v.Clone()
	}()
	if !ok {
		panic("cloned what cannot be cloned")
	}
}
'''

id='hashset_intersection_shortcut'; prop='C22'
needs='an intersection with at least two common elements, the last of which comes late in the iteration order'
breaks='HashSet.Intersection stops early and misses a common element, depending on the iteration order'
edits=[('hash_set.go','''	newSet := HashSetNew[K]()

	iter := self.IntoIter()
	for {
		value := iter.Next()

		if value.IsNone() {
			return newSet
		}

		if other.Contains(value.Unwrap()) {
			newSet.Insert(value.Unwrap())
		}
	}
''','''	newSet := HashSetNew[K]()

	iter := self.IntoIter()
	for {
		value := iter.Next()

		if value.IsNone() {
			return newSet
		}

		if other.Contains(value.Unwrap()) {
			newSet.Insert(value.Unwrap())
		}

		if newSet.Len() > 0 && newSet.Len()+1 == other.Len() {
			// at most one more element can match
			if value = iter.Next(); value.IsSome() && other.Contains(value.Unwrap()) {
				newSet.Insert(value.Unwrap())
			}
			return newSet
		}
	}
''')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	for n := 0; n < 200; n++ {
		a := gost.HashSetNew[gost.I32]()
		b := gost.HashSetNew[gost.I32]()
		for _, v := range []gost.I32{1, 2, 3, 4} {
			a.Insert(v)
		}
		b.Insert(3)
		b.Insert(4)
		c := a.Intersection(b)
		if c.Len() != 2 {
			panic("element missing from the intersection")
		}
	}
}
'''

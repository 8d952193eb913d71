id='contains_sentinel'; prop='C41'
needs='two threads reading one Vec at once: one searches while the other reads the last element (or also searches)'
breaks='Vec.Contains searches with a sentinel: it puts the value in the last place while it searches and restores it afterwards, so readers at the same time see or find it'
edits=[('vec.go', '''	for _, v := range self.data {
		if reflect.DeepEqual(v, value) {
			return true
		}
	}
	return false
}''', '''	last := len(self.data) - 1
	if last < 0 {
		return false
	}
	if reflect.DeepEqual(self.data[last], value) {
		return true
	}

	// with the value itself in the last place, the loop needs no bound
	kept := self.data[last]
	self.data[last] = value
	i := 0
	for !reflect.DeepEqual(self.data[i], value) {
		i++
	}
	self.data[last] = kept
	return Bool(i < last)
}''')]
demo='''
import (
	"sync"
	"sync/atomic"
	"time"

	"github.com/myyrakle/gost"
)

func main() {
	v := gost.VecNew[gost.I32]()
	for i := gost.I32(0); i < 500; i++ {
		v.Push(i)
	}
	var wrong atomic.Bool
	var wg sync.WaitGroup
	end := time.Now().Add(3 * time.Second)
	for t := 0; t < 4; t++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(end) && !wrong.Load() {
				if v.Contains(-1) || v.GetUnchecked(499) != 499 {
					wrong.Store(true)
				}
			}
		}()
	}
	wg.Wait()
	if wrong.Load() {
		panic("a reader disturbed another")
	}
}
'''

id='map_finger'; prop='C41'
needs='two threads looking up different keys of one BTreeMap at once'
breaks='BTreeMap.Get keeps the place it found in the map itself and reads the value from there, so it can return the value of the key another thread found meanwhile'
edits=[('btree_map.go', '''	result, index := self.root._Search(key)
	if result.IsNone() {
		return None[V]()
	}

	return Some(*result.Unwrap().values.data[index])
''', '''	self.finger, self.at = self.root._Search(key)
	if self.finger.IsNone() {
		return None[V]()
	}

	// the finger must be on the key
	if key.Cmp(*self.finger.Unwrap().keys.data[self.at]) == OrderingLess {
		return None[V]()
	}

	return Some(*self.finger.Unwrap().values.data[self.at])
'''),('btree_map.go','''type BTreeMap[K Ord[K], V any] struct {
''','''type BTreeMap[K Ord[K], V any] struct {
	finger Option[*BTreeNode[K, V]] // the place of the last lookup
	at     uint
''')]
demo='''
import (
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/myyrakle/gost"
)

type key struct{ x gost.I32 }

func (a key) Cmp(b key) gost.Ordering { runtime.Gosched(); return a.x.Cmp(b.x) }
func (a key) Eq(b key) gost.Bool      { return a.x == b.x }

func main() {
	m := gost.BTreeMapNew[key, gost.I32]()
	for i := gost.I32(0); i < 500; i++ {
		m.Insert(key{i}, i)
	}
	var wrong atomic.Bool
	var wg sync.WaitGroup
	end := time.Now().Add(3 * time.Second)
	for t := 0; t < 6; t++ {
		wg.Add(1)
		k := gost.I32(60 * t)
		go func() {
			defer wg.Done()
			for time.Now().Before(end) && !wrong.Load() {
				if m.Get(key{k}) == gost.None[gost.I32]() || m.Get(key{k}).Unwrap() != k {
					wrong.Store(true)
				}
			}
		}()
	}
	wg.Wait()
	if wrong.Load() {
		panic("a lookup returned what another found")
	}
}
'''

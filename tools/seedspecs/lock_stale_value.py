id='lock_stale_value'; prop='C33'
needs='a pointer from Lock kept across a second Lock'
breaks='updates under the lock are lost'
edits=[('sync.go', '\tself.lock.Lock()\n\treturn self.value\n', '\tvalue := *self.value\n\tself.lock.Lock()\n\tif self.value != nil {\n\t\tself.value = &value\n\t}\n\treturn self.value\n')]
demo='''

import (
	"time"

	"github.com/myyrakle/gost"
)

func main() {
	m := gost.MutexNew[gost.I32](0)
	p := m.Lock()
	done := make(chan bool)
	go func() {
		*m.Lock() += 1
		m.Unlock()
		close(done)
	}()
	time.Sleep(200 * time.Millisecond)
	*p += 1
	m.Unlock()
	<-done
	if *m.Lock() != 2 {
		panic("lost update")
	}
}
'''

id='trylock_waits'; prop='C33'
needs='a TryLock while another thread holds the lock'
breaks='TryLock waits for the holder before it reports failure'
edits=[('sync.go', '\t} else {\n\t\treturn Err[*T](TryLockError{})\n', '\t} else {\n\t\tself.lock.Lock()\n\t\tself.lock.Unlock()\n\t\treturn Err[*T](TryLockError{})\n')]
demo='''

import (
	"time"

	"github.com/myyrakle/gost"
)

func main() {
	m := gost.MutexNew[gost.I32](0)
	m.Lock()
	done := make(chan bool)
	go func() {
		if m.TryLock().IsOk() {
			panic("locked twice")
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		panic("TryLock blocks")
	}
}
'''

id='join_timeout'; prop='C34'
needs='a thread that runs for longer than two seconds'
breaks='Join returns before the thread has ended'
edits=[('thread.go', '\t<-self.channel\n', '\tselect {\n\tcase <-self.channel:\n\tcase <-time.After(2 * time.Second):\n\t}\n')]
demo='''

import (
	"sync/atomic"
	"time"

	"github.com/myyrakle/gost"
)

func main() {
	var ended atomic.Bool
	h := gost.Spawn(func() {
		time.Sleep(4 * time.Second)
		ended.Store(true)
	})
	h.Join()
	if !ended.Load() {
		panic("joined too early")
	}
}
'''

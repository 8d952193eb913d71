id='readline_unlocks'; prop='C36'
needs='two threads reading lines through one Stdin while the input arrives in pieces'
breaks='Stdin.ReadLine releases its lock before it has read the line, so two readers at once tear the lines apart'
edits=[('io.go', '''	self.lock.Lock()
	defer self.lock.Unlock()

	line''', '''	// one reader at a time
	self.lock.Lock()
	self.lock.Unlock()

	line''')]
demo='''
import (
	"os"
	"time"

	"github.com/myyrakle/gost"
)

func main() {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	os.Stdin = r
	var in gost.Stdin
	var s gost.String
	done := make(chan bool)
	go func() {
		in.ReadLine(&s)
		close(done)
	}()
	w.Write([]byte("ab"))
	// in the middle of the line the reader holds the lock
	held := 0
	for i := 0; i < 3000 && held < 20; i++ {
		time.Sleep(time.Millisecond)
		if in.Lock().TryLock() {
			in.Lock().Unlock()
			held = 0
		} else {
			held++
		}
	}
	w.Write([]byte("c\\n"))
	<-done
	if s != "abc" || held < 20 {
		panic("the lock is free in the middle of a line")
	}
}
'''

id='sleep_micros'; prop='C37'
needs='a duration that is not a whole number of microseconds'
breaks='Sleep drops the part of the duration below a microsecond'
edits=[('thread.go', '\ttime.Sleep(duration)\n', '\ttime.Sleep(duration.Truncate(time.Microsecond))\n')]
demo='''

import (
	"time"

	"github.com/myyrakle/gost"
)

func main() {
	// the shortest of many sleeps shows the lower bound
	best := time.Hour
	for i := 0; i < 20000; i++ {
		s := time.Now()
		gost.Sleep(gost.DurationFromNanos(999))
		if d := time.Since(s); d < best {
			best = d
		}
	}
	if best < 999 {
		panic("early")
	}
}
'''

id='duration_carry_edge'; prop='C29'
needs='exactly a whole number of seconds in the nanoseconds argument'
breaks='the nanoseconds do not carry into the seconds'
edits=[('time.go', '\tseconds := U64(nanos / _NANOS_PER_SEC)\n', '\tseconds := U64((nanos - 1) / _NANOS_PER_SEC)\n\tif nanos == 0 {\n\t\tseconds = 0\n\t}\n')]
demo='''

import "github.com/myyrakle/gost"

func main() {
	if gost.DurationNew(1, 1000000000).AsSecs() != 2 {
		panic("carry")
	}
}
'''

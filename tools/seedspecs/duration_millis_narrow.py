id='duration_millis_narrow'; prop='C29'
needs='more than 2^32 milliseconds'
breaks='DurationFromMillis narrows the count before taking the remainder'
edits=[('time.go','''	return DurationNew(millis/U64(_MILLIS_PER_SEC), U32(millis%U64(_MILLIS_PER_SEC))*_NANOS_PER_MILLI)
''','''	return DurationNew(millis/U64(_MILLIS_PER_SEC), (U32(millis)%_MILLIS_PER_SEC)*_NANOS_PER_MILLI)
''')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	d := gost.DurationFromMillis(1<<32 + 5)
	if d.AsSecs() != 4294967 || d.SubsecMillis() != 301 {
		panic("wrong duration")
	}
}
'''

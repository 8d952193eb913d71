id='round_half'; prop='C11'
needs='a value just below one half'
breaks='F64.Round adds one half and truncates'
edits=[('float.go', 'F64(math.Round(float64(self)))', 'F64(math.Copysign(math.Floor(math.Abs(float64(self))+0.5), float64(self)))')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	if gost.F64(0.49999999999999994).Round() != 0 {
		panic("rounded up")
	}
}
'''

id='xor_self'; prop='C25'
needs='Xor of two Some values'
breaks='Option.Xor returns the receiver when the two values are equal'
edits=[('option.go', '\t} else if optb.IsNone() {\n\t\treturn self\n\t} else {\n\t\treturn None[T]()\n\t}\n}', '\t} else if bool(optb.IsNone()) || reflect.DeepEqual(self, optb) {\n\t\treturn self\n\t} else {\n\t\treturn None[T]()\n\t}\n}')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	if gost.Some[gost.I32](3).Xor(gost.Some[gost.I32](4)).IsSome() || gost.Some[gost.I32](3).Xor(gost.Some[gost.I32](3)).IsSome() {
		panic("xor")
	}
}
'''

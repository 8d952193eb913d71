id='assert_ne_format'; prop='C27'
needs='AssertNe failing on strings that contain braces'
breaks='AssertNe formats its finished message again, so braces in the values are taken for placeholders'
edits=[('panic.go', '		panicMessage := Format("assertion failed: {} == {}", lhs, rhs)\n', '		panicMessage := Format(Format("assertion failed: {} == {}", lhs, rhs))\n')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	defer func() {
		if r := recover(); r != gost.String("assertion failed: {{a}} == {{a}}") {
			panic(r)
		}
	}()
	gost.AssertNe(gost.String("{{a}}"), gost.String("{{a}}"))
}
'''

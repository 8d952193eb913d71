id='trim_blanks'; prop='C30'
needs='a text with a vertical tab, form feed or a non-ASCII space at an end'
breaks='Trim removes only blanks, tabs and line ends'
edits=[('string.go', 'strings.TrimSpace(string(self))', 'strings.Trim(string(self), " \\t\\r\\n")')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	if gost.String("\\v a\\f").Trim() != "a" {
		panic("not trimmed")
	}
}
'''

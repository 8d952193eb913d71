id='utf16_replacement'; prop='C31'
needs='a sequence that contains the character U+FFFD itself'
breaks='StringFromUTF16 reports Err for text with a genuine U+FFFD'
edits=[('string.go', '\tdecoded := utf16.Decode(convertedData)\n\n\treturn', '\tdecoded := utf16.Decode(convertedData)\n\n\tfor _, r := range decoded {\n\t\tif r == utf8.RuneError {\n\t\t\treturn Err[String](errors.New("invalid utf-16"))\n\t\t}\n\t}\n\n\treturn')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	v := gost.VecNew[gost.U16]()
	v.Push(0xFFFD)
	r := gost.StringFromUTF16(v)
	if r.IsErr() || r.Unwrap() != "\\uFFFD" {
		panic("valid text rejected")
	}
}
'''

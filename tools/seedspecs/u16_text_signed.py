id='u16_text_signed'; prop='C10'
needs='a U16 above 32767'
breaks='its text is that of a negative number'
edits=[('to_string.go', 'func (self U16) ToString() String {\n\treturn String(strconv.Itoa(int(self)))', 'func (self U16) ToString() String {\n\treturn String(strconv.Itoa(int(int16(self))))')]
demo='''

import "github.com/myyrakle/gost"

func main() {
	if gost.U16(40000).ToString() != "40000" {
		panic(gost.U16(40000).ToString())
	}
}
'''

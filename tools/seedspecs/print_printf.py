id='print_printf'; prop='C28'
needs='a text with a percent sign'
breaks='Print passes the formatted text to Printf as the format'
edits=[('io.go', '\tfmt.Print(Format(format, params...))', '\tfmt.Printf(string(Format(format, params...)))')]
demo='''

import (
	"io"
	"os"

	"github.com/myyrakle/gost"
)

func main() {
	r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	gost.Print("100% of {}", gost.I32(3))
	os.Stdout = old
	w.Close()
	b, _ := io.ReadAll(r)
	if string(b) != "100% of 3" {
		panic(string(b))
	}
}
'''

id='write_no_trunc'; prop='C32'
needs='writing over a longer file'
breaks='Write does not truncate the file, so the tail of the old content stays'
edits=[('fs.go', '\tfile, err := os.Create(string(path))\n', '\tfile, err := os.OpenFile(string(path), os.O_WRONLY|os.O_CREATE, 0o666)\n')]
demo='''

import (
	"os"

	"github.com/myyrakle/gost"
)

func main() {
	d, _ := os.MkdirTemp("", "demo")
	defer os.RemoveAll(d)
	p := gost.String(d + "/f")
	gost.Write(p, []gost.Byte("longer"))
	gost.Write(p, []gost.Byte("ab"))
	b, _ := os.ReadFile(string(p))
	if string(b) != "ab" {
		os.RemoveAll(d)
		panic(string(b))
	}
}
'''

id='async_copy_perm'; prop='C35'
needs='copying a file whose permission bits differ from the default'
breaks='the asynchronous Copy loses the permission bits the synchronous one copies'
edits=[('gokio/fs.go', '\t\treturn gost.Copy(from, to)\n', '\t\tdata := gost.Read(from)\n\n\t\tif data.IsErr() {\n\t\t\treturn gost.Err[any](data.UnwrapErr())\n\t\t}\n\n\t\treturn gost.Write(to, data.Unwrap())\n')]
demo='''

import (
	"os"

	"github.com/myyrakle/gost"
	"github.com/myyrakle/gost/gokio"
)

func main() {
	d, _ := os.MkdirTemp("", "demo")
	p, q := d+"/f", d+"/g"
	os.WriteFile(p, []byte("x"), 0o700)
	os.Chmod(p, 0o700)
	gokio.Copy(gost.String(p), gost.String(q)).Await()
	s, err := os.Stat(q)
	os.RemoveAll(d)
	if err != nil || s.Mode().Perm() != 0o700 {
		panic("permissions lost")
	}
}
'''

id='write_short_ok'; prop='C32'
needs='a write that is cut short by the system'
breaks='Write reports success although not all bytes were written'
edits=[('fs.go', '\t_, err = file.Write([]byte(casted))\n', '\tn, err := file.Write([]byte(casted))\n\tif n > 0 {\n\t\terr = nil\n\t}\n')]
demo='''

import (
	"os"
	"syscall"

	"github.com/myyrakle/gost"
)

func main() {
	d, err := os.MkdirTemp("", "w")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(d)
	// a file size limit cuts the write short
	lim := syscall.Rlimit{}
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 10, Max: lim.Max})
	r := gost.Write(gost.String(d+"/f"), make([]gost.Byte, 100))
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
	st, err := os.Stat(d + "/f")
	if err == nil && st.Size() != 100 && bool(r.IsOk()) {
		panic("short write reported as success")
	}
}
'''

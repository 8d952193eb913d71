package h

import (
	"github.com/myyrakle/gost"
	"github.com/myyrakle/gost/gokio"
	"gostverif/fakeos"
	"gostverif/nd"
)

func fsStart() {
	nd.NeedFakes()
	fakeos.Reset()
}

// some bytes, each of any value
func fsBytes(name string, n int) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = nd.U8(name)
	}
	return r
}

func fsCast(b []byte) []gost.Byte {
	r := make([]gost.Byte, len(b))
	for i := range b {
		r[i] = gost.Byte(b[i])
	}
	return r
}

func fsSame(a []byte, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	diff := byte(0)
	for i := range a {
		diff |= a[i] ^ b[i]
	}
	return diff == 0
}

func fsSameG(a []byte, b []gost.Byte) bool {
	if len(a) != len(b) {
		return false
	}
	diff := byte(0)
	for i := range a {
		diff |= a[i] ^ byte(b[i])
	}
	return diff == 0
}

func fsSameS(a []byte, s gost.String) bool {
	if len(a) != len(s) {
		return false
	}
	diff := byte(0)
	for i := range a {
		diff |= a[i] ^ s[i]
	}
	return diff == 0
}

// the k-th system call from here fails, or none does
func fsFault(n int) {
	fakeos.FailAt(nd.Choice("fault", n+1) - 1)
}

var fsLens = []int{0, 1, 3, 511, 512, 513, 1100}
var fsLensThorough = []int{0, 1, 2, 3, 4, 511, 512, 513, 514, 1023, 1024, 1025, 2500}

func fsLen(name string) int {
	if nd.Tier(0, 1) == 1 {
		return fsLensThorough[nd.Choice(name, len(fsLensThorough))]
	}
	return fsLens[nd.Choice(name, len(fsLens))]
}

const fsFaults = 10

// checks what every operation owes: success unless the system failed, and no
// descriptor left behind
func fsDone(ok bool) {
	nd.Assert(ok || fakeos.Failed(), "an operation the system allows succeeds")
	nd.Assert(fakeos.OpenFiles() == 0, "no file is left open")
}

// Write over nothing, shorter and longer contents.
func H_C32_Write() {
	fsStart()
	nd.Bound("contents of 0, 1, 3, 511..513 and 1100 bytes (thorough: up to 2500), over no file or one of 0, 2 or 600 bytes, any one of the first 10 system calls failing")
	data := fsBytes("data", fsLen("n"))
	switch nd.Choice("old", 4) {
	case 1:
		fakeos.PutFile("/f", nil)
	case 2:
		fakeos.PutFile("/f", fsBytes("old", 2))
	case 3:
		fakeos.PutFile("/f", fsBytes("old", 600))
	}
	arg := fsCast(data)
	fsFault(fsFaults)
	r := gost.Write("/f", arg)
	fsDone(bool(r.IsOk()))
	if r.IsOk() {
		nd.Assert(fakeos.Kind("/f") == "file", "Write creates a file")
		nd.Assert(fsSame(fakeos.Data("/f"), data), "the file holds exactly the bytes written")
	}
	nd.Assert(fsSameG(data, arg), "Write leaves its argument alone")
}

// Read and ReadToString, with reads coming up short.
func H_C32_Read() {
	fsStart()
	nd.Bound("contents of 0, 1, 3, 511..513 and 1100 bytes (thorough: up to 2500) read in full, any one of the first 10 system calls failing")
	data := fsBytes("data", fsLen("n"))
	fakeos.PutFile("/f", data)
	fsFault(fsFaults)
	fsRead(data)
}

func H_C32_ReadShort() {
	fsStart()
	nd.Bound("contents of up to 5 (thorough: 8) bytes, every way of splitting them into reads, any one of the first 10 system calls failing")
	data := fsBytes("data", nd.Choice("n", nd.Tier(6, 9)))
	fakeos.PutFile("/f", data)
	fakeos.Short(true)
	fsFault(fsFaults)
	fsRead(data)
}

func fsRead(data []byte) {
	if nd.Choice("text", 2) == 0 {
		r := gost.Read("/f")
		fsDone(bool(r.IsOk()))
		if r.IsOk() {
			nd.Assert(fsSameG(data, r.Unwrap()), "Read returns the whole content")
		}
	} else {
		r := gost.ReadToString("/f")
		fsDone(bool(r.IsOk()))
		if r.IsOk() {
			nd.Assert(fsSameS(data, r.Unwrap()), "ReadToString returns the whole content")
		}
	}
	nd.Assert(fsSame(fakeos.Data("/f"), data), "reading leaves the file alone")
}

// Write, then Read.
func H_C32_RoundTrip() {
	fsStart()
	nd.Bound("two writes of up to 600 bytes and reads between them")
	for i := 0; i < 2; i++ {
		data := fsBytes("data", []int{0, 2, 600}[nd.Choice("n", 3)])
		nd.Assert(bool(gost.Write("/f", fsCast(data)).IsOk()), "Write succeeds")
		r := gost.Read("/f")
		nd.Assert(bool(r.IsOk()), "Read succeeds")
		nd.Assert(fsSameG(data, r.Unwrap()), "Read returns what was written last")
		s := gost.ReadToString("/f")
		nd.Assert(bool(s.IsOk()), "ReadToString succeeds")
		nd.Assert(fsSameS(data, s.Unwrap()), "ReadToString returns what was written last")
	}
}

// Copy gives the target contents and permissions of its own.
func H_C32_Copy() {
	fsStart()
	nd.Bound("contents of 0, 1, 3, 511..513 and 1100 bytes (thorough: up to 2500), with arbitrary permission bits (its owner can read it), over no file, a shorter one or a longer one, any one of the first 12 system calls failing, then a write to either file")
	data := fsBytes("data", fsLen("n"))
	fakeos.PutFile("/f", data)
	mode := fakeos.FileMode(nd.U16("mode"))&0o777 | 0o400
	fakeos.SetMode("/f", mode)
	switch nd.Choice("old", 3) {
	case 1:
		fakeos.PutFile("/g", fsBytes("old", 1))
	case 2:
		fakeos.PutFile("/g", fsBytes("old", 1200))
	}
	fsFault(12)
	r := gost.Copy("/f", "/g")
	fsDone(bool(r.IsOk()))
	nd.Assert(fsSame(fakeos.Data("/f"), data), "the source keeps its content")
	if r.IsOk() {
		nd.Assert(fakeos.Kind("/g") == "file", "Copy makes a file")
		nd.Assert(fsSame(fakeos.Data("/g"), data), "the target has the content of the source")
		nd.Assert(fakeos.Mode("/g") == mode, "the target has the permissions of the source")
		fakeos.FailAt(-1)
		other := fsBytes("other", 2)
		if nd.Choice("then", 2) == 0 {
			nd.Assert(bool(gost.Write("/f", fsCast(other)).IsOk()), "Write succeeds")
			nd.Assert(fsSame(fakeos.Data("/g"), data), "writing the source leaves the copy alone")
		} else {
			nd.Assert(bool(gost.Write("/g", fsCast(other)).IsOk()), "Write succeeds")
			nd.Assert(fsSame(fakeos.Data("/f"), data), "writing the copy leaves the source alone")
		}
	}
}

// Copy with short reads.
func H_C32_CopyShort() {
	fsStart()
	nd.Bound("contents of up to 4 (thorough: 7) bytes, every way of splitting them into reads, any one of the first 12 system calls failing")
	data := fsBytes("data", nd.Choice("n", nd.Tier(5, 8)))
	fakeos.PutFile("/f", data)
	fakeos.Short(true)
	fsFault(12)
	r := gost.Copy("/f", "/g")
	fsDone(bool(r.IsOk()))
	if r.IsOk() {
		nd.Assert(fsSame(fakeos.Data("/g"), data), "the target has the content of the source")
	}
}

// Rename moves a file.
func H_C32_Rename() {
	fsStart()
	nd.Bound("a file of 0 or 3 bytes moved over nothing or a file, within or between directories, any one of the first 6 system calls failing")
	data := fsBytes("data", 3*nd.Choice("n", 2))
	fakeos.PutDir("/d")
	from := []string{"/f", "/d/f"}[nd.Choice("from", 2)]
	to := []string{"/g", "/d/g"}[nd.Choice("to", 2)]
	fakeos.PutFile(from, data)
	if nd.Choice("old", 2) == 1 {
		fakeos.PutFile(to, fsBytes("old", 5))
	}
	fsFault(6)
	r := gost.Rename(gost.String(from), gost.String(to))
	fsDone(bool(r.IsOk()))
	if r.IsOk() {
		nd.Assert(fakeos.Kind(from) == "", "the old name is gone")
		nd.Assert(fakeos.Kind(to) == "file" && fsSame(fakeos.Data(to), data), "the content is at the new name")
	}
}

// ReadDir lists every entry once with its kind.
func H_C32_ReadDir() {
	fsStart()
	nd.Bound("directories of up to 4 (thorough: 5) entries, each a file, directory, symbolic link to either or to nothing, or pipe; any one of the first 8 system calls failing")
	fakeos.PutDir("/d")
	fakeos.PutFile("/target", nil)
	fakeos.PutDir("/targetdir")
	names := []string{"a", "bb", "c.txt", ".h", "z z"}
	n := nd.Choice("n", nd.Tier(5, 6))
	kinds := make([]int, n)
	for i := 0; i < n; i++ {
		kinds[i] = nd.Choice("kind", 6)
		p := "/d/" + names[i]
		switch kinds[i] {
		case 0:
			fakeos.PutFile(p, nil)
		case 1:
			fakeos.PutDir(p)
		case 2:
			fakeos.PutLink(p, "/target")
		case 3:
			fakeos.PutLink(p, "/targetdir")
		case 4:
			fakeos.PutLink(p, "/nowhere")
		case 5:
			fakeos.PutPipe(p)
		}
	}
	if n == 2 {
		fsFault(8)
	}
	r := gost.ReadDir("/d")
	fsDone(bool(r.IsOk()))
	if r.IsErr() {
		return
	}
	v := r.Unwrap()
	nd.Assert(int(v.Len()) == n, "as many entries as the directory has")
	for i := 0; i < n; i++ {
		seen := 0
		for j := 0; j < n; j++ {
			e := v.GetUnchecked(gost.USize(j))
			if string(e.FileName) != names[i] {
				continue
			}
			seen++
			nd.Assert(string(e.Path) == "/d/"+names[i], "the path leads to the entry")
			nd.Assert(e.FileType.IsFile() == (kinds[i] == 0), "IsFile tells a regular file")
			nd.Assert(e.FileType.IsDir() == (kinds[i] == 1), "IsDir tells a directory")
			nd.Assert(e.FileType.IsSymlink() == (kinds[i] >= 2 && kinds[i] <= 4), "IsSymlink tells a symbolic link")
		}
		nd.Assert(seen == 1, "each entry is listed once")
	}
}

// Operations on what is missing or of the wrong kind are refused.
func H_C32_Refuse() {
	fsStart()
	nd.Bound("every operation on a missing path, a file, an empty directory, a non-empty directory, a link to a file or a link to a directory; no faults and any one of the first 6 system calls failing")
	data := fsBytes("data", 2)
	fakeos.PutFile("/keep", data)
	fakeos.PutDir("/keepdir")
	kind := nd.Choice("kind", 6)
	switch kind {
	case 1:
		fakeos.PutFile("/p", data)
	case 2:
		fakeos.PutDir("/p")
	case 3:
		fakeos.PutDir("/p")
		fakeos.PutFile("/p/x", data)
	case 4:
		fakeos.PutLink("/p", "/keep")
	case 5:
		fakeos.PutLink("/p", "/keepdir")
	}
	before := fakeos.Kind("/p")
	fsFault(6)
	switch nd.Choice("op", 8) {
	case 0:
		r := gost.RemoveFile("/p")
		nd.Assert(bool(r.IsOk()) == (kind == 1 || kind >= 4) || fakeos.Failed(), "RemoveFile removes files only")
		nd.Assert((fakeos.Kind("/p") == "") == bool(r.IsOk()) || kind == 0 || fakeos.Failed(), "and removes what it says")
		nd.Assert(!bool(r.IsOk()) || kind == 1 || kind >= 4, "RemoveFile never removes a directory")
		nd.Assert(!bool(r.IsOk()) || fakeos.Kind("/p") == "", "RemoveFile removes the file")
		nd.Assert(kind != 2 && kind != 3 || fakeos.Kind("/p") == "dir", "a directory stays")
	case 1:
		r := gost.RemoveDir("/p")
		nd.Assert(bool(r.IsOk()) == (kind == 2) || fakeos.Failed(), "RemoveDir removes empty directories only")
		nd.Assert(!bool(r.IsOk()) || kind == 2 && fakeos.Kind("/p") == "", "RemoveDir removes the directory")
		nd.Assert(kind == 2 || fakeos.Kind("/p") == before, "anything else stays")
		nd.Assert(kind != 3 || fakeos.Kind("/p/x") == "file", "with its contents")
	case 2:
		r := gost.CreateDir("/p")
		nd.Assert(bool(r.IsOk()) == (kind == 0) || fakeos.Failed(), "CreateDir refuses an existing path")
		nd.Assert(!bool(r.IsOk()) || kind == 0 && fakeos.Kind("/p") == "dir", "CreateDir creates a directory")
		nd.Assert(kind == 0 || fakeos.Kind("/p") == before, "what exists stays")
		nd.Assert(!bool(r.IsOk()) || len(fakeos.Names("/p")) == 0, "an empty one")
	case 3:
		r := gost.Read("/p")
		nd.Assert(bool(r.IsOk()) == (kind == 1 || kind == 4) || fakeos.Failed(), "Read reads files only")
		if r.IsOk() {
			nd.Assert(fsSameG(data, r.Unwrap()), "Read returns the content")
		}
	case 4:
		r := gost.ReadToString("/p")
		nd.Assert(bool(r.IsOk()) == (kind == 1 || kind == 4) || fakeos.Failed(), "ReadToString reads files only")
		if r.IsOk() {
			nd.Assert(fsSameS(data, r.Unwrap()), "ReadToString returns the content")
		}
	case 5:
		r := gost.ReadDir("/p")
		nd.Assert(bool(r.IsOk()) == (kind == 2 || kind == 3 || kind == 5) || fakeos.Failed(), "ReadDir reads directories only")
		if r.IsOk() {
			v := r.Unwrap()
			want := 0
			if kind == 3 {
				want = 1
			}
			nd.Assert(int(v.Len()) == want, "ReadDir returns the entries")
		}
	case 6:
		r := gost.Copy("/p", "/q")
		nd.Assert(bool(r.IsOk()) == (kind == 1 || kind == 4) || fakeos.Failed(), "Copy copies files only")
		nd.Assert(!bool(r.IsOk()) || fsSame(fakeos.Data("/q"), data), "the target has the content")
	case 7:
		r := gost.Rename("/p", "/q")
		nd.Assert(bool(r.IsOk()) == (kind != 0) || fakeos.Failed(), "Rename moves whatever exists")
		nd.Assert(!bool(r.IsOk()) || fakeos.Kind("/q") == before && fakeos.Kind("/p") == "", "to its new name")
	}
	nd.Assert(fakeos.OpenFiles() == 0, "no file is left open")
	nd.Assert(fsSame(fakeos.Data("/keep"), data) && fakeos.Kind("/keepdir") == "dir", "other entries stay")
}

// Large files.
func H_C32_Large() {
	fsStart()
	nd.NoMerge()
	nd.Bound("contents of 4097, 8192 and 40000 (thorough: 200000) bytes, eight of them arbitrary, written over nothing or a larger file, read and copied, any one of the first 12 system calls failing")
	n := []int{4097, 8192, nd.Tier(40000, 200000)}[nd.Choice("n", 3)]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i*7 + i/251)
	}
	for _, i := range []int{0, 511, 1024, 4095, 4096, n / 2, n - 2, n - 1} {
		data[i] = nd.U8("data")
	}
	op := nd.Choice("op", 4)
	if op == 0 {
		if nd.Choice("old", 2) == 1 {
			fakeos.PutFile("/f", make([]byte, n+5000))
		}
		arg := fsCast(data)
		fsFault(fsFaults)
		r := gost.Write("/f", arg)
		fsDone(bool(r.IsOk()))
		if r.IsOk() {
			nd.Assert(fsSame(fakeos.Data("/f"), data), "a large file holds exactly the bytes written")
		}
		return
	}
	fakeos.PutFile("/f", data)
	fsFault(12)
	switch op {
	case 1:
		r := gost.Read("/f")
		fsDone(bool(r.IsOk()))
		if r.IsOk() {
			nd.Assert(fsSameG(data, r.Unwrap()), "Read returns the whole content of a large file")
		}
	case 2:
		r := gost.ReadToString("/f")
		fsDone(bool(r.IsOk()))
		if r.IsOk() {
			nd.Assert(fsSameS(data, r.Unwrap()), "ReadToString returns the whole content of a large file")
		}
	case 3:
		r := gost.Copy("/f", "/g")
		fsDone(bool(r.IsOk()))
		if r.IsOk() {
			nd.Assert(fsSame(fakeos.Data("/g"), data), "the target has the content of a large source")
		}
	}
	nd.Assert(fsSame(fakeos.Data("/f"), data), "reading leaves the file alone")
}

// Directories of many entries.
func H_C32_ManyEntries() {
	fsStart()
	nd.NoMerge()
	nd.Bound("directories of 17, 40 and 130 entries of every kind, read by a path with or without a slash at its end")
	n := []int{17, 40, 130}[nd.Choice("n", 3)]
	first := nd.Choice("first", 6)
	fakeos.PutDir("/d")
	fakeos.PutFile("/target", nil)
	at := map[string]int{}
	for i := 0; i < n; i++ {
		name := "entry" + string([]byte{byte('a' + i%26), byte('a' + i/26%26)}) + []string{"", ".txt", " x", "é", "-of-a-rather-long-name-that-goes-on-and-on-for-more-than-sixty-four-bytes"}[i%5]
		at[name] = (i + first) % 6
		p := "/d/" + name
		switch (i + first) % 6 {
		case 0:
			fakeos.PutFile(p, nil)
		case 1:
			fakeos.PutDir(p)
		case 2:
			fakeos.PutLink(p, "/target")
		case 3:
			fakeos.PutLink(p, "/d")
		case 4:
			fakeos.PutLink(p, "/nowhere")
		case 5:
			fakeos.PutPipe(p)
		}
	}
	r := gost.ReadDir([]gost.String{"/d", "/d/"}[nd.Choice("slash", 2)])
	fsDone(bool(r.IsOk()))
	v := r.Unwrap()
	nd.Assert(int(v.Len()) == n, "as many entries as the directory has")
	for j := 0; j < n; j++ {
		e := v.GetUnchecked(gost.USize(j))
		k, there := at[string(e.FileName)]
		nd.Assert(there, "each entry is listed once")
		delete(at, string(e.FileName))
		nd.Assert(string(e.Path) == "/d/"+string(e.FileName), "the path leads to the entry")
		nd.Assert(e.FileType.IsFile() == (k == 0), "IsFile tells a regular file")
		nd.Assert(e.FileType.IsDir() == (k == 1), "IsDir tells a directory")
		nd.Assert(e.FileType.IsSymlink() == (k >= 2 && k <= 4), "IsSymlink tells a symbolic link")
	}
}

// Paths of all sorts, and a file copied onto itself.
func H_C32_Names() {
	fsStart()
	nd.NoMerge()
	nd.Bound("names with spaces, dots, dashes, wildcards, non-ASCII characters or an arbitrary byte; every operation by that name, other entries with similar names beside it")
	names := []string{" f", "f ", "f. ", ".f", "..f", "-f", "*", "a\\b", "%s", "{}", "$HOME", "~", "F", "é", "\xff", "f\t", "f.tmp", ""}
	name := names[nd.Choice("name", len(names))]
	if name == "" {
		b := nd.Bytes("name", 1)
		nd.Assume(b[0] != 0 && b[0] != '/' && b[0] != '.' && b[0] != 'f')
		name = string(b)
	}
	fakeos.PutDir("/d")
	fakeos.PutFile("/d/f", []byte("beside"))
	p := "/d/" + name
	g := gost.String(p)
	data := fsBytes("data", 2)
	if nd.Choice("dir", 2) == 1 {
		nd.Assert(bool(gost.CreateDir(g).IsOk()) && fakeos.Kind(p) == "dir", "CreateDir makes a directory of that name")
		nd.Assert(bool(gost.Write(g+"/x", fsCast(data)).IsOk()), "Write makes a file in it")
		r := gost.ReadDir(g)
		nd.Assert(bool(r.IsOk()) && r.Unwrap().Len() == 1, "ReadDir lists it")
		v := r.Unwrap()
		e := v.GetUnchecked(0)
		nd.Assert(string(e.Path) == p+"/x" && e.FileName == "x", "the path leads to the entry")
		nd.Assert(bool(gost.Rename(e.Path, g+"/y").IsOk()) && fakeos.Kind(p+"/y") == "file", "Rename moves the file in it")
		nd.Assert(bool(gost.RemoveFile(g+"/y").IsOk()), "RemoveFile removes the file in it")
		nd.Assert(bool(gost.RemoveDir(g).IsOk()) && fakeos.Kind(p) == "", "RemoveDir removes it")
	} else {
		nd.Assert(bool(gost.Write(g, fsCast(data)).IsOk()), "Write makes a file of that name")
		nd.Assert(fakeos.Kind(p) == "file" && fsSame(fakeos.Data(p), data), "with the bytes given")
		r, s := gost.Read(g), gost.ReadToString(g)
		nd.Assert(bool(r.IsOk()) && fsSameG(data, r.Unwrap()), "Read returns its content")
		nd.Assert(bool(s.IsOk()) && fsSameS(data, s.Unwrap()), "ReadToString returns its content")
		c := gost.Copy(g, g)
		nd.Assert(bool(c.IsErr()) || fsSame(fakeos.Data(p), data), "Copy onto itself leaves a file as it is")
		if bool(c.IsOk()) {
			to := p + "~"
			nd.Assert(bool(gost.Copy(g, gost.String(to)).IsOk()) && fsSame(fakeos.Data(to), data), "Copy makes a file of that name")
			nd.Assert(bool(gost.Rename(gost.String(to), g).IsOk()) && fsSame(fakeos.Data(p), data) && fakeos.Kind(to) == "", "Rename moves over it")
		}
		nd.Assert(bool(gost.RemoveFile(g).IsOk()) && fakeos.Kind(p) == "", "RemoveFile removes it")
	}
	nd.Assert(fsSame(fakeos.Data("/d/f"), []byte("beside")), "what is beside it stays")
	nd.Assert(len(fakeos.Names("/d")) == 1 && len(fakeos.Names("/")) == 1, "and nothing else is left")
	nd.Assert(fakeos.OpenFiles() == 0, "no file is left open")
}

type fsModel struct {
	kind [4]int // 0 nothing, 1 file, 2 directory
	data [4][]byte
}

var fsPaths = [4]string{"/a", "/b", "/d", "/d/x"}

// Histories of operations, against a model of the tree.
func H_C32_History() {
	fsStart()
	nd.Bound("2 (thorough: 3) operations on four paths, one inside another, from every start with each path missing, a file or a directory")
	var m fsModel
	for i := range fsPaths {
		k := nd.Choice("start", 3)
		if i == 3 && m.kind[2] != 2 {
			nd.Assume(k == 0)
		}
		m.kind[i] = k
		switch k {
		case 1:
			m.data[i] = fsBytes("data", 2)
			fakeos.PutFile(fsPaths[i], m.data[i])
		case 2:
			fakeos.PutDir(fsPaths[i])
		}
	}
	for i, n := 0, nd.Tier(2, 3); i < n; i++ {
		m.step()
	}
	for i, p := range fsPaths {
		want := []string{"", "file", "dir"}[m.kind[i]]
		nd.Assert(fakeos.Kind(p) == want, "each path is what the operations made it")
		if m.kind[i] == 1 {
			nd.Assert(fsSame(fakeos.Data(p), m.data[i]), "each file holds what was put there")
		}
	}
}

// does the directory of path i exist?
func (m *fsModel) parent(i int) bool { return i != 3 || m.kind[2] == 2 }

func (m *fsModel) step() {
	i := nd.Choice("path", 4)
	p := gost.String(fsPaths[i])
	switch nd.Choice("op", 7) {
	case 0:
		data := fsBytes("w", 3)
		r := gost.Write(p, fsCast(data))
		ok := m.kind[i] != 2 && m.parent(i)
		nd.Assert(bool(r.IsOk()) == ok, "Write succeeds except on a directory or in none")
		if ok {
			m.kind[i], m.data[i] = 1, data
		}
	case 1:
		r := gost.Read(p)
		nd.Assert(bool(r.IsOk()) == (m.kind[i] == 1), "Read succeeds on files")
		if r.IsOk() {
			nd.Assert(fsSameG(m.data[i], r.Unwrap()), "Read returns the content")
		}
	case 2:
		r := gost.RemoveFile(p)
		nd.Assert(bool(r.IsOk()) == (m.kind[i] == 1), "RemoveFile succeeds on files")
		if r.IsOk() {
			m.kind[i] = 0
		}
	case 3:
		r := gost.RemoveDir(p)
		ok := m.kind[i] == 2 && (i != 2 || m.kind[3] == 0)
		nd.Assert(bool(r.IsOk()) == ok, "RemoveDir succeeds on empty directories")
		if ok {
			m.kind[i] = 0
		}
	case 4:
		r := gost.CreateDir(p)
		ok := m.kind[i] == 0 && m.parent(i)
		nd.Assert(bool(r.IsOk()) == ok, "CreateDir succeeds where there is nothing")
		if ok {
			m.kind[i] = 2
		}
	case 5:
		j := nd.Choice("to", 4)
		// replacing a directory or moving one with contents is left out
		nd.Assume(m.kind[i] != 2 && m.kind[j] != 2 && i != j)
		r := gost.Rename(p, gost.String(fsPaths[j]))
		ok := m.kind[i] == 1 && m.parent(j)
		nd.Assert(bool(r.IsOk()) == ok, "Rename moves a file")
		if ok {
			m.kind[j], m.data[j] = 1, m.data[i]
			m.kind[i] = 0
		}
	case 6:
		j := nd.Choice("to", 4)
		nd.Assume(i != j)
		r := gost.Copy(p, gost.String(fsPaths[j]))
		ok := m.kind[i] == 1 && m.kind[j] != 2 && m.parent(j)
		nd.Assert(bool(r.IsOk()) == ok, "Copy copies a file")
		if ok {
			m.kind[j], m.data[j] = 1, m.data[i]
		}
	}
	nd.Assert(fakeos.OpenFiles() == 0, "no file is left open")
}

// The asynchronous operations deliver what the synchronous ones do.
func H_C35_Files() {
	fsStart()
	nd.Bound("each file operation on a missing path, a file, an empty directory and a non-empty directory, its target missing or a file; any one of the first 6 system calls failing")
	nd.Preempt(1)
	op := nd.Choice("op", 9)
	kind := nd.Choice("kind", 4)
	data := fsBytes("data", 2)
	arg := fsCast(fsBytes("arg", 3))
	arg2 := fsBytes("other", 1)
	fault := nd.Choice("fault", 7) - 1
	other := (op == 4 || op == 7) && nd.Choice("other", 2) == 1
	build := func() {
		fakeos.Reset()
		if other {
			fakeos.PutFile("/q", arg2)
		}
		switch kind {
		case 1:
			fakeos.PutFile("/p", data)
		case 2:
			fakeos.PutDir("/p")
		case 3:
			fakeos.PutDir("/p")
			fakeos.PutFile("/p/x", data)
		}
		fakeos.FailAt(fault)
	}
	var ok1, ok2 bool
	var got1, got2 []byte
	build()
	switch op {
	case 0:
		ok1 = bool(gost.CreateDir("/p").IsOk())
	case 1:
		ok1 = bool(gost.RemoveDir("/p").IsOk())
	case 2:
		ok1 = bool(gost.Write("/p", arg).IsOk())
	case 3:
		ok1 = bool(gost.RemoveFile("/p").IsOk())
	case 4:
		ok1 = bool(gost.Rename("/p", "/q").IsOk())
	case 5:
		r := gost.Read("/p")
		ok1 = bool(r.IsOk())
		if ok1 {
			for _, b := range r.Unwrap() {
				got1 = append(got1, byte(b))
			}
		}
	case 6:
		r := gost.ReadDir("/p")
		ok1 = bool(r.IsOk())
		if ok1 {
			v := r.Unwrap()
			for i := 0; i < int(v.Len()); i++ {
				got1 = append(append(got1, v.GetUnchecked(gost.USize(i)).Path...), 0)
			}
		}
	case 7:
		ok1 = bool(gost.Copy("/p", "/q").IsOk())
	case 8:
		r := gost.ReadToString("/p")
		ok1 = bool(r.IsOk())
		if ok1 {
			got1 = []byte(r.Unwrap())
		}
	}
	kp, kq, kx := fakeos.Kind("/p"), fakeos.Kind("/q"), fakeos.Kind("/p/x")
	dp, dq := fakeos.Data("/p"), fakeos.Data("/q")
	build()
	switch op {
	case 0:
		ok2 = bool(gokio.CreateDir("/p").Await().IsOk())
	case 1:
		ok2 = bool(gokio.RemoveDir("/p").Await().IsOk())
	case 2:
		ok2 = bool(gokio.Write("/p", arg).Await().IsOk())
	case 3:
		ok2 = bool(gokio.RemoveFile("/p").Await().IsOk())
	case 4:
		ok2 = bool(gokio.Rename("/p", "/q").Await().IsOk())
	case 5:
		r := gokio.Read("/p").Await()
		ok2 = bool(r.IsOk())
		if ok2 {
			for _, b := range r.Unwrap() {
				got2 = append(got2, byte(b))
			}
		}
	case 6:
		r := gokio.ReadDir("/p").Await()
		ok2 = bool(r.IsOk())
		if ok2 {
			v := r.Unwrap()
			for i := 0; i < int(v.Len()); i++ {
				got2 = append(append(got2, v.GetUnchecked(gost.USize(i)).Path...), 0)
			}
		}
	case 7:
		ok2 = bool(gokio.Copy("/p", "/q").Await().IsOk())
	case 8:
		r := gokio.ReadToString("/p").Await()
		ok2 = bool(r.IsOk())
		if ok2 {
			got2 = []byte(r.Unwrap())
		}
	}
	nd.Assert(ok1 == ok2, "the asynchronous operation succeeds or fails like the synchronous one")
	nd.Assert(fsSame(got1, got2), "and delivers the same result")
	nd.Assert(fakeos.Kind("/p") == kp && fakeos.Kind("/q") == kq && fakeos.Kind("/p/x") == kx, "and has the same effect")
	nd.Assert(fsSame(fakeos.Data("/p"), dp) && fsSame(fakeos.Data("/q"), dq), "and has the same effect")
}

package h

import (
	"github.com/myyrakle/gost"
	"gostverif/fakeos"
	"gostverif/nd"
)

// Operations through symbolic links.
func H_C32_Links() {
	fsStart()
	nd.Bound("each operation through a link to a file, a link to a link, a link to nothing or a link to a directory, any one of the first 10 system calls failing")
	data, old, arg := fsBytes("data", 3), fsBytes("old", 4), fsBytes("arg", 2)
	modes := []fakeos.FileMode{0o600, 0o644, 0o755}
	mode := modes[nd.Choice("mode", 3)]
	fakeos.PutFile("/f", data)
	fakeos.SetMode("/f", mode)
	fakeos.PutFile("/g", old)
	fakeos.PutDir("/d")
	fakeos.PutFile("/d/x", data)
	fakeos.PutLink("/l", "/f")
	fakeos.PutLink("/ll", "/l")
	fakeos.PutLink("/lg", "/g")
	fakeos.PutLink("/none", "/new")
	fakeos.PutLink("/ld", "/d")
	from := []gost.String{"/l", "/ll"}[nd.Choice("link", 2)]
	op := nd.Choice("op", 10)
	fsFault(10)
	keep := true
	switch op {
	case 0:
		r := gost.Read(from)
		fsDone(bool(r.IsOk()))
		nd.Assert(!bool(r.IsOk()) || fsSameG(data, r.Unwrap()), "Read follows a link")
	case 1:
		r := gost.ReadToString(from)
		fsDone(bool(r.IsOk()))
		nd.Assert(!bool(r.IsOk()) || fsSameS(data, r.Unwrap()), "ReadToString follows a link")
	case 2:
		to := []gost.String{"/n", "/g", "/lg", "/none", "/d/n"}[nd.Choice("to", 5)]
		r := gost.Copy(from, to)
		fsDone(bool(r.IsOk()))
		if r.IsOk() {
			nd.Assert(fsSame(fakeos.Data(string(to)), data), "Copy copies what a link leads to, to where a link leads")
			nd.Assert(fakeos.Mode(string(to)) == mode, "with its permissions")
			if to == "/lg" {
				nd.Assert(fsSame(fakeos.Data("/g"), data), "Copy follows the link of the target")
			}
			if to == "/none" {
				nd.Assert(fakeos.Kind("/new") == "file", "Copy follows the link of the target")
			}
		}
	case 3:
		r := gost.Write(from, fsCast(arg))
		fsDone(bool(r.IsOk()))
		if r.IsOk() {
			nd.Assert(fsSame(fakeos.Data("/f"), arg), "Write follows a link")
			nd.Assert(fakeos.Mode("/f") == mode, "and leaves the permissions alone")
		}
		keep = false
	case 4:
		r := gost.Write("/none", fsCast(arg))
		fsDone(bool(r.IsOk()))
		nd.Assert(!bool(r.IsOk()) || fsSame(fakeos.Data("/new"), arg), "Write creates what a link leads to")
	case 5:
		r := gost.RemoveFile(from)
		fsDone(bool(r.IsOk()))
		nd.Assert(fakeos.Kind(string(from)) == "" == bool(r.IsOk()) || fakeos.Failed(), "RemoveFile removes the link")
		nd.Assert(!bool(r.IsOk()) || fakeos.Kind(string(from)) == "", "RemoveFile removes the link")
	case 6:
		r := gost.Rename(from, "/n")
		fsDone(bool(r.IsOk()))
		if r.IsOk() {
			nd.Assert(fakeos.Kind(string(from)) == "" && fakeos.Kind("/n") == "symlink", "Rename moves the link")
			nd.Assert(fsSame(fakeos.Data("/n"), data), "to the same place")
		}
	case 7:
		switch nd.Choice("bad", 5) {
		case 0:
			nd.Assert(bool(gost.Read("/none").IsErr()), "Read refuses a link to nothing")
		case 1:
			nd.Assert(bool(gost.ReadToString("/ld").IsErr()), "ReadToString refuses a link to a directory")
		case 2:
			nd.Assert(bool(gost.Copy("/none", "/n").IsErr()), "Copy refuses a link to nothing")
			nd.Assert(fakeos.Kind("/n") == "", "and makes nothing")
		case 3:
			nd.Assert(bool(gost.Write("/ld", fsCast(arg)).IsErr()), "Write refuses a link to a directory")
		case 4:
			nd.Assert(bool(gost.RemoveDir("/ld").IsErr()) && fakeos.Kind("/ld") == "symlink", "RemoveDir refuses a link to a directory")
		}
	case 8:
		r := gost.CreateDir("/none")
		nd.Assert(bool(r.IsErr()) && fakeos.Kind("/new") == "", "CreateDir refuses a link")
	case 9:
		r := gost.ReadDir("/ld")
		fsDone(bool(r.IsOk()))
		if r.IsOk() {
			v := r.Unwrap()
			nd.Assert(v.Len() == 1 && v.GetUnchecked(0).Path == "/ld/x" && v.GetUnchecked(0).FileName == "x", "ReadDir follows a link, its entries' paths going through it")
		}
	}
	nd.Assert(!keep || fsSame(fakeos.Data("/f"), data) && fakeos.Kind("/f") == "file", "the file stays")
	nd.Assert(!keep || fakeos.Mode("/f") == mode, "with its permissions")
	nd.Assert(fakeos.Kind("/ld") == "symlink" && fsSame(fakeos.Data("/d/x"), data), "a directory stays")
	nd.Assert(fakeos.OpenFiles() == 0, "no file is left open")
}

// A path as both operands.
func H_C32_Same() {
	fsStart()
	nd.Bound("Rename of a path to itself and Copy of a file onto itself (also by way of a link), the path missing, a file of 0 or 600 bytes, an empty directory or a directory with a file, no fault or any one of the first 10 system calls failing")
	kind := nd.Choice("kind", 4)
	data := fsBytes("data", 600*nd.Choice("n", 2))
	switch kind {
	case 1:
		fakeos.PutFile("/p", data)
	case 2:
		fakeos.PutDir("/p")
	case 3:
		fakeos.PutDir("/p")
		fakeos.PutFile("/p/x", data)
	}
	fakeos.PutLink("/l", "/p")
	before := fakeos.Kind("/p")
	fsFault(10)
	switch nd.Choice("op", 3) {
	case 0:
		r := gost.Rename("/p", "/p")
		nd.Assert(bool(r.IsErr()) || kind != 0, "a missing path has no name to give it")
		nd.Assert(bool(r.IsOk()) || kind == 0 || kind >= 2 || fakeos.Failed(), "a file can keep its name")
		nd.Assert(kind != 1 || fsSame(fakeos.Data("/p"), data), "and its content")
	case 1:
		r := gost.Copy("/l", "/p")
		nd.Assert(!bool(r.IsOk()) || kind == 1 && fsSame(fakeos.Data("/p"), data), "a file copied onto itself keeps its content")
	case 2:
		r := gost.Copy("/p", "/p")
		nd.Assert(!bool(r.IsOk()) || kind == 1 && fsSame(fakeos.Data("/p"), data), "a file copied onto itself keeps its content")
	}
	nd.Assert(fakeos.Kind("/p") == before, "the path stays what it is")
	nd.Assert(kind != 3 || fsSame(fakeos.Data("/p/x"), data), "a directory keeps its files")
	nd.Assert(fakeos.OpenFiles() == 0, "no file is left open")
}

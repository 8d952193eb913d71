// Package fakeos stands in for os when gost is analysed: files live in memory,
// system calls fail and reads come up short where the harness says so. The
// harness build replaces gost's import of os by this package.
package fakeos

import (
	"errors"
	"io"
	"io/fs"
	"time"

	"gostverif/nd"
)

type (
	FileMode     = fs.FileMode
	FileInfo     = fs.FileInfo
	DirEntry     = fs.DirEntry
	PathError    = fs.PathError
	SyscallError struct {
		Syscall string
		Err     error
	}
	LinkError struct {
		Op, Old, New string
		Err          error
	}
)

func (e *SyscallError) Error() string { return e.Syscall + ": " + e.Err.Error() }
func (e *SyscallError) Unwrap() error { return e.Err }
func (e *LinkError) Error() string {
	return e.Op + " " + e.Old + " " + e.New + ": " + e.Err.Error()
}
func (e *LinkError) Unwrap() error { return e.Err }

const (
	ModeDir        = fs.ModeDir
	ModeAppend     = fs.ModeAppend
	ModeExclusive  = fs.ModeExclusive
	ModeTemporary  = fs.ModeTemporary
	ModeSymlink    = fs.ModeSymlink
	ModeDevice     = fs.ModeDevice
	ModeNamedPipe  = fs.ModeNamedPipe
	ModeSocket     = fs.ModeSocket
	ModeSetuid     = fs.ModeSetuid
	ModeSetgid     = fs.ModeSetgid
	ModeCharDevice = fs.ModeCharDevice
	ModeSticky     = fs.ModeSticky
	ModeIrregular  = fs.ModeIrregular
	ModeType       = fs.ModeType
	ModePerm       = fs.ModePerm
)

const (
	O_RDONLY = 0
	O_WRONLY = 1
	O_RDWR   = 2
	O_CREATE = 0x40
	O_EXCL   = 0x80
	O_TRUNC  = 0x200
	O_APPEND = 0x400
	O_SYNC   = 0x101000

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2
)

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrNoDeadline       = errors.New("file type does not support deadline")
	ErrDeadlineExceeded = errors.New("i/o timeout")
	ErrProcessDone      = errors.New("process done")

	errFault    = errors.New("input/output error")
	errNotDir   = errors.New("not a directory")
	errIsDir    = errors.New("is a directory")
	errNotEmpty = errors.New("directory not empty")
	errLoop     = errors.New("too many levels of symbolic links")
)

func IsExist(err error) bool      { return errors.Is(err, ErrExist) || errors.Is(err, errNotEmpty) }
func IsNotExist(err error) bool   { return errors.Is(err, ErrNotExist) }
func IsPermission(err error) bool { return errors.Is(err, ErrPermission) }
func IsTimeout(err error) bool    { return errors.Is(err, ErrDeadlineExceeded) }
func IsPathSeparator(c uint8) bool {
	return c == '/'
}

// ---------- the file system ----------

type kind int

const (
	kFile kind = iota
	kDir
	kLink
	kPipe
)

type node struct {
	kind   kind
	data   []byte
	mode   FileMode
	target string
	names  []string // children, sorted
	nodes  []*node
}

var root = &node{kind: kDir, mode: 0o777}
var calls int   // system calls so far
var failAt = -1 // the call that fails
var failed bool // it has failed
var short bool  // reads may be short
var open int    // open descriptors
var out []byte  // what was written to the standard output
var cwd = "/"

// Reset empties the file system.
func Reset() {
	root = &node{kind: kDir, mode: 0o777}
	calls, failAt, failed, short, open, cwd = 0, -1, false, false, 0, "/"
	Stdin.src, Stdin.off, Stdin.closed = nil, 0, false
	out = nil
}

// Output is what was written to the standard output so far.
func Output() string { return string(out) }

// FailAt makes the k-th system call from now fail (negative: none).
func FailAt(k int) {
	calls, failed = 0, false
	failAt = k
}

// Failed reports whether the failure has happened.
func Failed() bool { return failed }

// Short lets reads return any positive number of the bytes asked for.
func Short(on bool) { short = on }

// OpenFiles is the number of files not closed yet.
func OpenFiles() int { return open }

func fault() bool {
	k := calls
	calls++
	if k == failAt {
		failed = true
		return true
	}
	return false
}

func (n *node) find(name string) *node {
	for i, s := range n.names {
		if s == name {
			return n.nodes[i]
		}
	}
	return nil
}

func (n *node) put(name string, c *node) {
	for i, s := range n.names {
		if s == name {
			n.nodes[i] = c
			return
		}
	}
	i := 0
	for i < len(n.names) && n.names[i] < name {
		i++
	}
	names := append([]string{}, n.names[:i]...)
	names = append(names, name)
	names = append(names, n.names[i:]...)
	nodes := append([]*node{}, n.nodes[:i]...)
	nodes = append(nodes, c)
	nodes = append(nodes, n.nodes[i:]...)
	n.names, n.nodes = names, nodes
}

func (n *node) del(name string) {
	var names []string
	var nodes []*node
	for i, s := range n.names {
		if s != name {
			names = append(names, s)
			nodes = append(nodes, n.nodes[i])
		}
	}
	n.names, n.nodes = names, nodes
}

func parts(path string) []string {
	if path == "" || path[0] != '/' {
		path = cwd + "/" + path
	}
	var r []string
	s := ""
	for i := 0; i <= len(path); i++ {
		if i == len(path) || path[i] == '/' {
			switch s {
			case "", ".":
			case "..":
				if len(r) > 0 {
					r = r[:len(r)-1]
				}
			default:
				r = append(r, s)
			}
			s = ""
		} else {
			s += path[i : i+1]
		}
	}
	return r
}

// walk resolves path to its directory, last name and node (nil if absent).
func walk(path string, follow bool) (*node, string, *node, error) {
	if path == "" {
		return nil, "", nil, ErrNotExist
	}
	ps := parts(path)
	if len(ps) == 0 {
		return nil, "", root, nil
	}
	d := root
	for hops := 0; ; {
		c := d.find(ps[0])
		last := len(ps) == 1
		if c != nil && c.kind == kLink && (!last || follow) {
			hops++
			if hops > 8 {
				return nil, "", nil, errLoop
			}
			t := parts(c.target)
			ps = append(append([]string{}, t...), ps[1:]...)
			d = root
			if len(ps) == 0 {
				return nil, "", root, nil
			}
			continue
		}
		if last {
			return d, ps[0], c, nil
		}
		if c == nil {
			return nil, "", nil, ErrNotExist
		}
		if c.kind != kDir {
			return nil, "", nil, errNotDir
		}
		d, ps = c, ps[1:]
	}
}

// ---------- set-up and inspection by the harness ----------

func must(d *node, name string) {
	if d == nil || name == "" {
		panic("fakeos: bad set-up path")
	}
}

func PutFile(path string, data []byte) {
	d, name, _, _ := walk(path, true)
	must(d, name)
	d.put(name, &node{kind: kFile, data: append([]byte{}, data...), mode: 0o644})
}
func PutDir(path string) {
	d, name, _, _ := walk(path, false)
	must(d, name)
	d.put(name, &node{kind: kDir, mode: 0o755})
}
func PutLink(path, target string) {
	d, name, _, _ := walk(path, false)
	must(d, name)
	d.put(name, &node{kind: kLink, target: target, mode: 0o777})
}
func PutPipe(path string) {
	d, name, _, _ := walk(path, false)
	must(d, name)
	d.put(name, &node{kind: kPipe, mode: 0o644})
}

// Kind is "", "file", "dir", "symlink" or "pipe", of the path itself.
func Kind(path string) string {
	_, _, n, err := walk(path, false)
	if err != nil || n == nil {
		return ""
	}
	switch n.kind {
	case kFile:
		return "file"
	case kDir:
		return "dir"
	case kLink:
		return "symlink"
	}
	return "pipe"
}

// Data is the content of a file.
func Data(path string) []byte {
	_, _, n, err := walk(path, true)
	if err != nil || n == nil {
		return nil
	}
	return append([]byte{}, n.data...)
}

// Names lists a directory.
func Names(path string) []string {
	_, _, n, err := walk(path, true)
	if err != nil || n == nil {
		return nil
	}
	return append([]string{}, n.names...)
}

// ---------- files ----------

type File struct {
	n        *node
	before   []byte // what the disk holds if closing fails
	name     string
	off      int
	closed   bool
	rd, wr   bool
	app      bool
	src      [][]byte // standard input: the pieces it arrives in
	diroff   int
	standard bool
}

var Stdin = &File{name: "/dev/stdin", rd: true, standard: true}
var Stdout = &File{name: "/dev/stdout", wr: true, standard: true}
var Stderr = &File{name: "/dev/stderr", wr: true, standard: true}
var Args = []string{"gost"}

// SetStdin makes the standard input arrive in these pieces.
func SetStdin(pieces [][]byte) {
	Stdin.src, Stdin.off, Stdin.closed = pieces, 0, false
}

// StdinLeft is the number of bytes not read yet.
func StdinLeft() int {
	n := -Stdin.off
	for _, p := range Stdin.src {
		n += len(p)
	}
	return n
}

func perr(op, path string, err error) error { return &PathError{Op: op, Path: path, Err: err} }

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if fault() {
		return nil, perr("open", name, errFault)
	}
	d, last, n, err := walk(name, true)
	if err != nil {
		return nil, perr("open", name, err)
	}
	acc := flag & 3
	if n != nil && flag&O_CREATE != 0 && flag&O_EXCL != 0 {
		return nil, perr("open", name, ErrExist)
	}
	if n == nil {
		if flag&O_CREATE == 0 {
			return nil, perr("open", name, ErrNotExist)
		}
		n = &node{kind: kFile, mode: perm & ModePerm &^ 0o022}
		d.put(last, n)
	}
	if n.kind == kDir && (acc != O_RDONLY || flag&O_CREATE != 0) {
		return nil, perr("open", name, errIsDir)
	}
	before := n.data
	if flag&O_TRUNC != 0 && n.kind == kFile {
		n.data = nil
	}
	open++
	return &File{n: n, before: before, name: name, rd: acc != O_WRONLY, wr: acc != O_RDONLY, app: flag&O_APPEND != 0}, nil
}

func (f *File) bad(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }
func (f *File) Sync() error {
	if err := f.bad("sync"); err != nil {
		return err
	}
	if fault() {
		return perr("sync", f.name, errFault)
	}
	f.before = f.n.data
	return nil
}

func (f *File) Read(p []byte) (int, error) {
	if err := f.bad("read"); err != nil {
		return 0, err
	}
	if len(p) == 0 {
		return 0, nil
	}
	if fault() {
		return 0, perr("read", f.name, errFault)
	}
	if f.standard {
		for len(f.src) > 0 && f.off >= len(f.src[0]) {
			f.src, f.off = f.src[1:], 0
		}
		if len(f.src) == 0 {
			return 0, io.EOF
		}
		k := copy(p, f.src[0][f.off:])
		f.off += k
		return k, nil
	}
	if !f.rd {
		return 0, perr("read", f.name, ErrPermission)
	}
	if f.n.kind == kDir {
		return 0, perr("read", f.name, errIsDir)
	}
	if f.off >= len(f.n.data) {
		return 0, io.EOF
	}
	k := len(f.n.data) - f.off
	if k > len(p) {
		k = len(p)
	}
	if short && k > 1 {
		k = 1 + nd.Choice("read", k)
	}
	copy(p, f.n.data[f.off:f.off+k])
	f.off += k
	return k, nil
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if err := f.bad("read"); err != nil {
		return 0, err
	}
	n := 0
	for n < len(p) {
		if fault() {
			return n, perr("read", f.name, errFault)
		}
		if int(off)+n >= len(f.n.data) {
			return n, io.EOF
		}
		n += copy(p[n:], f.n.data[int(off)+n:])
	}
	return n, nil
}

func (f *File) put(p []byte, at int) {
	d := append([]byte{}, f.n.data...)
	for len(d) < at+len(p) {
		d = append(d, 0)
	}
	copy(d[at:], p)
	f.n.data = d
}

func (f *File) Write(p []byte) (int, error) {
	if err := f.bad("write"); err != nil {
		return 0, err
	}
	if fault() {
		// a part may have been written
		k := 0
		if len(p) > 1 && !f.standard && f.wr {
			k = len(p) / 2
			f.put(p[:k], f.off)
			f.off += k
		}
		return k, perr("write", f.name, errFault)
	}
	if f == Stdout {
		out = append(out, p...)
	}
	if f.standard {
		return len(p), nil
	}
	if !f.wr {
		return 0, perr("write", f.name, ErrPermission)
	}
	if f.app {
		f.off = len(f.n.data)
	}
	f.put(p, f.off)
	f.off += len(p)
	return len(p), nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if err := f.bad("write"); err != nil {
		return 0, err
	}
	if fault() {
		return 0, perr("write", f.name, errFault)
	}
	f.put(p, int(off))
	return len(p), nil
}

func (f *File) Seek(offset int64, whence int) (int64, error) {
	if err := f.bad("seek"); err != nil {
		return 0, err
	}
	if fault() {
		return 0, perr("seek", f.name, errFault)
	}
	switch whence {
	case 0:
		f.off = int(offset)
	case 1:
		f.off += int(offset)
	default:
		f.off = len(f.n.data) + int(offset)
	}
	return int64(f.off), nil
}

func (f *File) Truncate(size int64) error {
	if err := f.bad("truncate"); err != nil {
		return err
	}
	if fault() {
		return perr("truncate", f.name, errFault)
	}
	d := append([]byte{}, f.n.data...)
	for len(d) < int(size) {
		d = append(d, 0)
	}
	f.n.data = d[:int(size)]
	return nil
}

func (f *File) Chmod(mode FileMode) error {
	if err := f.bad("chmod"); err != nil {
		return err
	}
	if fault() {
		return perr("chmod", f.name, errFault)
	}
	f.n.mode = mode & ModePerm
	return nil
}

func (f *File) Close() error {
	if err := f.bad("close"); err != nil {
		return err
	}
	f.closed = true
	if !f.standard {
		open--
	}
	if fault() {
		// what was written never reached the disk
		if f.wr && !f.standard && f.n.kind == kFile {
			f.n.data = f.before
		}
		return perr("close", f.name, errFault)
	}
	return nil
}

func (f *File) Stat() (FileInfo, error) {
	if err := f.bad("stat"); err != nil {
		return nil, err
	}
	if fault() {
		return nil, perr("stat", f.name, errFault)
	}
	if f.standard {
		return &entry{name: f.name, n: &node{kind: kPipe}}, nil
	}
	return &entry{name: base(f.name), n: f.n}, nil
}

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if err := f.bad("readdir"); err != nil {
		return nil, err
	}
	if fault() {
		return nil, perr("readdirent", f.name, errFault)
	}
	if f.n.kind != kDir {
		return nil, perr("readdirent", f.name, errNotDir)
	}
	r := []DirEntry{}
	for ; f.diroff < len(f.n.names) && (n <= 0 || len(r) < n); f.diroff++ {
		r = append(r, &entry{name: f.n.names[f.diroff], n: f.n.nodes[f.diroff]})
	}
	if n > 0 && len(r) == 0 {
		return r, io.EOF
	}
	return r, nil
}

func (f *File) Readdir(n int) ([]FileInfo, error) {
	es, err := f.ReadDir(n)
	r := []FileInfo{}
	for _, e := range es {
		r = append(r, e.(*entry))
	}
	return r, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	r := []string{}
	for _, e := range es {
		r = append(r, e.Name())
	}
	return r, err
}

type entry struct {
	name string
	n    *node
}

func (e *entry) Name() string { return e.name }
func (e *entry) IsDir() bool  { return e.n.kind == kDir }
func (e *entry) Type() FileMode {
	switch e.n.kind {
	case kDir:
		return ModeDir
	case kLink:
		return ModeSymlink
	case kPipe:
		return ModeNamedPipe
	}
	return 0
}
func (e *entry) Info() (FileInfo, error) {
	if fault() {
		return nil, perr("lstat", e.name, errFault)
	}
	return e, nil
}
func (e *entry) Size() int64        { return int64(len(e.n.data)) }
func (e *entry) Mode() FileMode     { return e.Type() | e.n.mode }
func (e *entry) ModTime() time.Time { return time.Time{} }
func (e *entry) Sys() any           { return nil }
func (e *entry) String() string     { return e.name }

func base(p string) string {
	ps := parts(p)
	if len(ps) == 0 {
		return "/"
	}
	return ps[len(ps)-1]
}

func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(*entry)
	y, ok2 := b.(*entry)
	return ok1 && ok2 && x.n == y.n
}

// ---------- functions on paths ----------

func stat(op, name string, follow bool) (FileInfo, error) {
	if fault() {
		return nil, perr(op, name, errFault)
	}
	_, _, n, err := walk(name, follow)
	if err == nil && n == nil {
		err = ErrNotExist
	}
	if err != nil {
		return nil, perr(op, name, err)
	}
	return &entry{name: base(name), n: n}, nil
}

func Stat(name string) (FileInfo, error)  { return stat("stat", name, true) }
func Lstat(name string) (FileInfo, error) { return stat("lstat", name, false) }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	r := []byte{}
	buf := make([]byte, 512)
	for {
		n, err := f.Read(buf)
		r = append(r, buf[:n]...)
		if err == io.EOF {
			return r, nil
		}
		if err != nil {
			return r, err
		}
	}
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Chmod(name string, mode FileMode) error {
	if fault() {
		return perr("chmod", name, errFault)
	}
	_, _, n, err := walk(name, true)
	if err == nil && n == nil {
		err = ErrNotExist
	}
	if err != nil {
		return perr("chmod", name, err)
	}
	n.mode = mode & ModePerm
	return nil
}

func Chtimes(name string, atime, mtime time.Time) error {
	if fault() {
		return perr("chtimes", name, errFault)
	}
	return nil
}
func Chown(name string, uid, gid int) error  { return nil }
func Lchown(name string, uid, gid int) error { return nil }

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0o666)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func Mkdir(name string, perm FileMode) error {
	if fault() {
		return perr("mkdir", name, errFault)
	}
	d, last, n, err := walk(name, false)
	if err == nil && n != nil {
		err = ErrExist
	}
	if err != nil {
		return perr("mkdir", name, err)
	}
	d.put(last, &node{kind: kDir, mode: perm & ModePerm &^ 0o022})
	return nil
}

func MkdirAll(path string, perm FileMode) error {
	ps := parts(path)
	p := ""
	for _, s := range ps {
		p += "/" + s
		fi, err := Stat(p)
		if err == nil {
			if !fi.IsDir() {
				return perr("mkdir", p, errNotDir)
			}
			continue
		}
		if err := Mkdir(p, perm); err != nil {
			return err
		}
	}
	return nil
}

func Remove(name string) error {
	if fault() {
		return perr("remove", name, errFault)
	}
	d, last, n, err := walk(name, false)
	if err == nil {
		switch {
		case n == nil:
			err = ErrNotExist
		case n.kind == kDir && len(n.names) > 0:
			err = errNotEmpty
		case d == nil:
			err = ErrInvalid
		}
	}
	if err != nil {
		return perr("remove", name, err)
	}
	d.del(last)
	return nil
}

func RemoveAll(path string) error {
	if fault() {
		return perr("unlinkat", path, errFault)
	}
	d, last, n, err := walk(path, false)
	if err == nil && n != nil && d != nil {
		d.del(last)
	}
	return nil
}

func Rename(from, to string) error {
	if fault() {
		return &LinkError{"rename", from, to, errFault}
	}
	d1, l1, n1, err := walk(from, false)
	if err == nil && (n1 == nil || d1 == nil) {
		err = ErrNotExist
	}
	if err != nil {
		return &LinkError{"rename", from, to, err}
	}
	d2, l2, n2, err := walk(to, false)
	if err == nil && d2 == nil {
		err = ErrExist
	}
	if err == nil && n2 != nil && n2 != n1 {
		switch {
		case n2.kind == kDir:
			err = ErrExist // the os package refuses to replace a directory
		case n1.kind == kDir:
			err = errNotDir
		}
	}
	if err == nil && n1.kind == kDir {
		for p := d2; p != nil; p = nil {
			if p == n1 {
				err = ErrInvalid
			}
		}
	}
	if err != nil {
		return &LinkError{"rename", from, to, err}
	}
	if n1 == n2 {
		return nil
	}
	d1.del(l1)
	d2.put(l2, n1)
	return nil
}

func Link(from, to string) error {
	if fault() {
		return &LinkError{"link", from, to, errFault}
	}
	_, _, n1, err := walk(from, false)
	if err == nil && n1 == nil {
		err = ErrNotExist
	}
	if err == nil && n1.kind == kDir {
		err = ErrPermission
	}
	if err != nil {
		return &LinkError{"link", from, to, err}
	}
	d2, l2, n2, err := walk(to, false)
	if err == nil && n2 != nil {
		err = ErrExist
	}
	if err != nil {
		return &LinkError{"link", from, to, err}
	}
	d2.put(l2, n1)
	return nil
}

func Symlink(target, name string) error {
	if fault() {
		return &LinkError{"symlink", target, name, errFault}
	}
	d, last, n, err := walk(name, false)
	if err == nil && n != nil {
		err = ErrExist
	}
	if err != nil {
		return &LinkError{"symlink", target, name, err}
	}
	d.put(last, &node{kind: kLink, target: target, mode: 0o777})
	return nil
}

func Readlink(name string) (string, error) {
	if fault() {
		return "", perr("readlink", name, errFault)
	}
	_, _, n, err := walk(name, false)
	if err == nil && n == nil {
		err = ErrNotExist
	}
	if err == nil && n.kind != kLink {
		err = ErrInvalid
	}
	if err != nil {
		return "", perr("readlink", name, err)
	}
	return n.target, nil
}

func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return f.ReadDir(-1)
}

func Getwd() (string, error) { return cwd, nil }
func Chdir(dir string) error {
	if fault() {
		return perr("chdir", dir, errFault)
	}
	_, _, n, err := walk(dir, true)
	if err == nil && n == nil {
		err = ErrNotExist
	}
	if err == nil && n.kind != kDir {
		err = errNotDir
	}
	if err != nil {
		return perr("chdir", dir, err)
	}
	cwd = "/"
	for i, p := range parts(dir) {
		if i > 0 {
			cwd += "/"
		}
		cwd += p
	}
	return nil
}

var temps int

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	temps++
	t := string(rune('a' + temps%26))
	pre, post := pattern, ""
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			pre, post = pattern[:i], pattern[i+1:]
			break
		}
	}
	return dir + "/" + pre + t + post
}
func TempDir() string { return "/tmp" }
func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(tempName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0o600)
}
func MkdirTemp(dir, pattern string) (string, error) {
	n := tempName(dir, pattern)
	return n, Mkdir(n, 0o700)
}

func Getenv(string) string            { return "" }
func LookupEnv(string) (string, bool) { return "", false }
func Getpid() int                     { return 1 }
func Getpagesize() int                { return 4096 }
func Exit(code int)                   { panic("os.Exit") }

// Mode is the permission bits of a path, SetMode sets them.
func Mode(path string) FileMode {
	_, _, n, err := walk(path, true)
	if err != nil || n == nil {
		return 0
	}
	return n.mode
}
func SetMode(path string, mode FileMode) {
	_, _, n, _ := walk(path, true)
	n.mode = mode
}

package main

import (
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var fakeImports = map[string]string{"os": "gostverif/fakeos", "time": "gostverif/faketime", "fmt": "gostverif/fakefmt"}

// the directory the harness module's replace directive names for gost
func gostDir(hdir string) string {
	b, err := os.ReadFile(filepath.Join(hdir, "go.mod"))
	if err != nil {
		return "/repo"
	}
	for _, l := range strings.Split(string(b), "\n") {
		if k, v, ok := strings.Cut(l, "=>"); ok && strings.Contains(k, gostPath) {
			return strings.TrimSpace(v)
		}
	}
	return "/repo"
}

// fakeOverlay rewrites, for every source file of gost, the imports of os and
// time to the in-memory stand-ins. Nothing else in the files changes.
func fakeOverlay(dir string) map[string][]byte {
	r := map[string][]byte{}
	filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		n := d.Name()
		if d.IsDir() {
			if p != dir && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ImportsOnly)
		if err != nil {
			return nil
		}
		type edit struct {
			a, b int
			s    string
		}
		var es []edit
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			fake, ok := fakeImports[path]
			if !ok {
				continue
			}
			name := path
			if im.Name != nil {
				name = im.Name.Name
			}
			a := fset.Position(im.Pos()).Offset
			b := fset.Position(im.Path.End()).Offset
			es = append(es, edit{a, b, name + " " + strconv.Quote(fake)})
		}
		if len(es) == 0 {
			return nil
		}
		sort.Slice(es, func(i, j int) bool { return es[i].a > es[j].a })
		out := string(src)
		for _, e := range es {
			out = out[:e.a] + e.s + out[e.b:]
		}
		r[p] = []byte(out)
		return nil
	})
	return r
}
